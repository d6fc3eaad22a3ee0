// ===== prelude: formatting.  A Formatter is the text written so far and whether the writer below refuses.
#[allow(unused_imports)] use vstd::string::*;
pub struct FmtError {}
pub struct Fmtr { pub v: Vec<char>, pub fail: bool }
impl Fmtr {
    pub closed spec fn text(&self) -> Seq<char> { self.v@ }
    pub closed spec fn bad(&self) -> bool { self.fail }
    fn put(&mut self, c: char) ensures final(self).text() == old(self).text().push(c), final(self).bad() == old(self).bad() { self.v.push(c); }
}
// what one write does: it appends s, or it fails, which it may only when the writer below refuses
pub open spec fn wrote(r: Result<(), FmtError>, f0: Fmtr, f1: Fmtr, s: Seq<char>) -> bool {
    &&& f1.bad() == f0.bad()
    &&& r is Err ==> f0.bad()
    &&& r is Ok ==> f1.text() == f0.text() + s
}
pub open spec fn dgt(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
pub open spec fn dec(n: int) -> Seq<char> decreases n { if n < 10 { seq![dgt(n)] } else { dec(n / 10).push(dgt(n % 10)) } }
pub open spec fn int_text(x: int) -> Seq<char> { if x < 0 { seq!['-'] + dec(-x) } else { dec(x) } }
// v[0], v[1], ..., as the elements of a {:?} list
pub open spec fn list_text(s: Seq<u8>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { dec(s[0] as int) } else { list_text(s.drop_last()) + seq![',', ' '] + dec(s.last() as int) }
}
fn dgt_exec(d: u64) -> (r: char) requires d < 10, ensures r == dgt(d as int) {
    match d { 0 => '0', 1 => '1', 2 => '2', 3 => '3', 4 => '4', 5 => '5', 6 => '6', 7 => '7', 8 => '8', _ => '9' }
}
fn put_dec(f: &mut Fmtr, n: u64) ensures final(f).text() == old(f).text() + dec(n as int), final(f).bad() == old(f).bad() decreases n {
    let ghost t = f.text();
    if n >= 10 { put_dec(f, n / 10); }
    f.put(dgt_exec(n % 10));
    proof { assert(f.text() =~= t + dec(n as int)); }
}
// Formatter::write_str, and `{}` of a str or String with default options
pub fn fmt_str(f: &mut Fmtr, s: &str) -> (r: Result<(), FmtError>)
    ensures wrote(r, *old(f), *final(f), s@)
{
    if f.fail { return Err(FmtError {}); }
    let ghost t = f.text();
    let n = s.unicode_len(); let mut i: usize = 0;
    while i < n invariant i <= n, n == s@.len(), f.bad() == old(f).bad(), f.text() == t + s@.take(i as int), t == old(f).text() decreases n - i
    { let ghost u = f.text(); f.put(s.get_char(i)); i = i + 1; proof { assert(f.text() =~= t + s@.take(i as int)); } }
    proof { assert(t + s@.take(0) =~= t); assert(s@.take(n as int) =~= s@); }
    Ok(())
}
pub fn fmt_string(f: &mut Fmtr, s: &String) -> (r: Result<(), FmtError>) ensures wrote(r, *old(f), *final(f), s@) { fmt_str(f, s.as_str()) }
pub fn fmt_i64(f: &mut Fmtr, x: &i64) -> (r: Result<(), FmtError>)
    ensures wrote(r, *old(f), *final(f), int_text(*x as int))
{
    if f.fail { return Err(FmtError {}); }
    let ghost t = f.text(); let x = *x;
    if x >= 0 { put_dec(f, x as u64); }
    else {
        f.put('-');
        let n: u64 = if x == i64::MIN { 9223372036854775808u64 } else { (-x) as u64 };
        put_dec(f, n);
        proof { assert(f.text() =~= t + (seq!['-'] + dec(-x))); }
    }
    Ok(())
}
pub fn fmt_u8(f: &mut Fmtr, x: &u8) -> (r: Result<(), FmtError>) ensures wrote(r, *old(f), *final(f), int_text(*x as int))
{ if f.fail { return Err(FmtError {}); } put_dec(f, *x as u64); Ok(()) }
pub fn fmt_usize(f: &mut Fmtr, x: &usize) -> (r: Result<(), FmtError>) ensures wrote(r, *old(f), *final(f), int_text(*x as int))
{ if f.fail { return Err(FmtError {}); } put_dec(f, *x as u64); Ok(()) }
// `{:?}` of a Vec<u8>: [a, b, c]
pub fn fmt_debug_u8s(f: &mut Fmtr, v: &[u8]) -> (r: Result<(), FmtError>)
    ensures wrote(r, *old(f), *final(f), seq!['['] + list_text(v@) + seq![']'])
{
    if f.fail { return Err(FmtError {}); }
    let ghost t = f.text();
    f.put('[');
    let n = v.len(); let mut i: usize = 0;
    proof { assert(f.text() =~= t + seq!['['] + list_text(v@.take(0))); }
    while i < n invariant i <= n, n == v@.len(), f.bad() == old(f).bad(), f.text() == t + seq!['['] + list_text(v@.take(i as int)), t == old(f).text() decreases n - i
    {
        let ghost u = f.text(); let ghost w = v@.take(i as int);
        if i > 0 { f.put(','); f.put(' '); }
        put_dec(f, v[i] as u64);
        proof { let w1 = v@.take(i + 1); assert(w1.drop_last() =~= w); assert(w1.last() == v@[i as int]); assert(f.text() =~= t + seq!['['] + list_text(w1)); }
        i = i + 1;
    }
    f.put(']');
    proof { assert(v@.take(n as int) =~= v@); assert(f.text() =~= t + (seq!['['] + list_text(v@) + seq![']'])); }
    Ok(())
}
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
pub fn string_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { let mut a = a; a.append(b); a }
pub fn string_push(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.append(t); }
pub fn string_as_str(a: &String) -> (r: &str) ensures r@ == a@ { a.as_str() }
// concatenation
pub broadcast proof fn cat_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn cat_nil(a: Seq<char>) ensures #[trigger] (a + Seq::<char>::empty()) == a { assert(a + Seq::<char>::empty() =~= a); }
pub broadcast proof fn nil_cat(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn wrote_nothing(r: Result<(), FmtError>, f0: Fmtr, s: Seq<char>) requires r is Ok, s.len() == 0, ensures #[trigger] wrote(r, f0, f0, s) { assert(f0.text() + s =~= f0.text()); }
pub broadcast group cat_facts { cat_assoc, cat_nil, nil_cat, wrote_nothing }
