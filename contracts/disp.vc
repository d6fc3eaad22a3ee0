//@ raw
// ---------- what is printed
pub open spec fn sdg(d: int) -> char {
    if d == 0 { '⁰' } else if d == 1 { '¹' } else if d == 2 { '²' } else if d == 3 { '³' } else if d == 4 { '⁴' }
    else if d == 5 { '⁵' } else if d == 6 { '⁶' } else if d == 7 { '⁷' } else if d == 8 { '⁸' } else { '⁹' }
}
// the decimal digits of n, raised
pub open spec fn sup(n: int) -> Seq<char> decreases n { if n < 10 { seq![sdg(n)] } else { sup(n / 10).push(sdg(n % 10)) } }
pub open spec fn var_text(e: int, c: char) -> Seq<char> { if e == 0 { Seq::empty() } else if e == 1 { seq![c] } else { seq![c] + sup(e) } }
pub open spec fn vchar(i: int) -> char { if i == 0 { 'x' } else if i == 1 { 'y' } else if i == 2 { 'z' } else if i == 3 { 'u' } else { 'v' } }
pub open spec fn u8at(m: Seq<u8>, i: int) -> int { if 0 <= i < m.len() { m[i] as int } else { 0 } }
pub open spec fn vars_from(m: Seq<u8>, i: int) -> Seq<char> decreases 5 - i {
    if i >= 5 { Seq::empty() } else { var_text(u8at(m, i), vchar(i)) + vars_from(m, i + 1) }
}
pub open spec fn mdeg_text(m: Seq<u8>) -> Seq<char> { if m.len() <= 5 { vars_from(m, 0) } else { seq!['X'] + (seq!['['] + list_text(m) + seq![']']) } }
// ---------- reading back
pub open spec fn all_in(p: spec_fn(char) -> bool, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
pub open spec fn starts_out(p: spec_fn(char) -> bool, s: Seq<char>) -> bool { s.len() == 0 || !p(s[0]) }
pub proof fn run_split(p: spec_fn(char) -> bool, a: Seq<char>, s: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires all_in(p, a), all_in(p, b), starts_out(p, s), starts_out(p, t), a + s == b + t, ensures a == b, s == t
{
    let u = a + s;
    if a.len() < b.len() { assert(s.len() > 0); assert(u[a.len() as int] == s[0]); assert(u[a.len() as int] == b[a.len() as int]); }
    if b.len() < a.len() { assert(t.len() > 0); assert((b + t)[b.len() as int] == t[0]); assert(u[b.len() as int] == a[b.len() as int]); }
    assert(a =~= u.take(a.len() as int)); assert(b =~= (b + t).take(a.len() as int));
    assert(s =~= u.skip(a.len() as int)); assert(t =~= (b + t).skip(a.len() as int));
}
pub open spec fn ends_out(p: spec_fn(char) -> bool, s: Seq<char>) -> bool { s.len() == 0 || !p(s.last()) }
pub proof fn run_split_end(p: spec_fn(char) -> bool, s: Seq<char>, a: Seq<char>, t: Seq<char>, b: Seq<char>)
    requires all_in(p, a), all_in(p, b), ends_out(p, s), ends_out(p, t), s + a == t + b, ensures a == b, s == t
{
    let u = s + a; let w = t + b; assert(u == w && u.len() == s.len() + a.len() && w.len() == t.len() + b.len());
    if s.len() < t.len() { assert(w[t.len() - 1] == t.last()); assert(u[t.len() - 1] == a[t.len() - 1 - s.len()]); }
    if t.len() < s.len() { assert(u[s.len() - 1] == s.last()); assert(w[s.len() - 1] == b[s.len() - 1 - t.len()]); }
    assert(s =~= u.take(s.len() as int)); assert(t =~= w.take(s.len() as int));
    assert(a =~= u.skip(s.len() as int)); assert(b =~= w.skip(s.len() as int));
}
pub open spec fn is_dgt(c: char) -> bool { c == '0' || c == '1' || c == '2' || c == '3' || c == '4' || c == '5' || c == '6' || c == '7' || c == '8' || c == '9' }
pub open spec fn is_sdg(c: char) -> bool { c == '⁰' || c == '¹' || c == '²' || c == '³' || c == '⁴' || c == '⁵' || c == '⁶' || c == '⁷' || c == '⁸' || c == '⁹' }
pub proof fn dec_class(n: int) ensures dec(n).len() > 0, all_in(|c| is_dgt(c), dec(n)), n >= 10 ==> dec(n).len() >= 2 decreases n { if n >= 10 { dec_class(n / 10); } }
pub proof fn sup_class(n: int) ensures sup(n).len() > 0, all_in(|c| is_sdg(c), sup(n)), n >= 10 ==> sup(n).len() >= 2 decreases n { if n >= 10 { sup_class(n / 10); } }
pub proof fn dec_inj(a: int, b: int) requires a >= 0, b >= 0, dec(a) == dec(b), ensures a == b decreases a {
    dec_class(a); dec_class(b);
    let x = dec(a); let y = dec(b);
    if a < 10 { assert(x.len() == 1); assert(b < 10); assert(x[0] == dgt(a) && y[0] == dgt(b)); }
    else {
        assert(b >= 10) by { if b < 10 { assert(y.len() == 1); } }
        assert(x.last() == dgt(a % 10) && y.last() == dgt(b % 10)); assert(x.drop_last() =~= dec(a / 10)); assert(y.drop_last() =~= dec(b / 10));
        dec_inj(a / 10, b / 10);
    }
}
pub proof fn C26_superscript_reads_back(a: int, b: int) requires a >= 0, b >= 0, sup(a) == sup(b), ensures a == b decreases a {
    sup_class(a); sup_class(b);
    let x = sup(a); let y = sup(b);
    if a < 10 { assert(x.len() == 1); assert(b < 10); assert(x[0] == sdg(a) && y[0] == sdg(b)); }
    else {
        assert(b >= 10) by { if b < 10 { assert(y.len() == 1); } }
        assert(x.last() == sdg(a % 10) && y.last() == sdg(b % 10)); assert(x.drop_last() =~= sup(a / 10)); assert(y.drop_last() =~= sup(b / 10));
        C26_superscript_reads_back(a / 10, b / 10);
    }
}
pub open spec fn is_num(c: char) -> bool { is_dgt(c) || c == '-' }
pub proof fn int_class(n: int) ensures int_text(n).len() > 0, all_in(|c| is_num(c), int_text(n)), n < 0 ==> int_text(n).len() >= 2 && int_text(n)[0] == '-', n >= 0 ==> is_dgt(int_text(n)[0])
{ dec_class(n); dec_class(-n); }
pub proof fn int_inj(a: int, b: int) requires int_text(a) == int_text(b), ensures a == b {
    int_class(a); int_class(b);
    assert((a < 0) == (b < 0));
    if a < 0 { assert(int_text(a).skip(1) =~= dec(-a)); assert(int_text(b).skip(1) =~= dec(-b)); dec_inj(-a, -b); } else { dec_inj(a, b); }
}
// ---------- monomials
pub proof fn var_split(e1: int, e2: int, c: char, s: Seq<char>, t: Seq<char>)
    requires e1 >= 0, e2 >= 0, !is_sdg(c), starts_out(|x| is_sdg(x) || x == c, s), starts_out(|x| is_sdg(x) || x == c, t), var_text(e1, c) + s == var_text(e2, c) + t,
    ensures e1 == e2, s == t
{
    let p = |x: char| is_sdg(x) || x == c;
    sup_class(e1); sup_class(e2);
    run_split(p, var_text(e1, c), s, var_text(e2, c), t);
    let x = var_text(e1, c); let y = var_text(e2, c);
    if e1 >= 2 && e2 >= 2 { assert(x.skip(1) =~= sup(e1)); assert(y.skip(1) =~= sup(e2)); C26_superscript_reads_back(e1, e2); }
    else { if e1 >= 2 { assert(x.len() >= 2); } if e2 >= 2 { assert(y.len() >= 2); } }
}
pub open spec fn is_var(c: char, i: int) -> bool { (i <= 0 && c == 'x') || (i <= 1 && c == 'y') || (i <= 2 && c == 'z') || (i <= 3 && c == 'u') || (i <= 4 && c == 'v') }
pub proof fn vars_class(m: Seq<u8>, i: int)
    requires 0 <= i <= 5,
    ensures vars_from(m, i).len() > 0 ==> is_var(vars_from(m, i)[0], i), all_in(|c| is_var(c, 0) || is_sdg(c), vars_from(m, i)),
        vars_from(m, i).len() == 0 ==> forall|k: int| i <= k < 5 ==> #[trigger] u8at(m, k) == 0
    decreases 5 - i
{
    if i < 5 { vars_class(m, i + 1); sup_class(u8at(m, i)); let v = var_text(u8at(m, i), vchar(i)); let w = vars_from(m, i + 1); let t = vars_from(m, i); if v.len() > 0 { assert(t[0] == v[0]); } else { assert(t =~= w); } assert(is_var(vchar(i), i)); }
}
pub proof fn vars_inj(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= 5, vars_from(a, i) == vars_from(b, i), ensures forall|k: int| i <= k < 5 ==> #[trigger] u8at(a, k) == u8at(b, k)
    decreases 5 - i
{
    if i < 5 {
        vars_class(a, i + 1); vars_class(b, i + 1);
        var_split(u8at(a, i), u8at(b, i), vchar(i), vars_from(a, i + 1), vars_from(b, i + 1));
        vars_inj(a, b, i + 1);
    }
}
pub proof fn list_class(s: Seq<u8>) ensures all_in(|c| is_dgt(c) || c == ',' || c == ' ', list_text(s)), s.len() > 0 ==> list_text(s).len() > 0 decreases s.len()
{ if s.len() > 0 { dec_class(s.last() as int); list_class(s.drop_last()); } }
pub open spec fn list_head(s: Seq<u8>) -> Seq<char> { if s.len() <= 1 { Seq::empty() } else { list_text(s.drop_last()) + seq![',', ' '] } }
pub proof fn list_inj(a: Seq<u8>, b: Seq<u8>) requires list_text(a) == list_text(b), ensures a == b decreases a.len() {
    list_class(a); list_class(b);
    if a.len() == 0 || b.len() == 0 { assert(a =~= b); }
    else {
        let x = list_head(a); let y = list_head(b);
        assert(list_text(a) =~= x + dec(a.last() as int)); assert(list_text(b) =~= y + dec(b.last() as int));
        dec_class(a.last() as int); dec_class(b.last() as int);
        run_split_end(|c| is_dgt(c), x, dec(a.last() as int), y, dec(b.last() as int));
        dec_inj(a.last() as int, b.last() as int);
        if a.len() == 1 || b.len() == 1 { assert(a.len() == 1 && b.len() == 1) by { if a.len() > 1 { assert(x.len() >= 2); } if b.len() > 1 { assert(y.len() >= 2); } } assert(a =~= b); }
        else {
            assert(x.take(x.len() - 2) =~= list_text(a.drop_last())); assert(y.take(y.len() - 2) =~= list_text(b.drop_last()));
            list_inj(a.drop_last(), b.drop_last());
            assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
        }
    }
}
pub open spec fn canon8(m: Seq<u8>) -> bool { m.len() == 0 || m.last() != 0 }
pub proof fn canon8_ext(a: Seq<u8>, b: Seq<u8>) requires canon8(a), canon8(b), forall|k: int| #[trigger] u8at(a, k) == u8at(b, k), ensures a == b {
    if a.len() > b.len() { assert(u8at(a, a.len() - 1) == u8at(b, a.len() - 1)); }
    if b.len() > a.len() { assert(u8at(a, b.len() - 1) == u8at(b, b.len() - 1)); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(u8at(a, i) == u8at(b, i)); }
    assert(a =~= b);
}
pub proof fn mdeg_head(m: Seq<u8>) requires canon8(m), ensures (mdeg_text(m).len() == 0) == (m.len() == 0), m.len() > 0 ==> (if m.len() <= 5 { is_var(mdeg_text(m)[0], 0) } else { mdeg_text(m)[0] == 'X' })
{ vars_class(m, 0); if m.len() == 0 { vars_nil(m, 0); } else if m.len() <= 5 && mdeg_text(m).len() == 0 { assert(u8at(m, m.len() - 1) == 0); } }
pub proof fn vars_nil(m: Seq<u8>, i: int) requires m.len() == 0, 0 <= i <= 5, ensures vars_from(m, i).len() == 0 decreases 5 - i { if i < 5 { vars_nil(m, i + 1); } }
pub open spec fn ends_term(s: Seq<char>) -> bool { s.len() == 0 || s[0] == ' ' }
pub proof fn mdeg_split(a: Seq<u8>, b: Seq<u8>, s: Seq<char>, t: Seq<char>)
    requires canon8(a), canon8(b), ends_term(s), ends_term(t), mdeg_text(a) + s == mdeg_text(b) + t, ensures a == b, s == t
{
    mdeg_head(a); mdeg_head(b);
    let x = mdeg_text(a); let y = mdeg_text(b); let u = x + s;
    if x.len() > 0 { assert(u[0] == x[0]); } else if u.len() > 0 { assert(u[0] == s[0]); }
    if y.len() > 0 { assert((y + t)[0] == y[0]); } else if u.len() > 0 { assert((y + t)[0] == t[0]); }
    assert((a.len() <= 5) == (b.len() <= 5));
    if a.len() <= 5 {
        vars_class(a, 0); vars_class(b, 0);
        run_split(|c| is_var(c, 0) || is_sdg(c), x, s, y, t);
        vars_inj(a, b, 0);
        assert forall|k: int| #[trigger] u8at(a, k) == u8at(b, k) by {}
        canon8_ext(a, b);
    } else {
        let s2 = seq![']'] + s; let t2 = seq![']'] + t;
        assert(u.skip(2) =~= list_text(a) + s2); assert((y + t).skip(2) =~= list_text(b) + t2);
        list_class(a); list_class(b);
        run_split(|c| is_dgt(c) || c == ',' || c == ' ', list_text(a), s2, list_text(b), t2);
        list_inj(a, b); assert(s2.skip(1) =~= s); assert(t2.skip(1) =~= t);
    }
}
pub proof fn C26_multidegree_reads_back(a: Seq<u8>, b: Seq<u8>) requires canon8(a), canon8(b), mdeg_text(a) == mdeg_text(b), ensures a == b
{ let e = Seq::<char>::empty(); mdeg_split(a, b, e, e); }
//@ fn superscript(n)
//@@ ensures: ret@ == sup(n as int)
//@@ decreases: n
//@ fn MultiDegree__write_var(this, f, idx, ident)
//@@ requires: ident@.len() == 1
//@@ ensures: wrote(ret, *old(f), *final(f), var_text(u8at(this.0@, idx as int), ident@[0]))
//@@ hint start
assert(ident@ =~= seq![ident@[0]]);
//@ fn MultiDegree__Display__fmt(this, f)
//@@ ensures: wrote(ret, *old(f), *final(f), mdeg_text(this.0@))
//@@ hint start
reveal_with_fuel(vars_from, 7);
