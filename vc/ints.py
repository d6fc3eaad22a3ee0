"""verified images of the machine integer operations that the base prelude does not list, for the types a unit uses"""
import re
SIGNED = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize']
UNSIGNED = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize']
ALL = SIGNED + UNSIGNED
UABS = {'i8': 'u8', 'i16': 'u16', 'i32': 'u32', 'i64': 'u64', 'i128': 'u128', 'isize': 'usize'}
OPS = ['add', 'sub', 'mul', 'neg', 'div', 'rem', 'cmp', 'max', 'min', 'abs', 'signum', 'is_negative', 'is_positive', 'abs_diff', 'unsigned_abs', 'pow', 'rem_euclid',
       'saturating_sub', 'saturating_add', 'checked_add', 'checked_sub', 'checked_mul', 'wrapping_add', 'wrapping_sub', 'clamp', 'iter_max', 'iter_min', 'iter_max_ref', 'iter_min_ref', 'sum', 'sum_ref', 'product', 'product_ref', 'iter_eq', 'iter_eq_ref', 'max_by_key', 'min_by_key', 'range_incl']
ITER = {'iter_max', 'iter_min', 'iter_max_ref', 'iter_min_ref', 'sum', 'sum_ref', 'product', 'product_ref', 'iter_eq', 'iter_eq_ref', 'max_by_key', 'min_by_key', 'range_incl'}
PURE = set(OPS) - {'div', 'rem', 'neg', 'add', 'sub', 'mul', 'cmp', 'rem_euclid'} - ITER
SYM = {'add': '+', 'sub': '-', 'mul': '*'}


def one(t, f):
    s = t in SIGNED
    D = dict(t=t)
    if f in SYM:
        return 'pub fn {t}_{f}(a: {t}, b: {t}) -> (r: {t}) ensures r == a {o} b {{ match a.checked_{f}(b) {{ Some(r) => r, None => vpanic(Ghost(true)) }} }}'.format(t=t, f=f, o=SYM[f])
    if f in ('checked_add', 'checked_sub', 'checked_mul'):
        o = SYM[f[8:]]
        return ('pub fn {t}_{f}(a: {t}, b: {t}) -> (r: Option<{t}>) ensures {t}::MIN <= a {o} b <= {t}::MAX ==> r == Some((a {o} b) as {t}), !({t}::MIN <= a {o} b <= {t}::MAX) ==> r is None '
                '{{ a.{f}(b) }}').format(t=t, f=f, o=o)
    if f in ('wrapping_add', 'wrapping_sub'):
        o = SYM[f[9:]]
        return 'pub fn {t}_{f}(a: {t}, b: {t}) -> (r: {t}) ensures {t}::MIN <= a {o} b <= {t}::MAX ==> r == a {o} b {{ a.{f}(b) }}'.format(t=t, f=f, o=o)
    if f in ('saturating_add', 'saturating_sub'):
        o = SYM[f[11:]]
        hi = '{t}::MAX'.format(t=t)
        big = ('if b >= 0 {{ {a} }} else {{ {b} }}'.format(a='%s::MAX' % t if o == '+' else '%s::MIN' % t, b='%s::MIN' % t if o == '+' else '%s::MAX' % t)) if s else ('%s::MAX' % t if o == '+' else '0')
        return ('pub fn {t}_{f}(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a {o} b > {t}::MAX {{ {t}::MAX as int }} else if a {o} b < {t}::MIN {{ {t}::MIN as int }} else {{ a {o} b }}) '
                '{{ match a.checked_{c}(b) {{ Some(r) => r, None => {big} }} }}').format(t=t, f=f, o=o, c=f[11:], big=big)
    if f == 'neg' and s:
        return 'pub fn {t}_neg(a: {t}) -> (r: {t}) ensures r == -a {{ if a == {t}::MIN {{ vpanic(Ghost(true)) }} -a }}'.format(**D)
    if f in ('div', 'rem') and not s:
        return ('pub fn {t}_{f}(a: {t}, b: {t}, Ghost(ok): Ghost<bool>) -> (r: {t}) requires b == 0 ==> ok, ensures b != 0, r == a {o} b {{ if b == 0 {{ vpanic(Ghost(ok)) }} a {o} b }}'
                .format(t=t, f=f, o='/' if f == 'div' else '%'))
    if f in ('div', 'rem') and t in ('i8', 'i16', 'i32', 'isize'):
        return ('pub fn {t}_{f}(a: {t}, b: {t}, Ghost(ok): Ghost<bool>) -> (r: {t}) requires b == 0 ==> ok, ensures b != 0, r == t_{f}_spec(a as int, b as int) '
                '{{ if b != 0 && a == {t}::MIN && b == -1 {{ vpanic(Ghost(true)) }} let q = i64_{f}(a as i64, b as i64, Ghost(ok)); if q < {t}::MIN as i64 || q > {t}::MAX as i64 {{ vpanic(Ghost(true)) }} q as {t} }}').format(t=t, f=f)
    if f == 'rem_euclid':
        if not s:
            return one(t, 'rem').replace('%s_rem(' % t, '%s_rem_euclid(' % t)
        if t in ('i64', 'i32', 'i16', 'i8', 'isize'):
            return ('pub fn {t}_rem_euclid(a: {t}, b: {t}, Ghost(ok): Ghost<bool>) -> (r: {t}) requires b == 0 ==> ok, ensures b != 0, 0 <= r, r < b || r < -b, '
                    't_rem_spec(a as int, b as int) >= 0 ==> r == t_rem_spec(a as int, b as int), t_rem_spec(a as int, b as int) < 0 ==> r == t_rem_spec(a as int, b as int) + (if b < 0 {{ -b }} else {{ b as int }}) '
                    '{{ let q = {t}_rem(a, b, Ghost(ok)); if q < 0 {{ if b < 0 {{ q - b }} else {{ q + b }} }} else {{ q }} }}').format(**D)
    if f == 'cmp':
        return 'pub fn {t}_cmp(a: {t}, b: {t}) -> (r: Ordering) ensures r == int_cmp(a as int, b as int) {{ if a < b {{ Ordering::Less }} else if a == b {{ Ordering::Equal }} else {{ Ordering::Greater }} }}'.format(**D)
    if f in ('max', 'min'):
        o = '>=' if f == 'max' else '<='
        return 'pub fn {t}_{f}(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a {o} b {{ a }} else {{ b }}) {{ if a {o} b {{ a }} else {{ b }} }}'.format(t=t, f=f, o=o)
    if f == 'clamp':
        return ('pub fn {t}_clamp(a: {t}, b: {t}, c: {t}) -> (r: {t}) ensures b <= c ==> r == (if a < b {{ b }} else if a > c {{ c }} else {{ a }}) '
                '{{ if b > c {{ vpanic(Ghost(true)) }} if a < b {{ b }} else if a > c {{ c }} else {{ a }} }}').format(**D)
    if f == 'abs' and s:
        return 'pub fn {t}_abs(a: {t}) -> (r: {t}) ensures r == (if a < 0 {{ -a }} else {{ a as int }}) {{ if a < 0 {{ {t}_neg(a) }} else {{ a }} }}'.format(**D)
    if f == 'signum' and s:
        return 'pub fn {t}_signum(a: {t}) -> (r: {t}) ensures r == (if a < 0 {{ -1int }} else if a == 0 {{ 0int }} else {{ 1int }}) {{ if a < 0 {{ -1 }} else if a == 0 {{ 0 }} else {{ 1 }} }}'.format(**D)
    if f in ('is_negative', 'is_positive') and s:
        return 'pub fn {t}_{f}(a: {t}) -> (r: bool) ensures r == (a {o} 0) {{ a {o} 0 }}'.format(t=t, f=f, o='<' if f == 'is_negative' else '>')
    if f == 'abs_diff' and not s:
        return 'pub fn {t}_abs_diff(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a < b {{ b - a }} else {{ a - b }}) {{ if a < b {{ b - a }} else {{ a - b }} }}'.format(**D)
    if f == 'unsigned_abs' and t in ('i8', 'i16', 'i32', 'i64'):
        return 'pub fn {t}_unsigned_abs(a: {t}) -> (r: {u}) ensures r == (if a < 0 {{ -a }} else {{ a as int }}) {{ if a < 0 {{ (-(a as i128)) as {u} }} else {{ a as {u} }} }}'.format(t=t, u=UABS[t])
    if f == 'pow':
        return ('pub fn {t}_pow(a: {t}, e: u32) -> (r: {t}) ensures r == ipow(a as int, e as nat) {{ let mut r: {t} = 1; let mut k: u32 = 0;'
                ' while k < e invariant k <= e, r == ipow(a as int, k as nat) decreases e - k {{'
                ' proof {{ assert(ipow(a as int, (k + 1) as nat) == a * ipow(a as int, k as nat)); assert(a * r == r * a) by(nonlinear_arith); }}'
                ' r = match a.checked_mul(r) {{ Some(x) => x, None => vpanic(Ghost(true)) }}; k = k + 1; }} r }}').format(**D)
    if f in ('iter_max', 'iter_min'):
        o = '<=' if f == 'iter_max' else '>='
        return ('pub fn {t}_{f}(it: VIter<{t}>) -> (r: Option<{t}>) ensures it@.len() == 0 ==> r is None, it@.len() > 0 ==> r is Some && it@.contains(r->Some_0) && forall|i: int| 0 <= i < it@.len() ==> #[trigger] it@[i] {o} r->Some_0 '
                '{{ let ghost s = it@; let mut it = it; let mut m: Option<{t}> = None; let ghost mut n: int = 0;'
                ' while it.has_next() invariant 0 <= n <= s.len(), it@ == s.skip(n), n == 0 ==> m is None, n > 0 ==> m is Some && (exists|i: int| 0 <= i < n && #[trigger] s[i] == m->Some_0) && forall|i: int| 0 <= i < n ==> #[trigger] s[i] {o} m->Some_0, decreases s.len() - n {{'
                ' let x = it.next_item(); proof {{ n = n + 1; assert(x == s[n - 1]); }} m = match m {{ None => Some(x), Some(y) => if y {o} x {{ Some(x) }} else {{ Some(y) }} }}; }} m }}').format(t=t, f=f, o=o)
    if f in ('sum', 'product'):
        z, o, m, sp = (0, '+', 'add', 'isum') if f == 'sum' else (1, '*', 'mul', 'iprod')
        if f == 'sum' and t == 'u8' or f == 'sum' and t == 'usize':
            return None
        return ('pub open spec fn {sp}_{t}(s: Seq<{t}>) -> int decreases s.len() {{ if s.len() == 0 {{ {z} }} else {{ {sp}_{t}(s.drop_last()) {o} s.last() }} }}\n'
                'pub fn {t}_{f}(it: VIter<{t}>) -> (r: {t}) ensures r == {sp}_{t}(it@) {{ let ghost s = it@; let mut it = it; let mut r: {t} = {z}; let ghost mut n: int = 0;'
                ' while it.has_next() invariant 0 <= n <= s.len(), it@ == s.skip(n), r == {sp}_{t}(s.take(n)), decreases s.len() - n {{'
                ' let x = it.next_item(); proof {{ n = n + 1; assert(x == s[n - 1]); assert(s.take(n).drop_last() =~= s.take(n - 1)); }}'
                ' r = match r.checked_{m}(x) {{ Some(y) => y, None => vpanic(Ghost(true)) }}; }} proof {{ assert(s.take(n) =~= s); }} r }}').format(t=t, f=f, z=z, o=o, m=m, sp=sp)
    if f in ('sum_ref', 'product_ref'):
        g = f[:-4]
        sp = {'u8': 'u8sum', 'usize': 'usum'}.get(t, 'isum_' + t) if g == 'sum' else 'iprod_' + t
        return "pub fn {t}_{f}<'a>(it: VIter<&'a {t}>) -> (r: {t}) ensures r == {sp}(unref(it@)) {{ let c = it.cloned(); proof {{ assert(c@ =~= unref(it@)); }} {t}_{g}(c) }}".format(t=t, f=f, g=g, sp=sp)
    if f in ('iter_max_ref', 'iter_min_ref'):
        o = '<=' if f == 'iter_max_ref' else '>='
        return ("pub fn {t}_{f}<'a>(it: VIter<&'a {t}>) -> (r: Option<&'a {t}>) ensures it@.len() == 0 ==> r is None, it@.len() > 0 ==> r is Some && it@.contains(r->Some_0) && forall|i: int| 0 <= i < it@.len() ==> *#[trigger] it@[i] {o} *r->Some_0 "
                "{{ let ghost s = it@; let mut it = it; let mut m: Option<&'a {t}> = None; let ghost mut n: int = 0;"
                ' while it.has_next() invariant 0 <= n <= s.len(), it@ == s.skip(n), n == 0 ==> m is None, n > 0 ==> m is Some && (exists|i: int| 0 <= i < n && #[trigger] s[i] == m->Some_0) && forall|i: int| 0 <= i < n ==> *#[trigger] s[i] {o} *m->Some_0, decreases s.len() - n {{'
                ' let x = it.next_item(); proof {{ n = n + 1; assert(x == s[n - 1]); }} m = match m {{ None => Some(x), Some(y) => if *y {o} *x {{ Some(x) }} else {{ Some(y) }} }}; }} m }}').format(t=t, f=f, o=o)
    if f == 'iter_eq':
        return ('pub fn {t}_iter_eq(a: VIter<{t}>, b: VIter<{t}>) -> (r: bool) ensures r == (a@ == b@) {{ let ghost s = a@; let ghost u = b@; let mut c = a; let mut d = b; let ghost mut n: int = 0;'
                ' while c.has_next() && d.has_next() invariant s == a@, u == b@, 0 <= n <= s.len(), n <= u.len(), c@ == s.skip(n), d@ == u.skip(n), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == u[i], decreases s.len() - n {{'
                ' let x = c.next_item(); let y = d.next_item(); proof {{ n = n + 1; assert(x == s[n - 1] && y == u[n - 1]); assert(c@ =~= s.skip(n)); assert(d@ =~= u.skip(n)); }} if x != y {{ proof {{ assert(s[n - 1] != u[n - 1]); }} return false; }} }}'
                ' if c.has_next() || d.has_next() {{ proof {{ assert(s.len() != u.len()); }} return false; }} proof {{ assert(s.len() == n && u.len() == n); assert(s =~= u); }} true }}').format(**D)
    if f == 'iter_eq_ref':
        return ("pub fn {t}_iter_eq_ref<'a, 'b>(a: VIter<&'a {t}>, b: VIter<&'b {t}>) -> (r: bool) ensures r == (unref(a@) == unref(b@)) {{ let c = a.cloned(); let d = b.cloned(); proof {{ assert(c@ =~= unref(a@)); assert(d@ =~= unref(b@)); }} {t}_iter_eq(c, d) }}").format(**D)
    if f in ('max_by_key', 'min_by_key'):
        g = f[:6]
        at = f[:3] + '_at'
        return ('pub open spec fn {f}_of_{t}<T>(g: spec_fn(T) -> {t}) -> spec_fn(T, T) -> Ordering {{ |x: T, y: T| int_cmp(g(x) as int, g(y) as int) }}\n'
                'pub fn {t}_{f}<T, K: Fn(&T) -> {t}>(it: VIter<T>, k: K, Ghost(g): Ghost<spec_fn(T) -> {t}>) -> (r: Option<T>)'
                ' requires forall|x: T| call_requires(k, (&x,)), forall|x: T, y: {t}| #[trigger] call_ensures(k, (&x,), y) ==> y == g(x),'
                ' ensures it@.len() == 0 ==> r is None, it@.len() > 0 ==> r is Some && exists|j: int| #[trigger] {at}(it@, {f}_of_{t}(g), j) && r->Some_0 == it@[j]'
                ' {{ it.{g}(|x: &T, y: &T| -> (o: Ordering) ensures o == int_cmp(g(*x) as int, g(*y) as int) {{ {t}_cmp(k(x), k(y)) }}, Ghost({f}_of_{t}(g))) }}').format(t=t, f=f, g=g, at=at)
    if f == 'range_incl':
        return ('pub open spec fn range_incl_{t}(a: {t}, b: {t}) -> Seq<{t}> {{ Seq::new((if a <= b {{ (b - a + 1) as nat }} else {{ 0 }}), |i: int| (a + i) as {t}) }}\n'
                'pub fn {t}_range_incl(a: {t}, b: {t}) -> (r: VIter<{t}>) ensures r@ == range_incl_{t}(a, b), r@.len() == (if a <= b {{ b - a + 1 }} else {{ 0 }}), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i'
                ' {{ let mut r: Vec<{t}> = Vec::new(); if a > b {{ proof {{ assert(r@ =~= range_incl_{t}(a, b)); }} return vec_into_iter(r); }} let mut i: {t} = a;'
                ' while i < b invariant a <= i <= b, r@.len() == i - a, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == a + k decreases b - i {{ r.push(i); i = i + 1; }}'
                ' r.push(i); proof {{ assert(r@ =~= range_incl_{t}(a, b)); }} vec_into_iter(r) }}').format(**D)
    if f.startswith('as_'):
        d = f[3:]
        return 'pub fn {t}_as_{d}(a: {t}) -> (r: {d}) ensures r == (a as {d}) {{ #[verifier::truncate] (a as {d}) }}'.format(t=t, d=d)
    return None


NEED = {'abs': ['neg'], 'rem_euclid': ['rem'], 'sum_ref': ['sum'], 'product_ref': ['product'], 'iter_eq_ref': ['iter_eq'], 'max_by_key': ['cmp'], 'min_by_key': ['cmp']}
RX = re.compile(r'\b(%s)_(%s|as_(?:%s))\(' % ('|'.join(ALL), '|'.join(sorted(OPS, key=len, reverse=True)), '|'.join(ALL)))


def needed(text, prelude):
    """the functions used in text that prelude does not define"""
    out, todo = [], [m.groups() for m in RX.finditer(text)]
    seen = set()
    while todo:
        t, f = todo.pop()
        if (t, f) in seen:
            continue
        seen.add((t, f))
        if re.search(r'fn %s_%s[(<]' % (t, f), prelude):
            continue
        d = one(t, f)
        if d is None:
            continue
        out.append(d)
        todo += [(t, g) for g in NEED.get(f, [])]
    return '\n'.join(sorted(out))


BASE = {('i64', 'div'), ('i64', 'rem'), ('usize', 'sum'), ('u8', 'sum')}


def known(t, f):
    return t in ALL and (one(t, f) is not None or (t, f) in BASE)



def widens(a, b):
    """every value of type a is one of type b"""
    bits = lambda t: 64 if t.endswith('size') else int(t[1:])
    lo = lambda t: 32 if t.endswith('size') else int(t[1:])
    if a in UNSIGNED:
        return bits(a) <= lo(b) if b in UNSIGNED else bits(a) < lo(b)
    return b in SIGNED and bits(a) <= lo(b)
