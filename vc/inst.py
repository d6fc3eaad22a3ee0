"""The interface assumed of a field (prelude_field.rs), instantiated with Rational.

Every function the matrix and polynomial groups call on `F` is turned into an obligation: the same contract text with
F read as Rational (an F-value x is read as the number fv(x) it denotes), met by a call of the extracted Rational
operation.  Every axiom about F becomes a lemma about the numbers."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))

BODY = {
    'f_zero': 'Rational__Zero__ZERO()', 'f_one': 'Rational__One__ONE()',
    'f_add': 'Rational__Add__add(a, b)', 'f_sub': 'Rational__Sub__sub(a, b)', 'f_mul': 'Rational__Mul__mul(a, b)',
    'f_div': 'Rational__Div__div(a, b, Ghost(false))', 'f_neg': 'Rational__Neg__neg(a)', 'f_inv': 'Rational__Field__inv(a, Ghost(false))',
    'f_powi32': 'Rational__Field__powi32(a, n, Ghost(false))',
    'f_add_assign': 'Rational__AddAssign__add_assign(a, b)', 'f_sub_assign': 'Rational__SubAssign__sub_assign(a, b)',
    'f_mul_assign': 'Rational__MulAssign__mul_assign(a, b)', 'f_div_assign': 'Rational__DivAssign__div_assign(a, b, Ghost(false))',
    'f_eq': 'Rational__PartialEq__eq(a, b)', 'f_is_zero': 'Rational__Zero__is_zero(a)', 'f_is_one': 'Rational__One__is_one(a)',
    'f_sum': 'Rational__Sum__sum(it)', 'f_eps_eq': 'Rational__EpsilonEquality__epsilon_equals(a, b)',
    'f_stab': 'Rational__StabilityCmp__stability_cmp(a, b)', 'f_partial_cmp': 'Rational__PartialOrd__partial_cmp(a, b)',
    'f_lt': 'match Rational__PartialOrd__partial_cmp(a, b) { Some(Ordering::Less) => true, _ => false }',
    'f_gt': 'match Rational__PartialOrd__partial_cmp(a, b) { Some(Ordering::Greater) => true, _ => false }',
    'f_le': 'match Rational__PartialOrd__partial_cmp(a, b) { Some(Ordering::Less) | Some(Ordering::Equal) => true, _ => false }',
    'f_ge': 'match Rational__PartialOrd__partial_cmp(a, b) { Some(Ordering::Greater) | Some(Ordering::Equal) => true, _ => false }',
}
MODEL = '''
// the numbers: the model of the opaque type F
pub struct FV { pub x: real }
impl FV {
    pub open spec fn v(self) -> real { self.x }
    pub open spec fn of(r: real) -> FV { FV { x: r } }
}
pub open spec fn fv(r: Rational) -> FV { FV { x: rv(r) } }
pub open spec fn fzero() -> FV { FV { x: 0real } }
pub open spec fn fone() -> FV { FV { x: 1real } }
pub open spec fn fadd(a: FV, b: FV) -> FV { FV { x: a.x + b.x } }
pub open spec fn fsub(a: FV, b: FV) -> FV { FV { x: a.x - b.x } }
pub open spec fn fmul(a: FV, b: FV) -> FV { FV { x: a.x * b.x } }
pub open spec fn fdiv(a: FV, b: FV) -> FV { FV { x: a.x / b.x } }
pub open spec fn fneg(a: FV) -> FV { FV { x: -a.x } }
pub open spec fn finv(a: FV) -> FV { FV { x: 1real / a.x } }
pub open spec fn fpow(a: FV, n: int) -> FV { FV { x: rpow(a.x, n as nat) } }
'''
STAB = '''
pub open spec fn is_rat(a: FV, r: Rational) -> bool { simplest(r) && fv(r) == a }
pub open spec fn fstabkey(a: FV) -> real {
    if exists|r: Rational| #[trigger] is_rat(a, r) { stabkey(choose|r: Rational| #[trigger] is_rat(a, r)) } else if a.x == 0real { 0real } else { 1real }
}
pub proof fn inst_key(r: Rational) requires simplest(r), ensures fstabkey(fv(r)) == stabkey(r) {
    let a = fv(r); assert(is_rat(a, r)); let q = choose|q: Rational| #[trigger] is_rat(a, q); C01_equal_iff_same_number(q, r);
}
'''
PROOF = {
    'ax_f_stab': 'if exists|r: Rational| #[trigger] is_rat(a, r) { let r = choose|r: Rational| #[trigger] is_rat(a, r); stabkey_cmp(r, r); }',
    'ax_f_mul': 'assert(a.x * b.x == b.x * a.x) by(nonlinear_arith);',
    'ax_f_div': 'if b.x != 0real { let (p, q) = (a.x, b.x); assert((p / q) * q == p) by(nonlinear_arith) requires q != 0real; }',
}
HINT = {
    'f_stab': 'inst_key(*a); inst_key(*b); stabkey_cmp(*a, *b);',
    'f_zero': 'coprime_one(0); frac_consts();', 'f_one': 'coprime_one(1); frac_consts();',
    'f_div': 'frac_zero(rn(b), rd(b));', 'f_inv': 'frac_zero(rn(a), rd(a));', 'f_div_assign': 'frac_zero(rn(b), rd(b));',
    'f_sum': 'rsum_is(it@);',
}
CMP = ['f_eq', 'f_eps_eq', 'f_stab', 'f_partial_cmp', 'f_lt', 'f_le', 'f_gt', 'f_ge']
ARI = [k for k in BODY if k not in CMP or k == 'f_eq']


def calls(name):
    """extracted functions the instance of one interface function calls"""
    return re.findall(r'(?:Rational|Integer)__\w+', BODY[name])


def text(part, only=None):
    """part 'ari' / 'cmp': the obligations of every interface function; with `only`, just those functions, under their own names"""
    src = open(os.path.join(HERE, 'prelude_field.rs')).read()
    want = only if only is not None else CMP if part == 'cmp' else ARI
    pre = 'inst_' if only is None else ''
    out = [MODEL]
    # axioms -> lemmas
    for m in [] if only is not None else re.finditer(r'pub broadcast axiom fn (ax_\w+)\(([^)]*)\)\s*ensures ([^;]*);', src):
        n, ps, ens = m.groups()
        if (n == 'ax_f_stab') != (part == 'cmp'):
            continue
        out.append('pub proof fn inst_%s(%s) ensures %s { %s }' % (n, re.sub(r'\bF\b', 'FV', ps), re.sub(r'\bF::', 'FV::', re.sub(r'#\[trigger\] ', '', ens)), PROOF.get(n, '')))
    seen = {m.group(1) for m in re.finditer(r'axiom fn (\w+)', src)}
    if only is not None:
        if set(only) & {'f_sum', 'f_stab', 'f_lt', 'f_gt', 'f_le', 'f_ge', 'f_partial_cmp', 'f_powi32'}:
            raise Exception('not available at this instance: ' + ', '.join(only))
    elif part == 'cmp':
        out.insert(1, STAB)
        m = re.search(r'pub open spec fn fstab\(.*?\n}\n', src, re.S)
        out.append(re.sub(r'\bF\b', 'FV', m.group(0)))
        m = re.search(r'pub open spec fn rcmp\(.*', src)
        out.append(m.group(0))
    else:
        m = re.search(r'pub open spec fn rsum\(.*', src)
        out.append(re.sub(r'\bF\b', 'Rational', m.group(0)).replace('s.last().v()', 'fv(s.last()).v()'))
        out.append('pub proof fn rsum_is(s: Seq<Rational>) ensures rsum(s) == rat_sum(s) decreases s.len() { if s.len() > 0 { rsum_is(s.drop_last()); } }')
    done = set()
    for m in re.finditer(r'^(?:#\[verifier::external_body\] )?pub fn (f_\w+)\(([^)]*)\)( -> \(r: ([^()]*)\))?(.*?)\{', src, re.M | re.S):
        n, ps, rdecl, rt, con = m.groups()
        if n not in BODY:
            raise Exception('no instance for ' + n)
        done.add(n)
        if n not in want:
            continue
        con = con.strip()
        req, ens = '', con
        mm = re.match(r'requires (.*?),\s*ensures (.*)$', con, re.S)
        if mm:
            req, ens = mm.groups()
        else:
            ens = re.match(r'ensures (.*)$', con, re.S).group(1)
        req0, extra_ens = [], []
        for p in [p for p in ps.split(',') if p.strip()]:
            v, t = [x.strip() for x in p.split(':', 1)]
            if t == 'F':
                req0.append('simplest(%s)' % v)
                req, ens = [re.sub(r'\b%s\b' % v, 'fv(%s)' % v, x) for x in (req, ens)]
            elif t == '&F':
                req0.append('simplest(*%s)' % v)
                req, ens = [re.sub(r'\*%s\b' % v, 'fv(*%s)' % v, x) for x in (req, ens)]
                req, ens = [re.sub(r'(?<!\*)\b%s\.v\(\)' % v, 'fv(*%s).v()' % v, x) for x in (req, ens)]
            elif t == '&mut F':
                req0.append('simplest(*old(%s))' % v)
                extra_ens.append('simplest(*final(%s))' % v)
                for k in ('old', 'final'):
                    ens = ens.replace('*%s(%s)' % (k, v), 'fv(*%s(%s))' % (k, v))
            elif t == 'VIter<F>':
                req0.append('forall|i: int| 0 <= i < %s@.len() ==> simplest(#[trigger] %s@[i])' % (v, v))
        if rt == 'F':
            ens = re.sub(r'\br\b', 'fv(r)', ens)
            extra_ens.append('simplest(r)')
        req = ', '.join(req0 + ([req] if req else []))
        pr = ps.replace('F', 'Rational')
        call = BODY[n]
        post = ''
        hint = HINT.get(n, '')
        if 'fv(*a) ==' in ens or '== (fv(*a)' in ens:
            hint += ' C01_equal_iff_same_number(*a, %s);' % ('*b' if '*b' in ens else 'Rational { numer: Integer(0), denom: Integer(1) }' if 'fzero' in ens else 'Rational { numer: Integer(1), denom: Integer(1) }') if n in ('f_eq', 'f_eps_eq') else ''
        out.append('pub fn %s%s(%s)%s\n    %sensures %s\n{ proof { %s } %s }' % (
            pre, n, pr, rdecl.replace('F)', 'Rational)') if rdecl else '', 'requires %s,\n    ' % req if req else '', ', '.join([ens.rstrip().rstrip(',')] + extra_ens), hint, call))
    assert done == set(BODY), (set(BODY) - done)
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    print(text(sys.argv[1]))
