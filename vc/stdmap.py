"""Images of the std / itertools functions used by algeo: exec calls, spec values,
and the preconditions of those calls.  Contracts of the images are in prelude.rs."""
import re
import ints
from translate import Unsup, last, deref_s, ref_s, OPN

IT = 'core::iter::traits::iterator::Iterator::'


def peel(t):
    while t['t'] == 'ref':
        t = t['i']
    return t


def isF(t):
    t = peel(t)
    return t['t'] == 'param' and t['n'] == 'F'


def derefs(x, t):
    """strip all references from spec/exec text of type t"""
    while t['t'] == 'ref':
        x = deref_s(x)
        t = t['i']
    return x


def name_of(c):
    return c['path']


def is_vec(t):
    return t['t'] == 'adt' and last(t['n']) == 'Vec'


FOPS = {'add': 'f_add', 'sub': 'f_sub', 'mul': 'f_mul', 'div': 'f_div', 'neg': 'f_neg'}
FASG = {'add_assign': 'f_add', 'sub_assign': 'f_sub', 'mul_assign': 'f_mul', 'div_assign': 'f_div'}


def cmp_text(op, a, b, t, spec):
    """equality / ordering of two values of type t given texts for *values*"""
    t0 = t
    if t['t'] in ('int', 'bool'):
        return '(%s %s %s)' % (a, {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[op], b)
    if t['t'] == 'tuple' and op in ('eq', 'ne'):
        parts = []
        for i, x in enumerate(t['e']):
            y, xa, xb = x, '%s.%d' % (a, i), '%s.%d' % (b, i)
            while y['t'] == 'ref':
                xa, xb, y = '(*%s)' % xa, '(*%s)' % xb, y['i']
            parts.append(cmp_text('eq', xa, xb, y, spec))
        r = '(' + ' && '.join(parts) + ')'
        return '(!%s)' % r if op == 'ne' else r
    return None


def deref_all(t, x, y):
    while t['t'] == 'ref':
        t, x, y = t['i'], '(*%s)' % x, '(*%s)' % y
    return x, y, t


def apply_fn(fe, f, vals):
    """text of a call of the function-valued argument f on the given variables"""
    from translate import contains
    while f['k'] == 'coerce' or (f['k'] == 'block' and not f['b']['stmts']):
        f = f['e'] if f['k'] == 'coerce' else f['b']['tail']
    if f['k'] == 'closure':
        if contains(f['body']['expr'], lambda x: x.get('k') == 'return'):
            raise Unsup('return in closure')
        ps = [q for q in f['body']['params'] if q['pat'] is not None]
        fe.closno += 1
        return '{ %s %s }' % (' '.join(x for q, v in zip(ps, vals) for x in fe.irref(q['pat'], v)), fe.as_block(f['body']['expr']))
    if f['k'] == 'zst' and f['ty']['t'] == 'fndef':
        return '(%s)(%s)' % (fe.fnvalue(f['ty'])[0], ', '.join(vals))
    raise Unsup('function argument ' + f['k'])


def std_call(fe, e):
    c = e['callee']
    p = c['path']
    n = last(p)
    args = e['args']
    A = lambda i: fe.ex(args[i])
    tr = c.get('trait', '')
    t0 = args[0]['ty'] if args else None
    # --- panics
    if p in ('std::panicking::begin_panic', 'core::panicking::panic_fmt', 'core::panicking::panic', 'std::rt::begin_panic',
             'core::panicking::panic_display', 'core::panicking::panic_explicit', 'core::panicking::unreachable_display'):
        return 'vpanic(Ghost(panics_ok))'
    # --- formatting
    if n == 'is_sign_negative' and 'f64' in p and fe.em.floatF:
        return 'f_sign_neg(%s)' % A(0)
    if p.startswith('core::fmt::') or p.startswith('alloc::fmt::'):
        return fmt_call(fe, e, p, n, args)
    if t0 is not None and peel(t0).get('n') == 'alloc::string::String' or 'alloc::string::String' in str(c.get('args', [])[:1]):
        if p == 'core::convert::From::from' and args[0]['ty']['t'] == 'ref' and args[0]['ty']['i']['t'] == 'str':
            return 'string_from(%s)' % A(0)
        if p == 'core::ops::arith::Add::add' and args[0]['ty']['t'] == 'adt':
            return 'string_add(%s, %s)' % (A(0), A(1))
        if p == 'core::ops::deref::Deref::deref':
            return 'string_as_str(%s)' % A(0)
        if n == 'clone':
            return 'val_clone(%s)' % A(0)
    if p == 'alloc::string::String::push_str':
        return 'string_push(%s, %s)' % (A(0), A(1))
    if n in ('to_string', 'to_owned') and t0 is not None and t0['t'] == 'ref' and t0['i']['t'] == 'str':
        return 'string_from(%s)' % A(0)
    # --- closures called through Fn traits
    if tr.startswith('core::ops::function'):
        f = args[0]
        while f['k'] in ('borrow', 'deref'):
            f = f['e']
        if f['k'] == 'var' and args[1]['k'] == 'tuple':
            return '%s(%s)' % (fe.ex(f), ', '.join(fe.ex(x) for x in args[1]['es']))
        raise Unsup('closure call shape')
    # --- operators on F
    selfp = c['args'][0] if c['args'] else None
    if tr and selfp is not None and selfp.get('t') == 'param' and selfp['n'] == 'F':
        if n in FOPS:
            return '%s(%s)' % (FOPS[n], ', '.join(A(i) for i in range(len(args))))
        if n in FASG:
            tgt = args[0]
            pl = fe.ex(tgt)
            return '%s_assign(%s, %s)' % (FASG[n], pl, A(1))
        if n == 'eq':
            return 'f_eq(%s, %s)' % (A(0), A(1))
        if n == 'ne':
            return '(!f_eq(%s, %s))' % (A(0), A(1))
        if n == 'powi32':
            return 'f_powi32(%s, %s)' % (A(0), A(1))
        if n == 'inv':
            return 'f_inv(%s)' % A(0)
        if n == 'epsilon_equals':
            return 'f_eps_eq(%s, %s)' % (A(0), A(1))
        if n == 'stability_cmp':
            return 'f_stab(%s, %s)' % (A(0), A(1))
        if n == 'partial_cmp':
            return 'f_partial_cmp(%s, %s)' % (A(0), A(1))
        if n in ('lt', 'le', 'gt', 'ge'):
            return 'f_%s(%s, %s)' % (n, A(0), A(1))
        if n == 'clone':
            return '(*%s)' % A(0)
        if n == 'is_zero':
            return 'f_is_zero(%s)' % A(0)
        if n == 'is_one':
            return 'f_is_one(%s)' % A(0)
        if n == 'sum':
            return 'f_sum(%s)' % fe.to_viter(args[0])
        raise Unsup('field operation ' + p)
    if tr.endswith('MonomialOrder') and n == 'cmp' and selfp.get('t') == 'param':
        return 'o_cmp(%s, %s)' % (A(0), A(1))
    # references to F: <&F as Mul<&F>> is not available in this crate
    # --- primitive operators through traits (e.g. &u8 + &u8, i64::add)
    if tr.startswith('core::ops::arith') and t0 is not None:
        pt = peel(t0)
        if pt['t'] == 'int':
            if n == 'neg':
                return '%s_neg(%s)' % (pt['n'], derefs(A(0), t0))
            if n in OPN.values():
                op = [k for k, v in OPN.items() if v == n][0]
                return fe.arith(op, derefs(A(0), t0), derefs(A(1), args[1]['ty']), pt)
            if n.endswith('_assign') and pt['n'] == 'usize':
                raise Unsup(n)
    if tr == 'core::cmp::PartialEq' and n in ('eq', 'ne') or tr == 'core::cmp::PartialOrd' and n in ('lt', 'le', 'gt', 'ge'):
        # args are references to the compared values; peel one layer, then further layers
        ta, tb = t0, args[1]['ty']
        a, b = A(0), A(1)
        va, vb = derefs(a, ta), derefs(b, tb)
        pt = peel(ta)
        r = cmp_text(n, va, vb, pt, False) if n in ('eq', 'ne') or pt['t'] == 'int' else None
        if pt['t'] == 'adt' and last(pt['n']) == 'Option' and n in ('eq', 'ne'):
            x, y = fe.fresh('oa'), fe.fresh('ob')
            d = deref_all(pt['a'][0], '(*%s)' % x, '(*%s)' % y)
            q = cmp_text('eq', d[0], d[1], d[2], False)
            if q is None and isF(d[2]):
                q = 'f_eq(&%s, &%s)' % (d[0], d[1])
            if q is None and d[2]['t'] == 'adt' and last(d[2]['n']) == 'Ordering':
                q = 'ord_eq(%s, %s)' % (d[0], d[1])
            if q:
                r = '(match (&%s, &%s) { (Some(%s), Some(%s)) => %s, (None, None) => true, _ => false })' % (va, vb, x, y, q)
                return r if n == 'eq' else '(!%s)' % r
        if pt['t'] == 'tuple':
            x, y = fe.fresh('ta'), fe.fresh('tb')
            r = '{ let %s = %s; let %s = %s; %s }' % (x, va, y, vb, cmp_text(n, x, y, pt, False))
        if r:
            return r
        if isF(ta) and n in ('eq', 'ne'):
            return ('f_eq(&%s, &%s)' if n == 'eq' else '(!f_eq(&%s, &%s))') % (va, vb)
        if isF(ta):
            return 'f_%s(&%s, &%s)' % (n, va, vb)
        if is_vec(pt) and pt['a'][0].get('n') == 'u8':
            r = 'vec_u8_eq(&%s, &%s)' % (va, vb)
            return r if n == 'eq' else '(!%s)' % r
        if is_vec(pt) and pt['a'][0].get('n') == 'F':
            r = 'vec_f_eq(&%s, &%s)' % (va, vb)
            return r if n == 'eq' else '(!%s)' % r
        if pt['t'] == 'adt' and last(pt['n']) == 'Ordering':
            return '(ord_eq(%s, %s) == %s)' % (va, vb, 'true' if n == 'eq' else 'false')
        # local type reached through a reference blanket impl
        if pt['t'] == 'adt' and pt.get('local') and n in ('eq', 'ne'):
            tn = fe.em.c.tyname(pt)
            b_ = fe.em.c.byname.get('%s__PartialEq__eq' % tn)
            if b_:
                r = fe.local_call(b_, dict(args=[dict(k='spvar', n='&' + va, ty=dict(t='ref', m=False, i=pt)),
                                                  dict(k='spvar', n='&' + vb, ty=dict(t='ref', m=False, i=pt))]))
                return r if n == 'eq' else '(!%s)' % r
        if pt['t'] == 'adt' and pt.get('local') and n in ('lt', 'le', 'gt', 'ge'):
            tn = fe.em.c.tyname(pt)
            b_ = fe.em.c.byname.get('%s__PartialOrd__partial_cmp' % tn)
            if b_ and '%s__PartialOrd__%s' % (tn, n) not in fe.em.c.byname:
                r = fe.local_call(b_, dict(args=[dict(k='spvar', n='&' + va, ty=dict(t='ref', m=False, i=pt)),
                                                  dict(k='spvar', n='&' + vb, ty=dict(t='ref', m=False, i=pt))]))
                return 'match %s { %s => true, _ => false }' % (r, {'lt': 'Some(Ordering::Less)', 'gt': 'Some(Ordering::Greater)', 'le': 'Some(Ordering::Less) | Some(Ordering::Equal)', 'ge': 'Some(Ordering::Greater) | Some(Ordering::Equal)'}[n])
        raise Unsup('comparison of ' + str(pt.get('n', pt['t'])))
    if tr == 'core::cmp::PartialOrd' and n == 'partial_cmp':
        pt = peel(t0)
        if pt['t'] == 'int':
            return 'Some(%s_cmp(%s, %s))' % (pt['n'], derefs(A(0), t0), derefs(A(1), args[1]['ty']))
        if pt['t'] == 'adt' and pt.get('local'):
            raise Unsup('partial_cmp')
    if tr == 'core::cmp::Ord':
        pt = peel(t0)
        if pt['t'] == 'int':
            a, b = derefs(A(0), t0), derefs(A(1), args[1]['ty'])
            if n == 'cmp':
                return '%s_cmp(%s, %s)' % (pt['n'], a, b)
            if n in ('max', 'min'):
                if t0['t'] == 'ref':
                    return 'ref_%s_%s(%s, %s)' % (n, pt['n'], A(0), A(1))
                return '%s_%s(%s, %s)' % (pt['n'], n, a, b)
    if p in ('core::cmp::min', 'core::cmp::max') and t0['t'] == 'int':
        return '%s_%s(%s, %s)' % (t0['n'], n, A(0), A(1))
    if p.startswith('core::cmp::Ordering::'):
        if n in ('reverse', 'is_eq', 'is_ne', 'is_lt', 'is_gt', 'is_le', 'is_ge'):
            return 'ord_%s(%s)' % (n, A(0))
        if n == 'then':
            return 'ord_then(%s, %s)' % (A(0), A(1))
        if n == 'then_with':
            v = fe.fresh('o')
            return 'match %s { Ordering::Equal => %s, %s => %s }' % (A(0), apply_fn(fe, args[1], []), v, v)
    m = re.match(r'core::bool::<impl bool>::(then|then_some)$', p)
    if m:
        return '(if %s { Some(%s) } else { None })' % (A(0), A(1) if n == 'then_some' else apply_fn(fe, args[1], []))
    if p == 'core::mem::take' and is_vec(e['ty']):
        return 'mem_replace(%s, Vec::new())' % A(0)
    if last(p) == 'new' and 'RangeInclusive' in p and t0['t'] == 'int':
        return '%s_range_incl(%s, %s)' % (t0['n'], A(0), A(1))
    if p == 'core::iter::sources::once::once':
        return 'vec_into_iter(vec_from_elem(%s, 1))' % A(0)
    if p == 'core::iter::sources::repeat_n::repeat_n':
        return 'vec_into_iter(vec_from_elem(%s, %s))' % (A(0), A(1))
    if p in ('core::mem::swap', 'core::mem::replace'):
        ats = [A(0), A(1)]
        pre, ats = fe.call_args(ats, args)
        t = 'mem_%s(%s)' % (n, ', '.join(ats))
        return '{ %s%s }' % (pre, t) if pre else t
    # --- integers
    m = re.match(r'core::num::<impl (\w+)>::(\w+)$', p)
    if m:
        ty, f = m.groups()
        if ints.known(ty, f) and f in ints.PURE:
            return '%s_%s(%s)' % (ty, f, ', '.join(fe.ex(a) for a in args))
        if ints.known(ty, f) and f == 'rem_euclid':
            return '%s_%s(%s, Ghost(panics_ok))' % (ty, f, ', '.join(fe.ex(a) for a in args))
        raise Unsup('integer function ' + p)
    # --- conversions
    if tr in ('core::convert::Into', 'core::convert::From'):
        src, dst = t0, e['ty']
        if src['t'] == 'int' and dst['t'] == 'int':
            return '(%s as %s)' % (A(0), dst['n'])
        if same(src, dst):
            return A(0)
        # Into::into on a local From impl
        b = find_from(fe, src, dst)
        if b is not None:
            return fe.local_call(b, dict(args=[args[0]]))
        raise Unsup('conversion')
    if tr == 'core::clone::Clone' and n == 'clone':
        pt = t0['i'] if t0['t'] == 'ref' else None
        if pt is None:
            raise Unsup('clone')
        if pt['t'] in ('int', 'bool', 'ref') or isF(pt) and pt['t'] == 'param':
            return '(*%s)' % A(0)
        if is_vec(pt):
            el = pt['a'][0]
            return 'vec_clone(%s)' % A(0)
        if pt['t'] == 'adt' and last(pt['n']) == 'Option':
            return 'opt_clone(%s)' % A(0)
        if pt.get('item') and pt['t'] != 'adt' or (pt['t'] == 'adt' and 'item' in pt):
            return 'viter_clone(%s)' % A(0)
        raise Unsup('clone of ' + str(pt.get('n')))
    if tr == 'core::default::Default':
        t = e['ty']
        if t['t'] == 'int':
            return '0' + t['n']
        raise Unsup('default')
    # --- Vec / slice
    if tr == 'core::ops::deref::Deref' and n == 'deref' and is_vec(peel(t0)):
        return 'vec_deref(%s)' % A(0)
    if tr == 'core::ops::deref::DerefMut' and is_vec(peel(t0)):
        return 'vec_deref_mut(%s)' % A(0)
    if tr.startswith('core::ops::index::Index'):
        pt = peel(t0)
        kind = 'vec' if is_vec(pt) else 'slice' if pt['t'] == 'slice' else None
        if kind is None:
            raise Unsup('index')
        ix = args[1]
        mut = 'mut' in n
        if ix['ty']['t'] == 'int':
            a, i = A(0), fe.ex(ix)
            if mut:
                pre, aa = fe.call_args([a, i], args)
                t = '%s_index_mut(%s)' % (kind, ', '.join(aa))
                return '{ %s%s }' % (pre, t) if pre else t
            return '%s_index(%s, %s)' % (kind, a, i)
        if ix['k'] == 'adt' and last(ix['adt']) in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
            fs = dict(ix['fs'])
            a = A(0)
            k = last(ix['adt'])
            ar = [fe.ex(fs['start'])] if 'start' in fs else []
            ar += [fe.ex(fs['end'])] if 'end' in fs else []
            fn = {'Range': 'range', 'RangeFrom': 'from', 'RangeTo': 'to', 'RangeFull': 'full'}[k]
            if mut and ar:
                pre, aa = fe.call_args([a] + ar, args)
                t = '%s_%s_mut(%s)' % (kind, fn, ', '.join(aa))
                return '{ %s%s }' % (pre, t) if pre else t
            return '%s_%s%s(%s)' % (kind, fn, '_mut' if mut else '', ', '.join([a] + ar))
        raise Unsup('index type')
    m = re.match(r'alloc::vec::Vec::<.*>::(\w+)$', p)
    if m:
        f = m.group(1)
        if f == 'new':
            return 'Vec::new()'
        if f == 'with_capacity':
            return 'vec_with_capacity(%s)' % A(0)
        if f in ('push', 'pop', 'remove', 'truncate', 'append', 'len', 'is_empty', 'clear', 'insert', 'swap_remove', 'as_slice', 'reserve', 'extend_from_slice', 'iter', 'swap', 'resize'):
            ats = [fe.ex(a) for a in args]
            pre, ats = fe.call_args(ats, args)
            t = 'vec_%s(%s)' % (f, ', '.join(ats))
            return '{ %s%s }' % (pre, t) if pre else t
        if f == 'retain':
            t, lam = fe.fnarg(args[1])
            if lam is None or lam.val is None:
                raise Unsup('retain')
            return 'vec_retain(%s, %s, Ghost(%s))' % (A(0), t, lam.val)
        raise Unsup('Vec::' + f)
    if p == 'alloc::vec::from_elem':
        return 'vec_from_elem(%s, %s)' % (A(0), A(1))
    if n == 'box_assume_init_into_vec_unsafe':
        w = args[0]
        if w['k'] == 'call' and last(w['callee']['path']) == 'write_box_via_move':
            arr = w['args'][1]
            while arr['k'] == 'block' and not arr['b']['stmts']:
                arr = arr['b']['tail']
            if arr['k'] == 'array':
                el = e['ty']['a'][0]
                out = 'let mut vl: Vec<%s> = Vec::new(); ' % fe.ty(el)
                for x in arr['es']:
                    v = fe.fresh('el')
                    out += 'let %s = %s; vec_push(&mut vl, %s); ' % (v, fe.ex(x), v)
                return '{ %svl }' % out
        raise Unsup('vec! shape')
    m = re.match(r'(?:core::slice|alloc::slice)::<impl \[.*\]>::(\w+)$', p)
    if m:
        f = m.group(1)
        if f == 'iter':
            return 'slice_iter(%s)' % A(0)
        if f == 'iter_mut':
            return 'slice_iter_mut(%s)' % A(0)
        if f == 'contains' and peel(args[1]['ty'])['t'] == 'int':
            return 'slice_contains_%s(%s, %s)' % (peel(args[1]['ty'])['n'], A(0), A(1))
        if f in ('len', 'is_empty', 'swap', 'to_vec', 'first', 'last', 'split_at', 'reverse', 'fill', 'get_mut', 'last_mut', 'first_mut', 'into_vec'):
            ats = [fe.ex(a) for a in args]
            pre, ats = fe.call_args(ats, args)
            t = 'slice_%s(%s)' % (f, ', '.join(ats))
            return '{ %s%s }' % (pre, t) if pre else t
        if f in ('sort_by', 'sort_unstable_by'):
            t, lam = fe.fnarg(args[1])
            if lam is None or lam.val is None:
                raise Unsup('sort_by comparator')
            return 'slice_sort_by(%s, %s, Ghost(%s))' % (A(0), t, lam.val)
        if f == 'get' and args[1]['ty']['t'] == 'int':
            return 'slice_get(%s, %s)' % (A(0), A(1))
        if f == 'chunks_exact_mut':
            return 'slice_chunks_exact_mut(%s, %s)' % (A(0), A(1))
        raise Unsup('slice::' + f)
    # --- Option
    m = re.match(r'core::option::Option::<.*>::(\w+)$', p)
    if m:
        f = m.group(1)
        if f in ('unwrap', 'expect'):
            return 'opt_unwrap(%s, Ghost(panics_ok))' % A(0)
        if f == 'cloned' or f == 'copied':
            return 'opt_cloned(%s)' % A(0)
        if f == 'is_some':
            return 'opt_is_some(%s)' % A(0)
        if f == 'is_none':
            return 'opt_is_none(%s)' % A(0)
        if f == 'unwrap_or_default':
            t = e['ty']
            b = fe.em.c.byname.get('%s__Default__default' % fe.em.c.tyname(t))
            if b is None:
                raise Unsup('unwrap_or_default')
            v = fe.fresh('o')
            return 'match %s { Some(%s) => %s, None => %s }' % (A(0), v, v, fe.local_call(b, dict(args=[])))
        if f == 'unwrap_or':
            return 'opt_unwrap_or(%s, %s)' % (A(0), A(1))
        if f == 'unwrap_or_else':
            v = fe.fresh('o')
            a = A(0)
            return 'match %s { Some(%s) => %s, None => { %s } }' % (a, v, v, apply_fn(fe, args[1], []))
        if f in ('map', 'and_then', 'filter', 'is_some_and', 'is_none_or', 'or_else', 'map_or', 'map_or_else', 'or', 'flatten', 'zip'):
            a, v = A(0), fe.fresh('o')
            if f == 'map':
                return 'match %s { Some(%s) => Some(%s), None => None }' % (a, v, apply_fn(fe, args[1], [v]))
            if f == 'and_then':
                return 'match %s { Some(%s) => %s, None => None }' % (a, v, apply_fn(fe, args[1], [v]))
            if f == 'is_some_and':
                return '(match %s { Some(%s) => %s, None => false })' % (a, v, apply_fn(fe, args[1], [v]))
            if f == 'is_none_or':
                return '(match %s { Some(%s) => %s, None => true })' % (a, v, apply_fn(fe, args[1], [v]))
            if f == 'filter':
                w = fe.fresh('o')
                return 'match %s { Some(%s) => { let %s = &%s; if %s { Some(%s) } else { None } } None => None }' % (a, v, w, v, apply_fn(fe, args[1], [w]), v)
            if f == 'or_else':
                return 'match %s { Some(%s) => Some(%s), None => %s }' % (a, v, v, apply_fn(fe, args[1], []))
            if f == 'or':
                w = fe.fresh('o')
                return '{ let %s = %s; match (%s) { Some(%s) => Some(%s), None => %s } }' % (w, A(1), a, v, v, w)
            if f == 'flatten':
                return 'match %s { Some(%s) => %s, None => None }' % (a, v, v)
            if f == 'zip':
                w = fe.fresh('o')
                return 'match (%s, %s) { (Some(%s), Some(%s)) => Some((%s, %s)), _ => None }' % (a, A(1), v, w, v, w)
            if f == 'map_or':
                w = fe.fresh('o')
                return '{ let %s = %s; match (%s) { Some(%s) => %s, None => %s } }' % (w, A(1), a, v, apply_fn(fe, args[2], [v]), w)
            return '(match %s { None => %s, Some(%s) => %s })' % (a, apply_fn(fe, args[1], []), v, apply_fn(fe, args[2], [v]))
        if f in ('as_ref', 'take'):
            return 'opt_%s(%s)' % (f, A(0))
        raise Unsup('Option::' + f)
    # --- HashSet
    if re.match(r'std::collections::hash::set::HashSet::<.*>::contains', p):
        return 'vset_contains(%s, %s)' % (A(0), A(1))
    # --- iterators
    if n == 'into_iter' and tr == 'core::iter::traits::collect::IntoIterator':
        return fe.to_viter(args[0])
    if n == 'next' and tr.endswith('Iterator'):
        a = args[0]
        if a['k'] == 'borrow' and 'item' in a['e']['ty'] and a['e']['ty'].get('t') != 'ref':
            return 'viter_next(%s)' % A(0)
        if a['ty']['t'] == 'ref':
            return 'viter_next(%s)' % A(0)
        raise Unsup('next')
    if tr.startswith('core::iter::traits') or 'itertools' in tr or tr.startswith('core::iter'):
        return iter_call(fe, e, n, args)
    if p == 'core::iter::traits::collect::FromIterator::from_iter':
        pass
    raise Unsup('external function ' + p)


def display(fe, t, x, f, how):
    """text of a call that displays the value behind the reference x (type t) into f"""
    while t['t'] == 'ref':
        t, x = t['i'], '(*%s)' % x
    if how == 'new_debug':
        if t['t'] == 'adt' and last(t['n']) == 'Vec' and t['a'][0].get('n') == 'u8':
            return 'fmt_debug_u8s(%s, vec_deref(&%s))' % (f, x)
        if t['t'] == 'param' and t['n'] == 'F' and fe.em.floatF:
            return 'f_debug(%s, &%s)' % (f, x)
        if t['t'] != 'int':
            raise Unsup('{:?} of ' + str(t.get('n', t['t'])))
    elif how != 'new_display':
        raise Unsup('format trait ' + how)
    if t['t'] == 'int' and t['n'] in ('i64', 'u8', 'usize'):
        return 'fmt_%s(%s, &%s)' % (t['n'], f, x)
    if t['t'] == 'str':
        return 'fmt_str(%s, &%s)' % (f, x)
    if t['t'] == 'adt' and t['n'] == 'alloc::string::String':
        return 'fmt_string(%s, &%s)' % (f, x)
    if (t['t'] == 'param' and t['n'] == 'F' or t['t'] == 'float') and fe.em.floatF:
        return 'f_display(%s, &%s)' % (f, x)
    if t['t'] == 'param' and t['n'] == 'F':
        b = fe.em.c.byname.get('Rational__Display__fmt')
    elif t['t'] == 'adt' and t.get('local'):
        nm = last(t['n'])
        b = fe.em.c.byname.get(nm + '__Display__fmt') or (t.get('a') and fe.em.c.byname.get('%s_%s__Display__fmt' % (nm, fe.em.c.tyname(t['a'][0]))))
    else:
        b = None
    if not b:
        raise Unsup('display of ' + str(t.get('n', t['t'])))
    return '%s(&%s, %s)' % (fe.em.need(b), x, f)


def fmt_call(fe, e, p, n, args):
    if n == 'write_str' and 'Formatter' in p:
        return 'fmt_str(%s, %s)' % (fe.ex(args[0]), fe.ex(args[1]))
    if n == 'fmt' and p in ('core::fmt::Display::fmt',):
        return display(fe, args[0]['ty']['i'], '(*%s)' % fe.ex(args[0]), fe.ex(args[1]), 'new_display')
    if n == 'finish' and 'DebugList' in p and fe.em.floatF:
        x = args[0]
        while x['k'] in ('borrow', 'deref'):
            x = x['e']
        if x['k'] == 'call' and last(x['callee']['path']) == 'entries':
            y = x['args'][0]
            while y['k'] in ('borrow', 'deref'):
                y = y['e']
            l = x['args'][1]
            if y['k'] == 'call' and last(y['callee']['path']) == 'debug_list' and l['ty']['t'] == 'ref' and l['ty']['i']['t'] == 'slice':
                return 'fmt_debug_fs(%s, %s)' % (fe.ex(y['args'][0]), fe.ex(l))
    if n != 'write_fmt' or 'Formatter' not in p:
        raise Unsup('external function ' + p)
    f, a = fe.ex(args[0]), args[1]
    fv = fe.fresh('fm')
    out = 'let %s = %s;\n' % (fv, f)
    tup, arr = None, None
    from translate import str_lit, strlit
    while a['k'] in ('block', 'borrow', 'deref', 'never'):
        if a['k'] != 'block':
            a = a['e']
            continue
        for st in a['b']['stmts']:
            i = st.get('init')
            if i is None:
                raise Unsup('format_args shape')
            if i['k'] == 'tuple' and tup is None and arr is None:
                tup = []
                for x in i['es']:
                    v = fe.fresh('fa')
                    out += 'let %s = %s;\n' % (v, fe.ex(x))
                    tup.append((v, x['ty']))
            elif i['k'] == 'array' and arr is None:
                arr = i['es']
            else:
                raise Unsup('format_args shape')
        a = a['b']['tail']
    if a['k'] != 'call':
        raise Unsup('format_args shape')
    an = last(a['callee']['path'])
    parts = []
    if an == 'from_str':
        t = str_lit(a['args'][0])
        if t is None:
            raise Unsup('format string')
        parts.append(t)
    elif an == 'new':
        l, r = a['args']
        while l['k'] in ('borrow', 'deref'):
            l = l['e']
        while r['k'] in ('borrow', 'deref'):
            r = r['e']
        if r['k'] == 'array':
            arr = r['es']
        m = re.match(r'^ByteStr\(\[([\d, ]*)\]', str(l.get('dbg', '')))
        if not m or arr is None:
            raise Unsup('format template')
        bs = bytes(int(x) for x in m.group(1).split(','))
        i = k = 0
        while bs[i] != 0:
            if bs[i] < 0x80:
                parts.append(bs[i + 1:i + 1 + bs[i]].decode('utf-8'))
                i += 1 + bs[i]
            elif bs[i] == 0xC0:
                parts.append(arr[k])
                k += 1
                i += 1
            else:
                raise Unsup('format options')
    else:
        raise Unsup('format_args shape')
    steps = []
    for q in parts:
        if isinstance(q, str):
            steps.append('fmt_str(%s, %s)' % (fv, strlit(q)))
            continue
        how = last(q['callee']['path'])
        x = q['args'][0]
        y = x
        while y['k'] in ('borrow', 'deref'):
            y = y['e']
        if tup is not None and y['k'] == 'field' and y['n'].isdigit():
            v, ty = tup[int(y['n'])]
        else:
            v = fe.fresh('fa')
            out += 'let %s = %s;\n' % (v, fe.ex(x))
            ty = x['ty']
        steps.append(display(fe, ty, v, fv, how))
    t = 'Ok(())' if not steps else None
    for s in reversed(steps):
        if t is None:
            t = s
        else:
            v = fe.fresh('fr')
            t = 'match %s { Ok(_) => %s, Err(%s) => Err(%s) }' % (s, t, v, v)
    return '{ %s%s }' % (out, t)


def same(a, b):
    return a == b


def strip_lt(t):
    return t


def find_from(fe, src, dst):
    for b in fe.em.c.bodies.values():
        if b.get('impl_trait') == 'core::convert::From' and b['path'].endswith('from'):
            if b['impl_self'] == dst and b['sig_in'][0] == src:
                return b
            if tyeq(b['impl_self'], dst) and tyeq(b['sig_in'][0], src):
                return b
    return None


def tyeq(a, b):
    if a.get('t') != b.get('t'):
        return False
    if a['t'] == 'ref':
        return a['m'] == b['m'] and tyeq(a['i'], b['i'])
    if a['t'] == 'adt':
        return a['n'] == b['n']
    return a.get('n') == b.get('n')


def iter_call(fe, e, n, args):
    A = lambda i: fe.ex(args[i])
    recv = lambda: fe.to_viter(args[0]) if args[0]['ty']['t'] != 'ref' or 'item' in args[0]['ty'] else by_ref(fe, args[0])
    if n in ('rev', 'enumerate', 'count', 'last', 'copied', 'cloned', 'flatten'):
        r = recv()
        if n == 'flatten':
            return '%s.flatten()' % r
        return '%s.%s()' % (r, 'cloned' if n == 'copied' else n)
    if n == 'by_ref':
        return A(0)
    if n == 'take':
        x = args[0]
        if x['k'] == 'call' and x['callee']['path'] == 'core::iter::sources::repeat::repeat':
            return 'vec_into_iter(vec_from_elem(%s, %s))' % (fe.ex(x['args'][0]), A(1))
    if n in ('skip', 'take', 'nth'):
        return '%s.%s(%s)' % (recv(), n, A(1))
    if n in ('zip', 'chain', 'zip_eq'):
        r = recv()
        return '%s.%s(%s)' % (r, n, fe.to_viter(args[1]))
    if n in ('cartesian_product', 'zip_longest'):
        r = recv()
        return '%s.%s(%s)' % (r, n, fe.to_viter(args[1]))
    if n == 'combinations':
        return '%s.combinations(%s)' % (recv(), A(1))
    if n == 'collect':
        t = e['ty']
        r = recv()
        if is_vec(t):
            return '%s.collect_vec()' % r
        if t['t'] == 'adt' and last(t['n']) == 'HashSet':
            return '%s.collect_set()' % r
        raise Unsup('collect into ' + str(t.get('n')))
    if n in ('map', 'filter', 'filter_map', 'position', 'rposition', 'any', 'all', 'max_by', 'min_by', 'sorted_by', 'flat_map', 'find',
             'take_while', 'skip_while', 'find_map'):
        r = recv()
        t, lam = fe.fnarg(args[1])
        v = fe.fresh('it')
        w = fe.fresh('fn')
        pre = 'match %s { %s => { let %s = %s; ' % (r, v, w, t)
        if n in ('position', 'rposition', 'any', 'all') and args[0]['ty']['t'] == 'ref' and 'item' not in args[0]['ty']:
            pass
        if n == 'flat_map':
            return '%s%s.map(%s).flatten() } }' % (pre, v, w)
        if n in ('map', 'position', 'rposition', 'any', 'all'):
            return '%s%s.%s(%s) } }' % (pre, v, n, w)
        if lam is None:
            raise Unsup('no functional description of the closure given to ' + n)
        if n in ('filter', 'max_by', 'min_by', 'sorted_by', 'find', 'take_while', 'skip_while'):
            lam = lam.val
            if lam is None:
                raise Unsup('comparator of ' + n)
        return '%s%s.%s(%s, Ghost(%s)) } }' % (pre, v, n, w, lam)
    if n == 'eq':
        it, x = args[0]['ty'].get('item', {}), fe.to_viter(args[1])
        ref = it.get('t') == 'ref'
        it = peel(it) if it else it
        if it.get('t') == 'int':
            return '%s_iter_eq%s(%s, %s)' % (it['n'], '_ref' if ref else '', recv(), x)
        raise Unsup('iterator eq')
    if n in ('max_by_key', 'min_by_key'):
        t, lam = fe.fnarg(args[1])
        kt = e['callee']['args'][1] if len(e['callee'].get('args', [])) > 1 else {}
        if lam is None or lam.val is None or kt.get('t') != 'int':
            raise Unsup(n)
        return '%s_%s(%s, %s, Ghost(%s))' % (kt['n'], n, recv(), t, lam.val)
    if n in ('max', 'min'):
        it = args[0]['ty'].get('item', {})
        if it.get('t') == 'ref' and it['i']['t'] == 'int':
            return '%s_iter_%s_ref(%s)' % (it['i']['n'], n, recv())
        if it.get('t') == 'int':
            return '%s_iter_%s(%s)' % (it['n'], n, recv())
        raise Unsup('iterator ' + n)
    if n in ('fold', 'reduce'):
        r = recv()
        fe.foldno += 1
        k = fe.foldno
        v, s, w = 'fit%d' % k, 'fs%d' % k, fe.fresh('fn')
        init = ', ' + A(1) if n == 'fold' else ''
        iv = fe.fresh('init')
        f = args[2] if n == 'fold' else args[1]
        pre = 'let %s = %s; let ghost %s = %s@; ' % (v, r, s, v)
        if n == 'fold':
            pre += 'let %s: %s = %s; ' % (iv, fe.ty(args[1]['ty']), A(1))
        t, lam = fe.fnarg(f)
        pre += 'let %s = %s; ' % (w, t)
        acc = fe.ty(args[1]['ty'] if n == 'fold' else e['ty']['a'][0])
        if fe.con and k in fe.con.folds:
            fe.hit.add('fold %d' % k)
        else:
            fe.bare.append('fold %d' % k)
        inv = (fe.con.folds.get(k) if fe.con else None) or '|i, a| true'
        m = re.match(r'\|\s*(\w+)\s*,\s*(\w+)\s*\|(.*)$', inv, re.S)
        if not m:
            raise Exception('fold invariant syntax: ' + inv)
        body = m.group(3).replace('$s', s).replace('$init', iv)
        g = '|%s: int, %s: %s| %s' % (m.group(1), m.group(2), acc, body)
        h = fe.hint('fold %d' % k).replace('$s', s).replace('$init', iv)
        return '{ %s%s%s.%s(%s%s, Ghost(%s)) }' % (pre, h, v, n, iv + ', ' if n == 'fold' else '', w, g)
    if n in ('sum', 'product'):
        t = e['ty']
        r = recv()
        it = args[0]['ty'].get('item', {})
        if t['t'] == 'int':
            return '%s_%s%s(%s)' % (t['n'], n, '_ref' if it.get('t') == 'ref' else '', r)
        if t['t'] == 'param' and t['n'] == 'F' and n == 'sum':
            return 'f_sum(%s)' % r
        raise Unsup('sum')
    if n == 'extend' and is_vec(peel(args[0]['ty'])):
        it = args[1]['ty']
        el = it.get('item') or (it['a'][0] if is_vec(it) else None)
        ats = [A(0), fe.to_viter(args[1])]
        if el is None:
            raise Unsup('extend')
        if el['t'] == 'ref':
            ats[1] += '.cloned()'
        pre, ats = fe.call_args(ats, args)
        t = 'vec_extend(%s)' % ', '.join(ats)
        return '{ %s%s }' % (pre, t) if pre else t
    if n == 'for_each':
        cl = args[1]
        if cl['k'] != 'closure':
            raise Unsup('for_each')
        fe.closno += 1
        ps = [q for q in cl['body']['params'] if q['pat'] is not None]
        from translate import contains
        if contains(cl['body']['expr'], lambda x: x.get('k') == 'return'):
            raise Unsup('return in for_each')
        return '{\n' + fe.for_emit(args[0], ps[0]['pat'], cl['body']['expr'], []) + '}'
    if n == 'try_fold' or n == 'try_for_each':
        raise Unsup(n)
    raise Unsup('iterator adaptor ' + n)


def by_ref(fe, a):
    """method taking &mut self called on an iterator place (position, rposition, any, all)"""
    if a['k'] == 'borrow' and 'item' in a['e']['ty']:
        i = a['e']
        if i['k'] == 'var':
            return 'viter_take(&mut %s)' % fe.ex(i)   # consumes: the rest of the place is then unknown
        return fe.to_viter(i)
    return fe.to_viter(a)


# --------------------------------------------------------------------------- spec values
def std_spec(fe, e, env):
    c = e['callee']
    p = c['path']
    n = last(p)
    args = e['args']
    tr = c.get('trait', '')
    selfp = c['args'][0] if c['args'] else None
    S = lambda i: fe.SP(args[i], env)

    def V(i):
        s = S(i)
        return None if s is None else derefs(s, args[i]['ty'])

    t0 = args[0]['ty'] if args else None
    if tr.startswith('core::ops::function'):
        f = args[0]
        while f['k'] in ('borrow', 'deref'):
            f = f['e']
        if f['k'] == 'var' and args[1]['k'] == 'tuple':
            g = fe.ghosts.get(fe.names.get(f['id'], ''))
            a = fe.SPs(args[1]['es'], env)
            if g and a is not None:
                return g.app(a)
        return None
    if tr and selfp is not None and selfp.get('t') == 'param' and selfp['n'] == 'F':
        ss = [V(i) for i in range(len(args))]
        if None in ss:
            return None
        if n in FOPS:
            return 'f%s(%s)' % (n, ', '.join(ss))
        if n in ('eq', 'epsilon_equals'):
            return '(%s == %s)' % tuple(ss)
        if n == 'ne':
            return '(%s != %s)' % tuple(ss)
        if n == 'powi32':
            return 'fpow(%s, %s as int)' % tuple(ss)
        if n == 'inv':
            return 'finv(%s)' % ss[0]
        if n == 'clone':
            return ss[0]
        if n == 'is_zero':
            return '(%s == fzero())' % ss[0]
        if n == 'stability_cmp':
            return 'Some(fstab(%s, %s))' % tuple(ss)
        return None
    if tr.endswith('MonomialOrder') and n == 'cmp' and selfp.get('t') == 'param':
        a, b = V(0), V(1)
        return None if None in (a, b) else 'ocmp(%s, %s)' % (a, b)
    if tr.startswith('core::ops::arith') and t0 is not None and peel(t0)['t'] == 'int':
        pt = peel(t0)
        a = V(0)
        if n == 'neg':
            return None if a is None else '((-%s) as %s)' % (a, pt['n'])
        b = V(1)
        if None in (a, b) or n not in OPN.values():
            return None
        if n in ('div', 'rem') and pt['n'].startswith('i'):
            return '(t_%s_spec(%s as int, %s as int) as %s)' % (n, a, b, pt['n'])
        return '((%s %s %s) as %s)' % (a, {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}[n], b, pt['n'])
    if tr in ('core::cmp::PartialEq', 'core::cmp::PartialOrd') and n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        a, b = V(0), V(1)
        if None in (a, b):
            return None
        pt = peel(t0)
        if pt['t'] in ('int', 'bool', 'tuple'):
            return cmp_text(n, a, b, pt, True)
        if n in ('eq', 'ne') and (isF(pt) or is_vec(pt) or (pt['t'] == 'adt' and (last(pt['n']) in ('Ordering',)))):
            return '(%s %s %s)' % (a, '==' if n == 'eq' else '!=', b)
        return None
    if tr == 'core::cmp::PartialOrd' and n == 'partial_cmp' and peel(t0)['t'] == 'int':
        a, b = V(0), V(1)
        return None if None in (a, b) else 'Some(int_cmp(%s as int, %s as int))' % (a, b)
    if tr == 'core::cmp::Ord' and peel(t0)['t'] == 'int':
        a, b = V(0), V(1)
        if None in (a, b):
            return None
        if n == 'cmp':
            return 'int_cmp(%s as int, %s as int)' % (a, b)
        if n == 'max':
            r = '(if %s >= %s { %s } else { %s })' % (a, b, a, b)
        elif n == 'min':
            r = '(if %s <= %s { %s } else { %s })' % (a, b, a, b)
        else:
            return None
        return ref_s(r) if t0['t'] == 'ref' else r
    if p in ('core::cmp::min', 'core::cmp::max') and t0['t'] == 'int':
        a, b = S(0), S(1)
        if None in (a, b):
            return None
        return '(if %s %s %s { %s } else { %s })' % (a, '<=' if n == 'min' else '>=', b, a, b)
    if p.startswith('core::cmp::Ordering::'):
        a = S(0)
        if a is None:
            return None
        if n == 'reverse':
            return 'ord_rev(%s)' % a
        if n in ('is_eq', 'is_lt', 'is_gt'):
            return '(%s == Ordering::%s)' % (a, {'eq': 'Equal', 'lt': 'Less', 'gt': 'Greater'}[n[3:]])
        if n in ('is_ne', 'is_ge', 'is_le'):
            return '(%s != Ordering::%s)' % (a, {'ne': 'Equal', 'ge': 'Less', 'le': 'Greater'}[n[3:]])
        if n == 'then' or n == 'then_with' and args[1]['k'] == 'closure':
            b = S(1) if n == 'then' else fe.SP(args[1]['body']['expr'], env)
            return None if b is None else '(if %s == Ordering::Equal { %s } else { %s })' % (a, b, a)
        return None
    m = re.match(r'core::num::<impl (\w+)>::(\w+)$', p)
    if m:
        a = S(0)
        if a is None:
            return None
        f = m.group(2)
        if f == 'abs':
            return '((if %s < 0 { -%s } else { %s as int }) as i64)' % (a, a, a)
        if f == 'is_negative':
            return '(%s < 0)' % a
        if f == 'is_positive':
            return '(%s > 0)' % a
        return None
    if tr in ('core::convert::Into', 'core::convert::From'):
        a = S(0)
        if a is None:
            return None
        if t0['t'] == 'int' and e['ty']['t'] == 'int':
            return '(%s as %s)' % (a, e['ty']['n'])
        return None
    if tr == 'core::clone::Clone':
        a = S(0)
        if a is None:
            return None
        pt = t0['i']
        if pt['t'] in ('int', 'bool', 'ref') or isF(pt) or is_vec(pt):
            return deref_s(a)
        return None
    if tr == 'core::ops::deref::Deref' and is_vec(peel(t0)):
        a = S(0)
        return None if a is None else '%s@' % a if False else 'vec_deref_spec(%s)' % a
    if tr.startswith('core::ops::index::Index') and n == 'index' and args[1]['ty']['t'] == 'int':
        a, i = S(0), S(1)
        if None in (a, i):
            return None
        return '(&%s@[%s as int])' % (a, i)
    m = re.match(r'alloc::vec::Vec::<.*>::(\w+)$', p) or re.match(r'core::slice::<impl \[.*\]>::(\w+)$', p)
    if m:
        if m.group(1) == 'len':
            a = S(0)
            return None if a is None else '(%s@.len() as usize)' % a
        if m.group(1) == 'is_empty':
            a = S(0)
            return None if a is None else '(%s@.len() == 0)' % a
        return None
    m = re.match(r'core::option::Option::<.*>::(\w+)$', p)
    if m:
        a = S(0)
        if a is None:
            return None
        f = m.group(1)
        if f in ('unwrap', 'expect'):
            return '%s->Some_0' % a
        if f == 'is_some':
            return '(%s is Some)' % a
        if f == 'is_none':
            return '(%s is None)' % a
        return None
    if re.match(r'std::collections::hash::set::HashSet::<.*>::contains', p):
        a, b = S(0), V(1)
        return None if None in (a, b) else '%s@.contains(%s)' % (a, b)
    return None


def std_req(fe, e, env):
    c = e['callee']
    p = c['path']
    n = last(p)
    args = e['args']
    tr = c.get('trait', '')
    selfp = c['args'][0] if c['args'] else None
    S = lambda i: fe.SP(args[i], env)
    out = []
    if tr and selfp is not None and selfp.get('t') == 'param' and selfp['n'] == 'F':
        if n == 'div':
            b = S(1)
            if b is not None:
                out.append('%s != fzero()' % b)
        if n == 'inv':
            b = S(0)
            if b is not None:
                out.append('%s != fzero()' % b)
        return out
    if tr.startswith('core::ops::function'):
        f = args[0]
        while f['k'] in ('borrow', 'deref'):
            f = f['e']
        if f['k'] == 'var' and args[1]['k'] == 'tuple':
            a = fe.SPs(args[1]['es'], env)
            if a is not None and f['id'] in fe.names:
                out.append('call_requires(%s, (%s,))' % (fe.names[f['id']], ', '.join(a)))
        return out
    if tr.startswith('core::ops::index::Index') and args[1]['ty']['t'] == 'int':
        a, i = S(0), S(1)
        if None not in (a, i):
            out.append('%s < %s@.len()' % (i, a))
    m = re.match(r'core::option::Option::<.*>::(\w+)$', p)
    if m and m.group(1) in ('unwrap', 'expect'):
        a = S(0)
        if a is not None:
            out.append('%s is Some' % a)
    if re.match(r'core::num::<impl i64>::pow', p):
        pass
    return out
