"""THIR JSON (dumped from /repo by extract/) -> Verus source.

The exec code emitted here is a structural image of the THIR of the real functions;
every construct that has no image raises Unsup and the function is reported as
`undecided` (never silently dropped)."""
import json, re, sys, os
import ints


class Unsup(Exception):
    pass


STRIP_ATTR = 'Debug'


def last(p):
    # last path segment of a definitional path (ignoring generics)
    d = 0
    out = ''
    i = 0
    segs = []
    cur = ''
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and not (i > 0 and p[i - 1] == '-'):
            d -= 1
        if d == 0 and p.startswith('::', i):
            segs.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    segs.append(cur)
    return segs[-1]


def indent(s, n=4):
    return '\n'.join((' ' * n + l) if l.strip() else l for l in s.split('\n'))


# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, name):
        self.name = name
        self.params = None
        self.requires = []
        self.ensures = []
        self.panics = None
        self.spec = None
        self.attr = ''
        self.generics = None
        self.decreases = None
        self.loops = {}
        self.closures = {}
        self.folds = {}
        self.hints = {}
        self.body = None
        self.external = False
        self.items = None
        self.locals = None
        self.ghost_params = ''
        self.exec_override = None

    def derived(self, rt):
        """the value returned, when an ensures clause says what it is"""
        if rt['t'] not in ('bool', 'int', 'adt', 'param'):
            return None
        for x in self.ensures:
            m = re.match(r'ret == ([^=].*)$', x.strip(), re.S)
            if m and not re.search(r'==>|&&|\|\||<==|\bold\(|\bfinal\(|\bret\b', m.group(1)):
                return '(%s) as %s' % (m.group(1), rt['n']) if rt['t'] == 'int' else m.group(1)
        return None


def split_clauses(txt):
    """split on top-level commas"""
    out, cur, d = [], '', 0
    i = 0
    txt = re.sub(r'(?m)^\s*//.*$', '', txt)
    bar = 0
    while i < len(txt):
        c = txt[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '|' and txt[i:i + 2] != '||' and (i == 0 or txt[i - 1] != '|'):
            bar ^= 1
        if c == ',' and d == 0 and not bar:
            # commas inside generics <A, B> are not expected at top level
            if cur.strip():
                out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_contracts(paths):
    cons, raws = {}, []
    for p in paths:
        cur = None
        sect = None
        buf = []

        def flush():
            nonlocal buf
            t = '\n'.join(buf).strip('\n')
            buf = []
            if sect is None:
                return
            if sect == 'raw':
                raws.append((p, t))
                return
            w = sect.split()
            if w[0] == 'requires':
                cur.requires += split_clauses(t)
            elif w[0] == 'ensures':
                cur.ensures += split_clauses(t)
            elif w[0] == 'panics':
                cur.panics = t.strip() or ' '.join(w[1:])
            elif w[0] == 'spec':
                cur.spec = t.strip() or ' '.join(w[1:])
            elif w[0] == 'attr':
                cur.attr += (' '.join(w[1:]) + t) + '\n'
            elif w[0] == 'generics':
                cur.generics = ' '.join(w[1:])
            elif w[0] == 'ghost':
                cur.ghost_params = ' '.join(w[1:])
            elif w[0] == 'external':
                cur.external = True
            elif w[0] == 'items':
                cur.items = [x.strip() for x in t.split(';')]
            elif w[0] == 'decreases':
                cur.decreases = ' '.join(w[1:]) + t
            elif w[0] == 'loop':
                L = cur.loops.setdefault(int(w[1]), dict(inv=[], dec=None, ens=[], invx=[]))
                kind = w[2] if len(w) > 2 else 'invariant'
                if kind == 'invariant':
                    L['inv'] += split_clauses(t)
                elif kind == 'decreases':
                    L['dec'] = (' '.join(w[3:]) + ' ' + t).strip()
                elif kind == 'ensures':
                    L['ens'] += split_clauses(t)
                elif kind == 'breaks':
                    L['breaks'] = True
                elif kind == 'invariant_except_break':
                    L['invx'] += split_clauses(t)
                else:
                    raise Exception('bad loop section ' + sect)
            elif w[0] == 'closure':
                C = cur.closures.setdefault(int(w[1]), {})
                if w[2] in ('requires', 'ensures'):
                    C[w[2]] = split_clauses(t)
                elif w[2] in ('spec', 'start', 'end'):
                    C[w[2]] = t.strip()
                else:
                    raise Exception('bad closure section ' + sect)
            elif w[0] == 'fold':
                cur.folds[int(w[1])] = t.strip()
            elif w[0] == 'hint':
                cur.hints.setdefault(' '.join(w[1:]), []).append(t)
            else:
                raise Exception('bad section %r in %s' % (sect, p))

        for line in open(p).read().split('\n'):
            if line.startswith('//@@ '):
                flush()
                sect = line[5:].strip()
                # one-line form  "//@@ requires: text"
                m = re.match(r'(requires|ensures|panics|spec|items|decreases|loop \d+ \w+|closure \d+ \w+|fold \d+|hint [^:]*):\s*(.*)$', sect)
                if m:
                    sect = m.group(1)
                    buf = [m.group(2)]
            elif line.startswith('//@ '):
                flush()
                w = line[4:].split()
                if w[0] == 'raw':
                    sect = 'raw'
                elif w[0] == 'fn':
                    sect = None
                    m = re.match(r'fn\s+(\w+)\s*(?:\((.*)\))?', line[4:])
                    cur = cons.setdefault(m.group(1), Contract(m.group(1)))
                    cur.file = p
                    if m.group(2) is not None:
                        cur.params = [x.strip() for x in m.group(2).split(',') if x.strip()]
                else:
                    raise Exception('bad directive ' + line)
            else:
                buf.append(line)
        flush()
    return cons, raws


def subst(txt, m):
    """word-boundary substitution of identifiers (not after '.' or '::')"""
    if not m:
        return txt
    return re.sub(r'(?<![\w.])(' + '|'.join(re.escape(k) for k in sorted(m, key=len, reverse=True)) + r')\b(?!::)',
                  lambda x: m[x.group(1)], txt)


# ------------------------------------------------------------------ crate
class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.bodies = {}
        self.adts = {a['path']: a for a in d['adts']}
        self.byname = {}
        for b in d['bodies']:
            self.bodies[b['path']] = b
            b['vname'] = self.vname(b)
            if b['vname'] in self.byname:
                b['vname'] += '_dup'
            self.byname[b['vname']] = b

    def tyname(self, t):
        k = t['t']
        if k == 'ref':
            return ('m' if t['m'] else 'r') + self.tyname(t['i'])
        if k == 'adt':
            n = last(t['n'])
            if not t.get('local') and n in ('Vec', 'Option'):
                return n + '_' + self.tyname(t['a'][0])
            return n
        if k in ('int', 'float', 'param'):
            return t['n']
        if k == 'tuple':
            return 'T' + '_'.join(self.tyname(x) for x in t['e'])
        if k == 'bool':
            return 'bool'
        return 'x'

    def vname(self, b):
        n = re.sub(r'\W', '_', last(b['path']))
        if b['kind'] == 'const':
            m = re.match(r'<(.*) as (.*)>::(\w+)$', b['path'])
            if m:
                return '%s__%s__%s' % (re.sub(r'\W', '', last(m.group(1))), last(m.group(2)), m.group(3))
            return re.sub(r'\W', '_', b['path'])
        if 'impl_self' in b:
            s = self.tyname(b['impl_self'])
            if b.get('impl_trait') == 'core::fmt::Display' and b['impl_self'].get('local') and b['impl_self'].get('a') and b['impl_self']['a'][0].get('t') in ('adt', 'float'):
                s += '_' + self.tyname(b['impl_self']['a'][0])
            if 'impl_trait' in b:
                a = b.get('impl_trait_args', [])[1:]
                x = '__'.join(self.tyname(t) for t in a if self.tyname(t) != s)
                return s + '__' + last(b['impl_trait']) + ('__' + x if x else '') + '__' + n
            return s + '__' + n
        if '::traits::Field::' in b['path']:
            return 'Field__' + n
        return n


INTT = {'usize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'}
BOP = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=',
       'Gt': '>', 'Ge': '>=', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'Shl': '<<', 'Shr': '>>'}
OPN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}


def has_ref(t):
    k = t.get('t')
    if 'item' in t and not t.get('local'):
        return has_ref(t['item']) or k in ('alias',) and True and has_ref(t['item'])
    if k == 'ref':
        return True
    if k == 'adt':
        return any(has_ref(x) for x in t.get('a', []) if isinstance(x, dict))
    if k == 'tuple':
        return any(has_ref(x) for x in t['e'])
    return False


class Emit:
    floatF = False
    """whole-program emitter for one set of roots"""

    def __init__(self, crate, cons, raws, roots, force_external=()):
        self.c = crate
        self.cons = cons
        self.raws = raws
        self.roots = roots
        self.force_external = dict(force_external)
        self.done = {}
        self.order = []
        self.unsup = {}
        self.adts_needed = []
        self.inlined = {}

    def adt(self, path):
        if path not in self.adts_needed:
            self.adts_needed.append(path)
            a = self.c.adts[path]
            for v in a['variants']:
                for f in v['fields']:
                    self.ty(f[1])

    # ---- types
    def ty(self, t, lt=''):
        k = t['t']
        if k == 'adt' and t.get('local'):
            n = last(t['n'])
            if n == 'Computer':
                raise Unsup('type Computer')
            self.adt(t['n'])
            lts = [g for g in self.c.adts[t['n']]['generics'] if g[1] == 'lt']
            if lts:
                return n + ("<%s>" % (lt or "'_"))
            return n
        if 'item' in t:
            return 'VIter<%s>' % self.ty(t['item'], lt)
        if k == 'bool':
            return 'bool'
        if k == 'int':
            return t['n']
        if k == 'param':
            return t['n']
        if k == 'float' and t['n'] == 'f64' and self.floatF:
            return 'F'
        if k == 'ref':
            return '&' + (lt + ' ' if lt else '') + ('mut ' if t['m'] else '') + self.ty(t['i'], lt)
        if k == 'tuple':
            if len(t['e']) == 1:
                return '(%s,)' % self.ty(t['e'][0], lt)
            return '(' + ', '.join(self.ty(x, lt) for x in t['e']) + ')'
        if k == 'slice':
            return '[%s]' % self.ty(t['i'], lt)
        if k == 'adt':
            n = last(t['n'])
            if n == 'Vec':
                return 'Vec<%s>' % self.ty(t['a'][0], lt)
            if n == 'Option':
                return 'Option<%s>' % self.ty(t['a'][0], lt)
            if n == 'Ordering':
                return 'Ordering'
            if n == 'HashSet':
                return 'VSet'
            if n == 'Formatter':
                return 'Fmtr'
            if n == 'String':
                return 'String'
            if n == 'Result':
                return 'Result<%s, %s>' % (self.ty(t['a'][0], lt), self.ty(t['a'][1], lt))
            if n == 'Error' and t['n'] == 'core::fmt::Error':
                return 'FmtError'
            if n == 'EitherOrBoth':
                return 'EitherOrBoth<%s, %s>' % (self.ty(t['a'][0], lt), self.ty(t['a'][1], lt))
            if n == 'Box':
                return 'Box<%s>' % self.ty(t['a'][0], lt)
        if k == 'str':
            return 'str'
        if k == 'never':
            return '!'
        raise Unsup('type %s %s' % (k, t.get('n')))

    # ---- functions
    def need(self, body):
        """emit (once) the function for `body`; returns its vname"""
        n = body['vname']
        if n in self.done:
            return n
        self.done[n] = None
        con = self.cons.get(n)
        fe = FnEmit(self, body, con)
        try:
            if n in self.force_external:
                raise Unsup(self.force_external[n])
            txt = fe.emit()
            self.done[n] = dict(text=txt, status='verified' if not (con and con.external) else 'external', fe=fe)
        except Unsup as u:
            self.unsup[n] = str(u)
            fe2 = FnEmit(self, body, con)
            try:
                txt = fe2.emit(external=True)
            except Unsup as u2:
                # not even the signature
                self.unsup[n] = str(u) + ' / signature: ' + str(u2)
                self.done[n] = dict(text='', status='nosig', fe=fe2)
                self.order.append(n)
                raise Unsup('callee %s: %s' % (n, u2))
            self.done[n] = dict(text=txt, status='undecided', fe=fe2)
        self.order.append(n)
        return n

    def run(self):
        for r in self.roots:
            b = self.c.byname.get(r)
            if b is None:
                self.unsup[r] = 'function not found in the current tree'
                continue
            try:
                self.need(b)
            except Unsup as u:
                self.unsup.setdefault(r, str(u))
        # struct definitions
        out = []
        for p in self.adts_needed:
            out.append(self.adt_text(p))
        return out

    def adt_text(self, p):
        a = self.c.adts[p]
        n = last(p)
        lts = [g[0] for g in a['generics'] if g[1] == 'lt']
        lt = "<'a>" if lts else ''
        if a['enum']:
            raise Unsup('local enum ' + n)
        v = a['variants'][0]
        fs = v['fields']
        der = '#[derive(Clone, Copy)]\n' if n in ('Integer', 'Rational') else ''
        ext = ''
        if v['ctor'] and 'Fn' in v['ctor']:
            body = '(' + ', '.join('pub ' + self.ty(f[1], "'a" if lts else '') for f in fs) + ');'
        elif not fs:
            body = ' {}'
        else:
            body = ' {\n' + ''.join('    pub %s: %s,\n' % (f[0], self.ty(f[1], "'a" if lts else '')) for f in fs) + '}'
        return '%spub struct %s%s%s' % (der, n, lt, body)


def str_lit(e):
    """the text of a string literal expression, or None"""
    while e['k'] in ('borrow', 'deref'):
        e = e['e']
    m = re.match(r'^Str\("(.*)", Cooked\)$', str(e.get('dbg', '')), re.S)
    if e['k'] != 'lit' or not m:
        return None
    t = m.group(1)
    if re.search(r'\\(?!["\\n\'t])', t):
        return None
    return re.sub(r'\\(.)', lambda x: {'n': '\n', 't': '\t'}.get(x.group(1), x.group(1)), t)


def char_lit(c):
    return "'%s'" % {'\n': '\\n', '\t': '\\t', "'": "\\'", '\\': '\\\\'}.get(c, c)


def strlit(t):
    q = '"%s"' % t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t')
    sq = 'seq![%s]' % ', '.join(char_lit(c) for c in t) if t else 'Seq::<char>::empty()'
    return '{ proof { reveal_strlit(%s); assert(%s@ =~= %s); } %s }' % (q, q, sq, q)


class FnEmit:
    def __init__(self, em, body, con):
        self.em = em
        self.b = body
        self.con = con
        self.names = {}      # hid -> emitted text
        self.used = {}
        self.hit = set()    # annotation anchors found in the current tree
        self.bare = []      # loops without annotation
        self.loopno = 0
        self.forlabs = set()
        self.closno = 0
        self.foldno = 0
        self.brno = 0
        self.iterno = 0
        self.letcount = {}
        self.labels = {}
        self.tmp = 0
        self.ghosts = {}
        self.inlining = []
        self.obl = []
        self.binders = []

    # ---- helpers
    def fresh(self, p='t'):
        self.tmp += 1
        return '%s_%d' % (p, self.tmp)

    def bindname(self, hid, name, ty=None):
        if hid in self.names:
            return self.names[hid]
        name = {'self': 'this', 'r#type': 'type_', 'int': 'int_'}.get(name, name)
        if name == 'ret':
            name = 'ret_'
        base = name
        if self.con and self.con.locals and not self.inlining:
            k = len(self.binders)
            if k < len(self.con.locals):
                base = self.con.locals[k]
        if not self.inlining:
            self.binders.append((name, self.em.c.tyname(ty) if ty else ''))
        n = base
        k = 1
        while n in self.used:
            k += 1
            n = '%s_%d' % (base, k)
        self.used[n] = 1
        self.names[hid] = n
        return n

    def ty(self, t):
        return self.em.ty(t)

    # ---- signature
    def emit(self, external=False):
        b, con = self.b, self.con
        em = self.em
        if b['kind'] == 'const':
            return self.emit_const(external)
        ps = []
        pre = []
        refs = sum(1 for p in b['sig_in'] if has_ref(p))
        retref = has_ref(b['sig_out'])
        self.clt = ''
        if contains(b['expr'], lambda x: x.get('k') == 'closure' and self.mutret(x)):
            self.clt = "'a"
        lt = "'a" if (retref and (refs > 1 or self.clt)) else ''
        first = True
        self.params = []
        gh = []
        for i, p in enumerate(b['params']):
            pt = b['sig_in'][i]
            pat = p['pat']
            while pat and pat['k'] == 'deref' and False:
                pat = pat['sub']
            closure_param = pt['t'] == 'param' and pt['n'] not in ('F', 'O', 'T') and 'item' not in pt
            mutp = False
            if pat and pat['k'] == 'bind' and pat.get('sub') is None:
                n = self.bindname(pat['id'], pat['name'], pat['bty'])
                if con and con.params and i < len(con.params) and con.params[i] != n:
                    del self.used[n]
                    n = con.params[i]
                    self.used[n] = 1
                    self.names[pat['id']] = n
                mutp = pat['mut']
            else:
                n = 'p%d' % i
                if con and con.params and i < len(con.params):
                    n = con.params[i]
                self.used[n] = 1
                if pat:
                    pre += self.irref(pat, n, pt)
            uselt = lt if (has_ref(pt) and first) else ''
            if uselt:
                first = False
            t = em.ty(pt, uselt)
            self.params.append((n, t, pt))
            if mutp:
                pre.append('let mut %s = %s;' % (n, n))
            ps.append('%s: %s' % (n, t))
            if closure_param:
                gh.append((n, pt['n']))
                g = Lam(n + '_g')
                g.val = n + '_g'
                g.param = True
                self.ghosts[n] = g
        self.closure_params = gh
        rt = b['sig_out']
        unit = rt['t'] == 'tuple' and not rt['e']
        rtt = em.ty(rt, lt)
        self.rett = rtt
        req = list(con.requires) if con else []
        ens = list(con.ensures) if con else []
        attr = con.attr if con else ''
        gen = con.generics if con and con.generics else ("<'a>" if lt else '')
        if gh and not (con and con.generics):
            raise Unsup('generic closure parameter without contract')
        if con and con.ghost_params:
            ps.append(con.ghost_params)
        self.panicky = bool(con and con.panics)
        self.active = []
        if self.panicky:
            ps.append('Ghost(pok): Ghost<bool>')
            req.append('(%s) ==> pok' % con.panics)
            ens.append('!(%s)' % self.oldify(con.panics))
        if con and con.spec:
            ens.insert(0, 'ret == %s__spec(%s)' % (b['vname'], ', '.join(x[0] for x in self.params)))
        head = ''
        if con and con.items:
            # an Iterator of this crate: what is still to come, and what one call of next() does to it
            nt = last(b['impl_self']['n'])
            st = em.ty(b['impl_self'])
            it = em.ty(b['sig_out']['a'][0])
            wf_, cnt_, ith_ = con.items
            m = re.match(r'\|(\w+), (\w+)\| (.*)$', ith_, re.S)
            head += 'pub open spec fn %s__wf(this: %s) -> bool { %s }\n' % (nt, st, wf_)
            head += 'pub open spec fn %s__cnt(this: %s) -> int { %s }\n' % (nt, st, cnt_)
            head += 'pub open spec fn %s__ith(this: %s, %s: int, %s: %s) -> bool { %s }\n' % (nt, st, m.group(1), m.group(2), it, m.group(3))
            head += ('#[verifier::external_body] pub fn %s__iter%s(this: %s) -> (r: VIter<%s>) requires %s__wf(this), ensures r@.len() == (if %s__cnt(this) >= 0 { %s__cnt(this) } else { 0 }), '
                     'forall|i: int| 0 <= i < r@.len() ==> %s__ith(this, i, #[trigger] r@[i]) { unimplemented!() }\n' % (nt, '', st, it, nt, nt, nt, nt))
            req.insert(0, '%s__wf(*old(this))' % nt)
            ens += ['%s__wf(*final(this))' % nt, '%s__cnt(*old(this)) <= 0 ==> ret is None && %s__cnt(*final(this)) <= 0' % (nt, nt),
                    '%s__cnt(*old(this)) > 0 ==> ret is Some && %s__ith(*old(this), 0, ret->Some_0) && %s__cnt(*final(this)) == %s__cnt(*old(this)) - 1' % (nt, nt, nt, nt),
                    '%s__cnt(*old(this)) > 0 ==> forall|i: int, x: %s| 0 <= i ==> #[trigger] %s__ith(*final(this), i, x) == %s__ith(*old(this), i + 1, x)' % (nt, it, nt, nt)]
        spec = con and (con.spec or con.derived(rt))
        if spec:
            head += 'pub open spec fn %s__spec%s(%s) -> %s { %s }\n' % (
                b['vname'], gen, ', '.join('%s: %s' % (x[0], x[1]) for x in self.params), rtt, spec)
        if external or (con and con.external):
            attr += '#[verifier::external_body]\n'
        sig = 'pub fn %s%s(%s)' % (b['vname'], gen, ', '.join(ps))
        if rtt == '!':
            sig += ' -> !'
        elif not unit:
            sig += ' -> (ret: %s)' % rtt
        head += '#[verifier::loop_isolation(false)]\n' + attr + sig + '\n'
        if req:
            head += '    requires\n' + ''.join('        %s,\n' % r for r in req)
        if ens:
            head += '    ensures\n' + ''.join('        %s,\n' % r for r in ens)
        if con and con.decreases and not external:
            head += '    decreases %s,\n' % con.decreases
        if external or (con and con.external):
            return head + '{\n    unimplemented!()\n}\n'
        body = ''
        for s in pre:
            body += s + '\n'
        body += 'let ghost panics_ok: bool = %s;\n' % (con.panics if self.panicky else 'false')
        body += self.hint('start')
        bty = b['expr'].get('ty', {})
        if 'item' in rt and not rt.get('local') and bty.get('local') and bty.get('t') == 'adt':
            # the value returned is an iterator of this crate: hand on what its next() yields
            nt = last(bty['n'])
            nb = em.c.byname.get(nt + '__Iterator__next')
            ncon = nb and em.cons.get(nb['vname'])
            if not ncon or not ncon.items:
                raise Unsup('iterator ' + nt)
            em.need(nb)
            end = con.hints.pop('end', None) if con else None
            body += 'let ret_it = {\n%s\n};\nlet ret_v: %s = %s__iter(ret_it);\n' % (indent(self.fn_body(b['expr'], unit)), rtt, nt)
            if end:
                con.hints['end'] = end
                body += subst(self.hint('end'), {'ret': 'ret_v'})
            body += 'ret_v'
        else:
            body += self.fn_body(b['expr'], unit)
        return head + '{\n' + indent(body) + '\n}\n'

    def oldify(self, t):
        m = {}
        for n, ty, pt in self.params:
            if pt['t'] == 'ref' and pt['m']:
                m[n] = 'old(%s)' % n
        return subst(t, m)

    def emit_const(self, external):
        b = self.b
        t = self.em.ty(b['ret'])
        self.rett = t
        con = self.con
        ens = list(con.ensures) if con else []
        self.panicky = False
        self.active = []
        s = self.SP(b['expr'], {})
        if s is None:
            raise Unsup('const body')
        return ('pub open spec fn %s__spec() -> %s { %s }\npub fn %s() -> (ret: %s)\n    ensures ret == %s__spec(),%s\n{\n    let ghost panics_ok: bool = false;\n    %s\n}\n'
                % (b['vname'], t, s, b['vname'], t, b['vname'], ''.join(' %s,' % e for e in ens), self.ex(b['expr'])))

    def lost(self):
        """annotations whose place no longer exists in the function"""
        if not self.con:
            return []
        want = ['hint ' + k for k in self.con.hints] + ['loop %d' % k for k in self.con.loops] + \
            ['closure %d' % k for k in self.con.closures] + ['fold %d' % k for k in self.con.folds]
        return [w for w in want if w not in self.hit]

    def hint(self, key):
        if not self.con or self.inlining:
            return ''
        h = self.con.hints.get(key)
        if not h:
            return ''
        self.obl.append(key)
        self.hit.add('hint ' + key)
        return '\n'.join('proof {\n%s\n}' % indent(x) if not x.lstrip().startswith('!') else x.lstrip()[1:] for x in h) + '\n'

    def fn_body(self, e, unit):
        """function body, with an `end` hint"""
        h = self.con.hints.get('end') if self.con else None
        if h:
            self.hit.add('hint end')
        # convert tail `loop { ... break v ... }` into return
        if e['k'] == 'block' and not h:
            return self.block_inner(e['b'], tail_fn=True)
        if not h:
            return self.ex(e, tail_fn=True)
        blk = e['b'] if e['k'] == 'block' else dict(stmts=[], tail=e, labelled=False)
        out = self.stmts(blk['stmts'])
        if blk['tail'] is not None:
            if unit:
                out += self.ex(blk['tail']) + ';\n' + self.hint('end')
            else:
                t = self.ex(blk['tail'], tail_fn=True)
                out += 'let ret_v: %s = %s;\n%s' % (self.rett, t, subst(self.hint('end'), {'ret': 'ret_v'})) + 'ret_v\n'
        else:
            out += self.hint('end')
        return out

    # ---- blocks
    def block_inner(self, b, tail_fn=False, startkey=None):
        if b.get('labelled'):
            raise Unsup('labelled block')
        out = self.stmts(b['stmts'])
        if b['tail'] is not None:
            out += self.ex(b['tail'], tail_fn=tail_fn)
        return out

    def stmts(self, ss):
        out = ''
        for s in ss:
            if s['k'] == 'expr':
                e = s['e']
                t = self.ex(e, stmt=True)
                if not t.strip():
                    continue
                out += t + (';' if not t.rstrip().endswith('}') or t.lstrip()[0] not in 'wlif{mp\'' else ';') + '\n'
            elif s['k'] == 'let':
                out += self.let_stmt(s)
            else:
                raise Unsup('stmt')
        return out

    def let_stmt(self, s):
        pat, init = s['pat'], s['init']
        if s['els'] is not None:
            els = self.block_inner(s['els'])
            v = self.fresh('le')
            names = []
            parts = self.pat(pat, names_out=names)
            ptxt, guard, binds = parts
            if guard:
                raise Unsup('let-else guard')
            bs = self.pat_bind_names(pat)
            tup = '(' + ', '.join(bs) + (',' if len(bs) == 1 else '') + ')'
            out = 'let %s = match %s { %s => { %s %s }, _ => { %s } };\n' % (
                v, self.ex(init), ptxt, ' '.join(binds), tup, els)
            for i, n in enumerate(bs):
                out += 'let %s = %s.%d;\n' % (n, v, i)
            return out
        if pat['k'] == 'bind' and pat['byref'] == 'no' and pat['sub'] is None:
            if init is None:
                n = self.bindname(pat['id'], pat['name'], pat['bty'])
                return 'let mut %s: %s;\n' % (n, self.ty(pat['bty'])) if True else ''
            if init['k'] == 'closure':
                # `let f = |..| ..;` : remember for SP and emit
                t, lam = self.closure(init)
                n = self.bindname(pat['id'], pat['name'], pat['bty'])
                if lam:
                    self.ghosts[n] = lam
                self.closure_vars = getattr(self, 'closure_vars', {})
                self.closure_vars[pat['id']] = init
                return 'let %s = %s;\n' % (n, t) + self.after_let(n)
            t = self.ex(init)
            n = self.bindname(pat['id'], pat['name'], pat['bty'])
            ann = ''
            try:
                if init['ty']['t'] not in ('closure', 'never'):
                    ann = ': ' + self.ty(pat['bty'])
            except Unsup:
                ann = ''
            return 'let %s%s%s = %s;\n' % ('mut ' if pat['mut'] else '', n, ann, t) + self.after_let(n)
        if init is None:
            if pat['k'] == 'wild':
                return ''
            raise Unsup('let pattern without init')
        if pat['k'] == 'wild':
            return 'let _ = %s;\n' % self.ex(init)
        if init['k'] in ('var', 'field', 'deref') and self.is_place(init):
            v = self.ex(init)
            return '\n'.join(self.irref(pat, v, init['ty'])) + '\n'
        v = self.fresh('pv')
        out = 'let %s = %s;\n' % (v, self.ex(init))
        out += '\n'.join(self.irref(pat, v, init['ty'])) + '\n'
        return out

    def after_let(self, n):
        return self.hint('let ' + n)

    def irref(self, pat, place, ty=None):
        """lower an irrefutable pattern into let statements projecting `place`"""
        k = pat['k']
        if k == 'wild':
            return []
        if k == 'bind':
            if pat['sub'] is not None:
                raise Unsup('@ pattern')
            n = self.bindname(pat['id'], pat['name'], pat['bty'])
            pl = {'no': place, 'ref': '&' + place, 'mut': '&mut ' + place}[pat['byref']]
            return ['let %s%s = %s;' % ('mut ' if pat['mut'] else '', n, pl)]
        if k == 'deref':
            return self.irref(pat['sub'], '(*%s)' % place)
        if k == 'leaf':
            out = []
            fl = pat.get('fields')
            for idx, sp in pat['subs']:
                f = str(idx) if fl is None else fl[idx]
                out += self.irref(sp, '%s.%s' % (place, f))
            return out
        raise Unsup('irrefutable pattern ' + k)

    def sp_irref(self, pat, place, env):
        """bind pattern names in env to spec texts"""
        k = pat['k']
        if k == 'wild':
            return True
        if k == 'bind':
            if pat['sub'] is not None:
                return False
            env[pat['id']] = {'no': place, 'ref': '(&%s)' % place, 'mut': place}[pat['byref']]
            return True
        if k == 'deref':
            return self.sp_irref(pat['sub'], '(*%s)' % place, env)
        if k == 'leaf':
            fl = pat.get('fields')
            for idx, sp in pat['subs']:
                f = str(idx) if fl is None else fl[idx]
                if not self.sp_irref(sp, '%s.%s' % (place, f), env):
                    return False
            return True
        return False

    def pat_bind_names(self, pat):
        out = []
        if pat['k'] == 'bind':
            out.append(self.bindname(pat['id'], pat['name'], pat['bty']))
        for x in pat.get('subs', []) or []:
            out += self.pat_bind_names(x[1] if isinstance(x, list) else x)
        if pat.get('sub'):
            out += self.pat_bind_names(pat['sub'])
        return out

    def is_place(self, e):
        k = e['k']
        if k == 'var':
            return True
        if k in ('field', 'deref'):
            return self.is_place(e['e'])
        return False

    # ---- refutable patterns
    def variant_path(self, p):
        adt = last(p['adt'])
        v = p['variant']
        if adt in ('Option', 'Result'):
            return v
        if adt == 'Ordering':
            return 'Ordering::' + v
        if adt == 'EitherOrBoth':
            return 'EitherOrBoth::' + v
        raise Unsup('enum ' + p['adt'])

    def pat(self, p, names_out=None):
        """-> (pattern text, guard list, bind statements)"""
        k = p['k']
        if k == 'wild':
            return '_', [], []
        if k == 'bind':
            if p['sub'] is not None:
                raise Unsup('@ pattern')
            n = self.bindname(p['id'], p['name'], p['bty'])
            if p['byref'] == 'no':
                if p['mut']:
                    t = self.fresh('mb')
                    return t, [], ['let mut %s = %s;' % (n, t)]
                return n, [], []
            # default binding mode: caller matched through a reference
            return n, [], []
        if k == 'const':
            return self.constval(p['v'], p['ty']), [], []
        if k == 'deref':
            sub = p['sub']
            if sub['k'] in ('variant', 'leaf') and self.all_byref(sub):
                return self.pat(sub)       # default binding modes
            t = self.fresh('d')
            if sub['k'] == 'wild':
                return '_', [], []
            if sub['k'] == 'const':
                return t, ['*%s == %s' % (t, self.constval(sub['v'], sub['ty']))], []
            if sub['k'] == 'deref':
                t2, g, b = self.pat(sub)
                raise Unsup('&& pattern')
            return t, [], self.irref(sub, '(*%s)' % t)
        if k == 'variant':
            subs = {i: s for i, s in p['subs']}
            g, b, ts = [], [], []
            named = p['ctor'] and 'Fn' not in p['ctor'] and 'Const' not in p['ctor'] and p['fields']
            for i in range(p['nfields']):
                if i in subs:
                    t, gg, bb = self.pat(subs[i])
                    g += gg
                    b += bb
                    ts.append(t)
                else:
                    ts.append('_')
            path = self.variant_path(p)
            return path + ('(' + ', '.join(ts) + ')' if ts else ''), g, b
        if k == 'leaf':
            if p.get('fields') is None and p['ty']['t'] == 'tuple':
                n = len(p['ty']['e'])
                subs = {i: s for i, s in p['subs']}
                g, b, ts = [], [], []
                for i in range(n):
                    if i in subs:
                        t, gg, bb = self.pat(subs[i])
                        g += gg
                        b += bb
                        ts.append(t)
                    else:
                        ts.append('_')
                return '(' + ', '.join(ts) + (',' if n == 1 else '') + ')', g, b
            fl = p['fields']
            g, b, ts = [], [], []
            for i, s in p['subs']:
                t, gg, bb = self.pat(s)
                g += gg
                b += bb
                ts.append('%s: %s' % (fl[i], t))
            n = last(p['adt'])
            return '%s { %s, .. }' % (n, ', '.join(ts)), g, b
        raise Unsup('pattern ' + k)

    def all_byref(self, p):
        if p['k'] == 'bind':
            return p['byref'] != 'no' or p['ty']['t'] == 'int' and False
        if p['k'] in ('const', 'wild'):
            return True
        return all(self.all_byref(x[1] if isinstance(x, list) else x) for x in p.get('subs', [])) and (
            not p.get('sub') or self.all_byref(p['sub']))

    def constval(self, v, t):
        v = str(v)
        m = re.match(r'^(-?\d+)(?:_?([ui]\w+))?$', v)
        if m:
            return m.group(1) + (t['n'] if t.get('t') == 'int' and not m.group(1).startswith('-') else '')
        if v in ('true', 'false'):
            return v
        raise Unsup('const pattern ' + v)

    def expand_or(self, p):
        """list of or-free patterns (top-level and under tuple/deref of variants without bindings)"""
        if p['k'] == 'or':
            return [y for x in p['subs'] for y in self.expand_or(x)]
        if p['k'] == 'deref':
            return [dict(p, sub=x) for x in self.expand_or(p['sub'])]
        if p['k'] in ('variant', 'leaf') and p['subs']:
            outs = [[]]
            for i, s in p['subs']:
                alts = self.expand_or(s)
                outs = [o + [[i, a]] for o in outs for a in alts]
            return [dict(p, subs=o) for o in outs]
        return [p]

    def match(self, e, arms, tail_fn=False):
        sc = e
        out = 'match %s {\n' % self.ex(sc)
        for a in arms:
            pats = self.expand_or(a['pat'])
            for p in pats:
                t, g, b = self.pat(p)
                gt = list(g)
                if a['guard'] is not None:
                    if b:
                        raise Unsup('guard with derefs')
                    gt.append(self.ex(a['guard']))
                self.brno += 1
                k = self.brno
                body = self.hint('br %d start' % k) + ' '.join(b) + '\n' + self.as_block(a['body'], tail_fn)
                out += indent('%s%s => {\n%s\n}' % (t, ' if ' + ' && '.join(gt) if gt else '', indent(body))) + '\n'
        return out + '}'

    def as_block(self, e, tail_fn=False):
        if e['k'] == 'block' and not e['b'].get('labelled'):
            return self.block_inner(e['b'], tail_fn)
        if e['k'] == 'never':
            return self.as_block(e['e'], tail_fn)
        return self.ex(e, tail_fn=tail_fn)

    # ---- expressions
    def ex(self, e, stmt=False, tail_fn=False):
        k = e['k']
        f = getattr(self, 'ex_' + k, None)
        if f is None:
            raise Unsup('expression ' + k + ' ' + str(e.get('dbg', '')))
        if k in ('if', 'match', 'block', 'loop', 'never'):
            return f(e, stmt=stmt, tail_fn=tail_fn)
        return f(e)

    def ex_never(self, e, stmt=False, tail_fn=False):
        return self.ex(e['e'], stmt=stmt, tail_fn=tail_fn)

    def ex_lit(self, e):
        if e['v'] is None:
            x = str_lit(e)
            if x is not None:
                return strlit(x)
            raise Unsup('literal ' + str(e.get('dbg')))
        t = e['ty']
        v = e['v']
        if t['t'] == 'int':
            return ('(%s%s)' if v.startswith('-') else '%s%s') % (v, t['n'])
        return v

    def ex_var(self, e):
        n = self.names.get(e['id'])
        if n is None:
            raise Unsup('unbound variable ' + e['n'])
        return n

    def ex_deref(self, e):
        return '(*%s)' % self.ex(e['e'])

    def ex_borrow(self, e):
        i = e['e']
        if i['k'] == 'deref' and i['e']['k'] == 'var' and not e['m']:
            return '&*' + self.ex(i['e']) if i['e']['ty'].get('m') else self.ex(i['e'])
        if i['k'] == 'index':
            b = i['e']
            if e['m']:
                if b['k'] != 'deref':
                    raise Unsup('index')
                return 'slice_index_mut(%s, %s)' % (self.ex(b['e']), self.ex(i['i']))
            return self.ex_index(i)[2:-1]
        return ('&mut ' if e['m'] else '&') + self.ex(i)

    def idx_base(self, e):
        """the reference to the slice indexed by e"""
        b = e['e']
        if b['ty']['t'] != 'slice':
            raise Unsup('index of ' + b['ty']['t'])
        return self.ex(b['e']) if b['k'] == 'deref' else '&' + self.ex(b)

    def ex_index(self, e):
        b = e['e']
        if b['k'] == 'deref' and b['e']['ty'].get('m'):
            return '(*slice_index(&*%s, %s))' % (self.ex(b['e']), self.ex(e['i']))
        return '(*slice_index(%s, %s))' % (self.idx_base(e), self.ex(e['i']))

    def ex_field(self, e):
        return self.ex(e['e']) + '.' + e['n']

    def ex_tuple(self, e):
        es = [self.ex(x) for x in e['es']]
        return '(' + ', '.join(es) + (',' if len(es) == 1 else '') + ')'

    def ex_un(self, e):
        if e['op'] == 'Not':
            return '(!%s)' % self.ex(e['e'])
        if e['op'] == 'Neg' and e['ty'].get('n') in ints.SIGNED:
            if e['e']['k'] == 'lit':
                return '(-%s)' % self.ex(e['e'])
            return '%s_neg(%s)' % (e['ty']['n'], self.ex(e['e']))
        if e['op'] == 'Neg' and e['ty'].get('t') == 'float' and self.em.floatF:
            return 'f_neg(%s)' % self.ex(e['e'])
        raise Unsup('unary')

    def ex_logic(self, e):
        return '(%s %s %s)' % (self.ex(e['l']), {'And': '&&', 'Or': '||'}[e['op']], self.ex(e['r']))

    def arith(self, op, l, r, t):
        n = t.get('n')
        if n == 'usize' and op in ('Add', 'Mul') and self.b['vname'] in self.em.ovf:
            return 'usize_%s(%s, %s)' % (OPN[op], l, r)
        if n == 'usize' or t['t'] == 'bool':
            return '(%s %s %s)' % (l, BOP[op], r)
        if op in OPN and ints.known(n, OPN[op]):
            if op in ('Div', 'Rem'):
                return '%s_%s(%s, %s, Ghost(panics_ok))' % (n, OPN[op], l, r)
            return '%s_%s(%s, %s)' % (n, OPN[op], l, r)
        raise Unsup('arithmetic on %s' % n)

    def ex_bin(self, e):
        op = e['op']
        l, r = self.ex(e['l']), self.ex(e['r'])
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if e['l']['ty']['t'] not in ('int', 'bool'):
                raise Unsup('comparison')
            return '(%s %s %s)' % (l, BOP[op], r)
        return self.arith(op, l, r, e['ty'])

    def ex_assignop(self, e):
        l = self.ex(e['l'])
        r = self.ex(e['r'])
        op = e['op'].replace('Assign', '')
        return '%s = %s' % (l, self.arith(op, l, r, e['l']['ty']))

    def ex_assign(self, e):
        r = self.ex(e['r'])
        l = self.ex(e['l'])
        if l.startswith('(*') and l.endswith(')'):
            l = l[1:-1]
        if e['l']['k'] in ('deref', 'field') and not self.is_place(e['l']):
            t = self.fresh('v')
            return '{ let %s = %s; %s = %s; }' % (t, r, l, t)
        return '%s = %s' % (l, r)

    def ex_cast(self, e):
        a, b = e['e']['ty'], e['ty']
        if a['t'] == 'int' and b['t'] == 'int':
            if a['n'] != b['n'] and not ints.widens(a['n'], b['n']):
                return '%s_as_%s(%s)' % (a['n'], b['n'], self.ex(e['e']))
            return '(%s as %s)' % (self.ex(e['e']), b['n'])
        if a['t'] == 'bool' and b['t'] == 'int':
            return '(if %s { 1%s } else { 0%s })' % (self.ex(e['e']), b['n'], b['n'])
        raise Unsup('cast')

    def ex_coerce(self, e):
        if 'Unsize' in e['cast']:
            t = e['e']['ty']
            if t['t'] == 'ref' and t['i']['t'] == 'array':
                return 'arr_slice(%s)' % self.ex(e['e'])
            raise Unsup('unsize coercion')
        if 'ReifyFnPointer' in e['cast'] or 'ClosureFnPointer' in e['cast']:
            raise Unsup('fn pointer')
        return self.ex(e['e'])

    def ex_zst(self, e):
        if e['ty']['t'] == 'fndef':
            return self.fnvalue(e['ty'])[0]
        raise Unsup('zst')

    def ex_const(self, e):
        c = e['callee']
        if 'res' in c and c['res'].get('local'):
            b = self.em.c.bodies.get(c['res']['path'])
            if b is None:
                raise Unsup('const ' + c['path'])
            return self.em.need(b) + '()'
        n = last(c['path'])
        if c.get('trait') and c['args'] and c['args'][0].get('t') == 'param':
            return {'ZERO': 'f_zero()', 'ONE': 'f_one()'}[n]
        b = self.em.c.bodies.get(c['path'])
        if b:
            return self.em.need(b) + '()'
        raise Unsup('const ' + c['path'])

    def ex_adt(self, e):
        if e['base'] is not None:
            raise Unsup('struct base')
        n = last(e['adt'])
        if n in ('Range',):
            fs = dict(e['fs'])
            return 'vrange(%s, %s)' % (self.ex(fs['start']), self.ex(fs['end']))
        if n == 'Ordering':
            return 'Ordering::' + e['variant']
        if n in ('Option', 'Result'):
            return e['variant'] + ('(' + ', '.join(self.ex(x[1]) for x in e['fs']) + ')' if e['fs'] else '')
        if n == 'EitherOrBoth':
            return 'EitherOrBoth::%s(%s)' % (e['variant'], ', '.join(self.ex(x[1]) for x in e['fs']))
        if e['enum']:
            raise Unsup('enum ' + n)
        if e['adt'] not in self.em.c.adts:
            raise Unsup('adt ' + e['adt'])
        self.em.adt(e['adt'])
        ts = []
        for name, x in e['fs']:
            ts.append((name, self.ex(x)))
        if e['ctor'] and 'Fn' in e['ctor']:
            return '%s(%s)' % (n, ', '.join(t for _, t in ts))
        return '%s { %s }' % (n, ', '.join('%s: %s' % x for x in ts))

    def ex_array(self, e):
        return '[%s]' % ', '.join(self.ex(x) for x in e['es'])

    def ex_closure(self, e):
        return self.closure(e)[0]

    def ex_return(self, e):
        if e['v'] is None:
            return self.hint('return') and '{ %s return }' % self.hint('return') or 'return'
        v = self.ex(e['v'], tail_fn=True)
        h = self.con.hints.get('end') if self.con else None
        if h:
            self.hit.add('hint end')
        h2 = self.con.hints.get('return') if self.con else None
        if h2:
            self.hit.add('hint return')
        if self.inlining:
            raise Unsup('return in inlined helper')
        if h2:
            return '{ let ret_v: %s = %s; %s return ret_v }' % (self.rett, v, subst(self.hint('return'), {'ret': 'ret_v'}))
        return 'return ' + v

    def ex_break(self, e):
        l = self.labels.get(e['l'])
        if l is None:
            raise Unsup('break label')
        kind, lab = l
        pre = ''
        if e['v'] is not None:
            v = e['v']
            if kind == 'value':
                return 'return ' + self.ex(v)
            if v['ty']['t'] == 'tuple' and not v['ty']['e']:
                return '{ %s; break %s }' % (self.ex(v), lab)
            raise Unsup('break with value')
        if kind == 'loop' and lab in self.forlabs and self.con and not (self.con.loops.get(int(lab[2:])) or {}).get('breaks') and 'exit of loop ' + lab[2:] not in self.bare:
            self.bare.append('exit of loop ' + lab[2:])      # a way out that the annotations of the loop do not know
        d = self.iter_drops(lab, True) + self.leave_hints(lab, True)
        return '{ %sbreak %s }' % (d, lab) if d else 'break ' + lab

    def iter_drops(self, lab, leave):
        """iterators over unique references that are abandoned by the jump: what they have not yielded stays as it is"""
        out = ''
        for l, it, item in reversed(self.active):
            if l == lab and not leave:
                break
            if item is not None:
                m = lambda t: t['t'] == 'ref' and t['m']
                if m(item):
                    out += 'it_drop(%s); ' % it
                elif item['t'] == 'tuple' and len(item['e']) == 2 and m(item['e'][1]):
                    out += 'it_drop_2(%s); ' % it
                elif item['t'] == 'tuple' and len(item['e']) == 2 and m(item['e'][0]):
                    out += 'it_drop_1(%s); ' % it
            if l == lab:
                break
        return out

    def leave_hints(self, lab, leave):
        out = ''
        for l, it, item in reversed(self.active):
            if l == lab and not leave:
                break
            k = int(l[2:])
            out += self.loop_hint(k, 'leave', {'$i': 'i%d' % k, '$s': 's%d' % k, '$it': it, '$x': 'x%d' % k})
            if l == lab:
                break
        return '\n' + out if out else ''

    def ex_continue(self, e):
        l = self.labels.get(e['l'])
        if l is None:
            raise Unsup('continue label')
        d = self.iter_drops(l[1], False) + self.leave_hints(l[1], False)
        return '{ %scontinue %s }' % (d, l[1]) if d else 'continue ' + l[1]

    def ex_block(self, e, stmt=False, tail_fn=False):
        return '{\n' + indent(self.block_inner(e['b'], tail_fn)) + '\n}'

    # conditions with `let`
    def has_let(self, c):
        if c['k'] == 'let':
            return True
        if c['k'] == 'logic':
            return self.has_let(c['l']) or self.has_let(c['r'])
        return False

    def ex_if(self, e, stmt=False, tail_fn=False):
        c, t, f = e['c'], e['t'], e['f']
        if c['k'] == 'let':
            p = c['pat']
            sc = self.ex(c['e'])
            pt, g, b = self.pat(p)
            self.brno += 1
            k = self.brno
            tb = self.hint('br %d start' % k) + ' '.join(b) + '\n' + self.as_block(t, tail_fn) + '\n' + self.hint('br %d end' % k)
            self.brno += 1
            k = self.brno
            fb = self.hint('br %d start' % k) + (self.as_block(f, tail_fn) if f is not None else '')
            return 'match %s {\n    %s%s => {\n%s\n    }\n    _ => {\n%s\n    }\n}' % (
                sc, pt, ' if ' + ' && '.join(g) if g else '', indent(tb, 8), indent(fb, 8))
        if self.has_let(c):
            raise Unsup('let chain')
        ct = self.ex(c)
        self.brno += 1
        k = self.brno
        tb = self.hint('br %d start' % k) + self.as_block(t, tail_fn) + self.hint_nl('br %d end' % k)
        out = 'if %s {\n%s\n}' % (ct, indent(tb))
        self.brno += 1
        k = self.brno
        if f is not None:
            fb = self.hint('br %d start' % k) + self.as_block(f, tail_fn) + self.hint_nl('br %d end' % k)
            out += ' else {\n%s\n}' % indent(fb)
        elif self.con and self.con.hints.get('br %d start' % k):
            out += ' else {\n%s\n}' % indent(self.hint('br %d start' % k))
        return out

    def hint_nl(self, k):
        h = self.hint(k)
        return ('\n' + h) if h else ''

    def ex_match(self, e, stmt=False, tail_fn=False):
        if e['src'] == 'ForLoopDesugar':
            return self.forloop(e)
        if e['src'] == 'TryDesugar':
            # match Try::branch(x) { Continue(v) => v, Break(r) => return from_residual(r) }
            call = e['e']
            if call['k'] == 'call' and 'branch' in call['callee']['path']:
                x = call['args'][0]
                if x['ty'].get('n', '').endswith('Option'):
                    if self.inlining:
                        raise Unsup('? in inlined helper')
                    v = self.fresh('q')
                    return 'match %s { Some(%s) => %s, None => { return None } }' % (self.ex(x), v, v)
                if x['ty'].get('n', '').endswith('Result') and x['ty']['a'][1].get('n') == 'core::fmt::Error' and self.rett.endswith(', FmtError>'):
                    if self.inlining:
                        raise Unsup('? in inlined helper')
                    v = self.fresh('q')
                    return 'match %s { Ok(%s) => %s, Err(%s) => { return Err(%s) } }' % (self.ex(x), v, v, v + 'e', v + 'e')
            raise Unsup('? on non-Option')
        return self.match(e['e'], e['arms'], tail_fn)

    # ---- loops
    def loop_spec(self, k, auto, dec, subs):
        con = self.con
        L = con.loops.get(k) if con and not self.inlining or con else None
        if L:
            self.hit.add('loop %d' % k)
        else:
            self.bare.append('loop %d' % k)
        inv = list(auto) + [subst2(x, subs) for x in (L['inv'] if L else [])]
        out = ''
        if L and L['invx']:
            out += '    invariant_except_break\n' + ''.join('        %s,\n' % subst2(x, subs) for x in L['invx'])
        if inv:
            out += '    invariant\n' + ''.join('        %s,\n' % x for x in inv)
        if L and L['ens']:
            out += '    ensures\n' + ''.join('        %s,\n' % subst2(x, subs) for x in L['ens'])
        d = L['dec'] if L and L['dec'] else dec
        if d:
            out += '    decreases %s,\n' % subst2(d, subs)
        self.obl.append('loop %d' % k)
        return out

    def loop_hint(self, k, where, subs):
        if not self.con:
            return ''
        return subst2(self.hint('loop %d %s' % (k, where)), subs)

    def forloop(self, e):
        # match IntoIterator::into_iter(X) { mut iter => loop { match next(&mut iter) { None => break, Some(pat) => body } } }
        call = e['e']
        x = call['args'][0] if call['k'] == 'call' and 'into_iter' in call['callee']['path'] else None
        if x is None:
            raise Unsup('for loop shape')
        lp = e['arms'][0]['body']
        while lp['k'] in ('never', 'block') and lp['k'] != 'loop':
            if lp['k'] == 'never':
                lp = lp['e']
            else:
                lp = lp['b']['tail'] or lp['b']['stmts'][0]['e']
        inner = lp['b']
        lab_hid = lp.get('hid')
        while inner['k'] != 'match':
            if inner['k'] == 'never':
                inner = inner['e']
            elif inner['k'] == 'block':
                inner = inner['b']['tail'] or inner['b']['stmts'][0]['e']
            else:
                raise Unsup('for loop body')
        some = [a for a in inner['arms'] if a['pat'].get('variant') == 'Some']
        if len(some) != 1:
            raise Unsup('for loop arms')
        some = some[0]
        pat = some['pat']['subs'][0][1]
        return self.for_emit(x, pat, some['body'], [lab_hid, e.get('hid')])

    def for_emit(self, x, pat, body, hids, closure_body=False):
        self.loopno += 1
        k = self.loopno
        lab = "'l%d" % k
        self.forlabs.add(lab)
        x = self.strip_into_iter(x)
        if x['k'] == 'adt' and last(x['adt']) == 'Range' and x['ty']['a'][0].get('n') == 'usize':
            fs = dict(x['fs'])
            lo, hi, iv = 'lo%d' % k, 'hi%d' % k, 'i%d' % k
            subs = {'$i': iv, '$lo': lo, '$hi': hi}
            out = self.loop_hint(k, 'enter', {}) + 'let %s: usize = %s;\nlet %s: usize = %s;\nlet mut %s: usize = %s;\n' % (
                lo, self.ex(fs['start']), hi, self.ex(fs['end']), iv, lo)
            auto = ['%s <= %s' % (lo, iv), '%s <= %s || %s == %s' % (iv, hi, iv, lo)]
            dec = '%s - %s' % (hi, iv)
            cond = '%s < %s' % (iv, hi)
            out += self.loop_hint(k, 'before', subs)
            bind = self.irref(pat, iv)
            step = '%s = %s + 1;' % (iv, iv)
        else:
            it, s, iv = 'it%d' % k, 's%d' % k, 'i%d' % k
            subs = {'$i': iv, '$s': s, '$it': it}
            out = self.loop_hint(k, 'enter', {}) + 'let mut %s = %s;\nlet ghost %s = %s@;\nlet ghost mut %s: int = 0;\n' % (
                it, self.to_viter(x), s, it, iv)
            auto = ['0 <= %s <= %s.len()' % (iv, s), '%s@ == %s.skip(%s)' % (it, s, iv)]
            dec = '%s.len() - %s' % (s, iv)
            cond = '%s.has_next()' % it
            v = 'x%d' % k
            subs['$x'] = v
            out += self.loop_hint(k, 'before', subs)
            bind = ['let %s = %s.next_item();' % (v, it)] + self.irref(pat, v)
            step = 'proof { %s = %s + 1; }' % (iv, iv)
        for h in hids:
            if h is not None:
                self.labels[h] = ('loop', lab)
        spec = self.loop_spec(k, auto, dec, subs)
        bt = '\n'.join(bind[:1] if cond.endswith('next()') else bind) + '\n' + step + '\n' + (
            '\n'.join(bind[1:]) if cond.endswith('next()') else '') + '\n'
        bt += self.loop_hint(k, 'start', subs)
        self.active.append((lab, 'it%d' % k, x['ty'].get('item')))
        inner = self.as_block(body)
        self.active.pop()
        if inner.strip():
            bt += inner + (';\n' if not inner.rstrip().endswith(';') else '\n')
        bt += self.loop_hint(k, 'end', subs)
        out += '%s: while %s\n%s{\n%s\n}\n' % (lab, cond, spec, indent(bt))
        out += self.loop_hint(k, 'after', subs)
        return '{\n%s\n}' % indent(out) if False else out_block(out)

    def strip_into_iter(self, x):
        while x['k'] == 'call' and last(x['callee']['path']) == 'into_iter' and 'item' in x['args'][0]['ty']:
            x = x['args'][0]
        while x['k'] == 'block' and not x['b']['stmts'] and x['b']['tail'] is not None:
            x = x['b']['tail']
        return x

    def ex_loop(self, e, stmt=False, tail_fn=False):
        self.loopno += 1
        k = self.loopno
        lab = "'l%d" % k
        val = not (e['ty']['t'] == 'tuple' and not e['ty']['e']) and e['ty']['t'] != 'never'
        if val and not tail_fn:
            raise Unsup('loop with value')
        self.labels[e.get('hid')] = ('value' if val else 'loop', lab)
        spec = self.loop_spec(k, [], None, {})
        body = e['b']
        h_before = self.loop_hint(k, 'before', {})
        bb = body
        while bb['k'] == 'block' and not bb['b']['stmts'] and bb['b']['tail'] is not None:
            bb = bb['b']['tail']
        # `while c {..}` is  loop { if c {body} else {break} }
        if bb['k'] == 'if' and bb['f'] is not None and not self.has_let(bb['c']) and self.is_plain_break(bb['f'], e.get('hid')):
            ct = self.ex(bb['c'])
            head = '%s: while %s\n' % (lab, ct)
            body = bb['t']
        else:
            head = '%s: loop\n' % lab
        bt = self.loop_hint(k, 'start', {})
        inner = self.as_block(body)
        bt += inner + (';\n' if inner.strip() and not inner.rstrip().endswith(';') else '\n') + self.loop_hint(k, 'end', {})
        return h_before + '%s%s{\n%s\n}\n' % (head, spec, indent(bt)) + self.loop_hint(k, 'after', {})

    def is_plain_break(self, f, hid):
        while True:
            if f['k'] == 'block':
                if f['b']['tail'] is not None and not f['b']['stmts']:
                    f = f['b']['tail']
                elif len(f['b']['stmts']) == 1 and f['b']['tail'] is None and f['b']['stmts'][0]['k'] == 'expr':
                    f = f['b']['stmts'][0]['e']
                else:
                    return False
            elif f['k'] == 'never':
                f = f['e']
            else:
                break
        return f['k'] == 'break' and f['l'] == hid and f['v'] is None

    # ---- closures
    def closure(self, e, force_params=None):
        """-> (exec text, spec lambda or None)"""
        self.closno += 1
        k = self.closno
        b = e['body']
        ov = (self.con.closures.get(k, {}) if self.con else {})
        if ov:
            self.hit.add('closure %d' % k)
        ps, env, lets = [], {}, []
        pts = []
        params = b['params']
        # THIR closure bodies list the environment as first param (no pattern)
        params = [p for p in params if p['pat'] is not None]
        clt = self.clt if self.mutret(e) else ''
        for i, p in enumerate(params):
            n = 'a%d_%d' % (k, i)
            t = self.em.ty(p['ty'], clt)
            pts.append((n, t))
            ps.append('%s: %s' % (n, t))
            if not self.sp_irref(p['pat'], n, env):
                raise Unsup('closure parameter pattern')
        cret = 'c%d' % k
        lsub = {'a%d' % i: n for i, (n, _) in enumerate(pts)}
        lsub['cret'] = cret
        rt = self.em.ty(b['ret'], clt)
        for i, p in enumerate(params):
            lets += self.irref(p['pat'], pts[i][0])
        spec = None
        if 'spec' in ov:
            spec = subst(ov['spec'], lsub)
        else:
            try:
                spec = self.SP(b['expr'], env)
            except Unsup:
                spec = None
        ens = []
        if 'ensures' in ov:
            ens = [subst(x, lsub) for x in ov['ensures']]
        if spec is not None:
            ens.insert(0, '%s == %s' % (cret, spec))
            ens += self.ENSN(b['expr'], env)
        elif 'ensures' not in ov:
            ens = self.ENS(b['expr'], cret, env)
        if 'requires' in ov:
            req = [subst(x, lsub) for x in ov['requires']]
        else:
            req = self.REQ(b['expr'], env)
        save_lab = self.labels
        self.labels = {}
        body = '\n'.join(lets) + ('\n' if self.panicky else '\nlet ghost panics_ok: bool = false;\n')
        if 'start' in ov:
            body += 'proof {\n%s\n}\n' % subst(ov['start'], lsub)
        bt = self.as_block(b['expr'])
        if 'end' in ov:
            bt = 'let cv: %s = {\n%s\n};\nproof {\n%s\n}\ncv' % (rt, bt, subst(ov['end'], dict(lsub, cret='cv')))
        body += bt
        self.labels = save_lab
        ens = ens + nopanic(req)
        if not ens:
            self.bare.append('closure %d' % k)
        muts = {n for (n, ty) in pts if ty.startswith('&mut')}
        req = [undr(r, muts) for r in req]
        ens = [undr(r, muts) for r in ens]
        txt = '|%s| -> (%s: %s)\n' % (', '.join(ps), cret, rt)
        if req:
            txt += '    requires\n' + ''.join('        %s,\n' % r for r in req)
        if ens:
            txt += '    ensures\n' + ''.join('        %s,\n' % r for r in ens)
        txt += '{\n%s\n}' % indent(body)
        lam = mklam([(n, t, params[i]['ty']) for i, (n, t) in enumerate(pts)], spec) if spec is not None else None
        return txt, lam

    def mutret(self, e):
        """closure from a unique reference to a reference: both carry the function's lifetime"""
        b = e['body']
        return has_ref(b['ret']) and any(p['pat'] is not None and p['ty']['t'] == 'ref' and p['ty']['m'] for p in b['params'])

    def fnvalue(self, t):
        """function item used as a value -> closure wrapper"""
        self.closno += 1
        k = self.closno
        c = t['callee']
        ps = [('a%d_%d' % (k, i), x) for i, x in enumerate(t['sig_in'])]
        cret = 'c%d' % k
        call = dict(k='call', callee=c, args=[dict(k='spvar', n=n, ty=x) for n, x in ps], src=True, ty=t['sig_out'])
        ov = (self.con.closures.get(k, {}) if self.con else {})
        if ov:
            self.hit.add('closure %d' % k)
        lsub = {'a%d' % i: n for i, (n, _) in enumerate(ps)}
        lsub['cret'] = cret
        spec = self.SP(call, {})
        if 'ensures' in ov:
            ens = [subst(x, lsub) for x in ov['ensures']]
        elif spec is not None:
            ens = ['%s == %s' % (cret, spec)]
        else:
            ens = self.ENS(call, cret, {})
        req = [subst(x, lsub) for x in ov['requires']] if 'requires' in ov else self.REQ(call, {})
        ens = ens + nopanic(req)
        txt = '|%s| -> (%s: %s)\n' % (', '.join('%s: %s' % (n, self.ty(x)) for n, x in ps), cret, self.ty(t['sig_out']))
        if req:
            txt += '    requires\n' + ''.join('        %s,\n' % r for r in req)
        if ens:
            txt += '    ensures\n' + ''.join('        %s,\n' % r for r in ens)
        txt += '{ %s%s }' % ('' if self.panicky else 'let ghost panics_ok: bool = false; ', self.ex(call))
        lam = mklam([(n, self.ty(x), x) for n, x in ps], spec) if spec is not None else None
        return txt, lam

    def ex_spvar(self, e):
        return e['n']

    def fnarg(self, e):
        """closure-valued argument -> (exec text, spec lambda or None)"""
        while e['k'] in ('coerce',) or (e['k'] == 'block' and not e['b']['stmts']):
            e = e['e'] if e['k'] == 'coerce' else e['b']['tail']
        if e['k'] == 'closure':
            return self.closure(e)
        if e['k'] == 'zst' and e['ty']['t'] == 'fndef':
            return self.fnvalue(e['ty'])
        if e['k'] == 'borrow' and e['e']['k'] == 'var':
            n = self.ex(e['e'])
            return '&' + n, self.ghosts.get(n)
        if e['k'] == 'var':
            n = self.ex(e)
            return n, self.ghosts.get(n)
        raise Unsup('function argument ' + e['k'])

    # ---- calls
    def target(self, c):
        """local body called, or None"""
        if 'res' in c:
            if c['res'].get('local'):
                return self.em.c.bodies.get(c['res']['path'])
            return None
        if c.get('local'):
            return self.em.c.bodies.get(c['path']) if not c.get('trait') else None
        return None

    def ex_callv(self, e):
        f = e['fun']
        args = e['args']
        while f['k'] in ('borrow', 'deref'):
            f = f['e']
        if f['k'] == 'var':
            return '%s(%s)' % (self.ex(f), ', '.join(self.ex(a) for a in args))
        raise Unsup('call through value')

    def is_fnparam_call(self, c):
        return last(c['path']) in ('call', 'call_mut', 'call_once') and c.get('trait', '').startswith('core::ops::function')

    def ex_call(self, e):
        c = e['callee']
        if c.get('ctor'):
            n = last(c['ctor_of'])
            args = [self.ex(a) for a in e['args']]
            if n in ('Some', 'Ok', 'Err'):
                return '%s(%s)' % (n, args[0])
            if c['ctor_of'] in self.em.c.adts:
                self.em.adt(c['ctor_of'])
                return '%s(%s)' % (n, ', '.join(args))
            raise Unsup('constructor ' + n)
        b = self.target(c)
        if b is not None:
            return self.local_call(b, e)
        from stdmap import std_call
        return std_call(self, e)

    def call_args(self, ats, args):
        """hoist later arguments when the first is a unique borrow"""
        if len(ats) > 1 and ats[0].startswith('&mut') and any(not re.match(r'^[\w.]+$', a) and not a.startswith('Ghost') for a in ats[1:]):
            pre = ''
            out = [ats[0]]
            for a in ats[1:]:
                if a.startswith('Ghost') or re.match(r'^[\w.]+$', a):
                    out.append(a)
                else:
                    v = self.fresh('h')
                    pre += 'let %s = %s; ' % (v, a)
                    out.append(v)
            return pre, out
        return '', ats

    def local_call(self, b, e):
        con = self.em.cons.get(b['vname'])
        n = b['vname']
        if con is None and n not in self.em.force_external and not self.trivial_keep(b):
            t = self.try_inline(b, e)
            if t is not None:
                return t
        args = []
        for i, a in enumerate(e['args']):
            pt = b['sig_in'][i]
            if pt['t'] == 'param' and pt['n'] not in ('F', 'O', 'T') and 'item' not in pt:
                t, lam = self.fnarg(a)
                args.append(t)
                if con and con.ghost_params:
                    if lam is None or lam.val is None:
                        raise Unsup('no functional description of closure argument of ' + n)
                    self._glam = lam.val
            elif 'item' in pt and not (pt['t'] == 'adt' and pt.get('local')):
                args.append(self.to_viter(a))
            else:
                args.append(self.ex(a))
        if con and con.ghost_params:
            args.append('Ghost(%s)' % self._glam)
        self.em.need(b)
        if con and con.panics:
            args.append('Ghost(panics_ok)')
        pre, args = self.call_args(args, e['args'])
        t = '%s(%s)' % (n, ', '.join(args))
        return '{ %s%s }' % (pre, t) if pre else t

    def trivial_keep(self, b):
        return False

    def try_inline(self, b, e):
        if b['path'] in self.inlining or len(self.inlining) > 4:
            return None
        # inline only bodies without return
        if contains(b['expr'], lambda x: x.get('k') == 'return' or (x.get('k') == 'match' and x.get('src') == 'TryDesugar')):
            raise Unsup('helper %s without contract cannot be inlined (early return)' % b['vname'])
        out = ''
        save = dict(self.names)
        binds = []
        for i, p in enumerate(b['params']):
            a = e['args'][i]
            pt = b['sig_in'][i]
            if p['pat'] is None:
                continue
            # strip own-binder bookkeeping: inlined binders are always fresh
            self.inlining.append(b['path'])
            try:
                if a['ty']['t'] in ('closure', 'fndef'):
                    t, lam = self.fnarg(a)
                    v = self.fresh('ia')
                    if lam:
                        self.ghosts[v] = lam
                else:
                    t = self.to_viter(a) if ('item' in pt and not (pt['t'] == 'adt' and pt.get('local'))) else self.ex(a)
                    v = self.fresh('ia')
            finally:
                self.inlining.pop()
            out += 'let %s = %s; ' % (v, t)
            binds.append((p['pat'], v, pt))
        self.inlining.append(b['path'])
        try:
            for pat, v, pt in binds:
                clear_binders(self, pat)
                if pat['k'] == 'bind' and pat['byref'] == 'no' and pat['sub'] is None and v in self.ghosts:
                    self.names[pat['id']] = v
                    continue
                out += ' '.join(self.irref(pat, v, pt)) + ' '
            clear_binders(self, b['expr'])
            body = self.as_block(b['expr'])
        finally:
            self.inlining.pop()
        self.em.inlined.setdefault(self.b['vname'], set()).add(b['vname'])
        return '{ %s\n%s }' % (out, body)

    # ---- iterator helpers
    def to_viter(self, e):
        """expression used as an IntoIterator"""
        e = self.strip_into_iter(e)
        t = e['ty']
        if t['t'] == 'adt' and t.get('local') and 'item' in t:
            n = last(t['n'])
            return '%s__drain(%s)' % (n, self.ex(e))
        if 'item' in t:
            return self.ex(e)
        if t['t'] == 'ref':
            i = t['i']
            m = '_mut' if t['m'] else ''
            if i['t'] == 'slice':
                return 'slice_iter%s(%s)' % (m, self.ex(e))
            if i['t'] == 'adt' and last(i['n']) == 'Vec':
                return 'vec_iter%s(%s)' % (m, self.ex(e))
            if i.get('item'):
                raise Unsup('iterating a &mut iterator')
        if t['t'] == 'adt' and last(t['n']) == 'Vec':
            return 'vec_into_iter(%s)' % self.ex(e)
        if t['t'] == 'adt' and last(t['n']) == 'HashSet':
            return 'vset_into_iter(%s)' % self.ex(e)
        if t['t'] == 'adt' and last(t['n']) == 'Option':
            return 'option_into_iter(%s)' % self.ex(e)
        raise Unsup('into_iter on ' + str(t.get('n', t['t'])))

    # ---- spec mode
    def SPs(self, es, env):
        out = []
        for x in es:
            s = self.SP(x, env)
            if s is None:
                return None
            out.append(s)
        return out

    def SP(self, e, env):
        """spec expression denoting the value of e, or None"""
        k = e['k']
        if k == 'lit':
            if e['v'] is None:
                return None
            if e['ty']['t'] == 'int':
                return '(%s%s)' % (e['v'], e['ty']['n'])
            return e['v']
        if k == 'spvar':
            return e['n']
        if k == 'var':
            if e['id'] in env:
                return env[e['id']]
            return self.names.get(e['id'])
        if k == 'never':
            return None
        if k == 'deref':
            s = self.SP(e['e'], env)
            return None if s is None else deref_s(s)
        if k == 'borrow':
            if e['m']:
                return None
            s = self.SP(e['e'], env)
            return None if s is None else ref_s(s)
        if k == 'field':
            s = self.SP(e['e'], env)
            return None if s is None else '%s.%s' % (s, e['n'])
        if k == 'index':
            ss = self.SPs([e['e']['e'] if e['e']['k'] == 'deref' else e['e'], e['i']], env)
            return None if ss is None else '%s@[%s as int]' % tuple(ss)
        if k == 'tuple':
            ss = self.SPs(e['es'], env)
            return None if ss is None else '(' + ', '.join(ss) + (',' if len(ss) == 1 else '') + ')'
        if k == 'un':
            s = self.SP(e['e'], env)
            if s is None:
                return None
            if e['op'] == 'Not':
                return '(!%s)' % s
            return '((-%s) as %s)' % (s, e['ty']['n'])
        if k == 'logic':
            ss = self.SPs([e['l'], e['r']], env)
            return None if ss is None else '(%s %s %s)' % (ss[0], {'And': '&&', 'Or': '||'}[e['op']], ss[1])
        if k == 'bin':
            ss = self.SPs([e['l'], e['r']], env)
            if ss is None:
                return None
            if e['op'] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return '(%s %s %s)' % (ss[0], BOP[e['op']], ss[1])
            if e['op'] in ('Div', 'Rem') and e['ty']['n'].startswith('i'):
                return '(%s_%s_spec(%s as int, %s as int) as %s)' % ('t', OPN[e['op']], ss[0], ss[1], e['ty']['n'])
            if e['op'] not in OPN:
                return None
            return '((%s %s %s) as %s)' % (ss[0], BOP[e['op']], ss[1], e['ty']['n'])
        if k == 'cast':
            s = self.SP(e['e'], env)
            if s is not None and e['e']['ty']['t'] == 'bool':
                return '(if %s { 1%s } else { 0%s })' % (s, e['ty']['n'], e['ty']['n'])
            return None if s is None else '(%s as %s)' % (s, e['ty']['n'])
        if k == 'if':
            if e['f'] is None or self.has_let(e['c']):
                return None
            ss = self.SPs([e['c'], e['t'], e['f']], env)
            return None if ss is None else '(if %s { %s } else { %s })' % tuple(ss)
        if k == 'block':
            b = e['b']
            if b['labelled'] or b['tail'] is None:
                return None
            env2 = dict(env)
            for s in b['stmts']:
                if s['k'] != 'let' or s['init'] is None or s['els'] is not None:
                    return None
                v = self.SP(s['init'], env2)
                if v is None or not self.sp_irref(s['pat'], v, env2):
                    return None
            return self.SP(b['tail'], env2)
        if k == 'match':
            return self.sp_match(e, env)
        if k == 'const':
            try:
                t = self.ex_const(e)
            except Unsup:
                return None
            if t == 'f_zero()':
                return 'fzero()'
            if t == 'f_one()':
                return 'fone()'
            return t[:-2] + '__spec()'
        if k == 'adt':
            n = last(e['adt'])
            if e['base'] is not None:
                return None
            vals = self.SPs([x[1] for x in e['fs']], env)
            if vals is None:
                return None
            if n == 'Ordering':
                return 'Ordering::' + e['variant']
            if n == 'Option':
                return e['variant'] + ('(' + ', '.join(vals) + ')' if vals else '')
            if n == 'Range' or e['enum'] or e['adt'] not in self.em.c.adts:
                return None
            self.em.adt(e['adt'])
            if e['ctor'] and 'Fn' in e['ctor']:
                return '%s(%s)' % (n, ', '.join(vals))
            return '%s { %s }' % (n, ', '.join('%s: %s' % (x[0], v) for x, v in zip(e['fs'], vals)))
        if k == 'callv':
            f = e['fun']
            while f['k'] in ('borrow', 'deref'):
                f = f['e']
            if f['k'] != 'var':
                return None
            g = self.ghosts.get(self.names.get(f['id'], ''))
            args = self.SPs(e['args'], env)
            if g is None or args is None:
                return None
            return g.app(args)
        if k == 'call':
            c = e['callee']
            if c.get('ctor'):
                args = self.SPs(e['args'], env)
                if args is None:
                    return None
                n = last(c['ctor_of'])
                if n == 'Some' or c['ctor_of'] in self.em.c.adts:
                    return '%s(%s)' % (n, ', '.join(args))
                return None
            b = self.target(c)
            if b is not None:
                con = self.em.cons.get(b['vname'])
                if con is not None:
                    if con.spec is None and con.derived(b['sig_out']) is None:
                        return None
                    args = self.SPs(e['args'], env)
                    if args is None:
                        return None
                    self.em.need(b)
                    return '%s__spec(%s)' % (b['vname'], ', '.join(args))
                # inline in spec mode
                if b['path'] in self.inlining:
                    return None
                args = self.SPs(e['args'], env)
                if args is None:
                    return None
                env2 = {}
                for i, p in enumerate(b['params']):
                    if p['pat'] is None or not self.sp_irref(p['pat'], args[i], env2):
                        return None
                self.inlining.append(b['path'])
                try:
                    return self.SP(b['expr'], env2)
                finally:
                    self.inlining.pop()
            from stdmap import std_spec
            return std_spec(self, e, env)
        return None

    def sp_match(self, e, env):
        if e['src'] != 'Normal':
            return None
        sc = self.SP(e['e'], env)
        if sc is None:
            return None
        # chain of if/else with `is` and projections
        res = []
        for a in e['arms']:
            if a['guard'] is not None:
                return None
            for p in self.expand_or(a['pat']):
                env2 = dict(env)
                conds = self.sp_pat(p, sc, env2)
                if conds is None:
                    return None
                v = self.SP(a['body'], env2)
                if v is None:
                    return None
                res.append((conds, v))
        out = res[-1][1]
        for conds, v in reversed(res[:-1]):
            out = '(if %s { %s } else { %s })' % (' && '.join(conds) or 'true', v, out)
        return out

    def sp_pat(self, p, place, env):
        k = p['k']
        if k == 'wild':
            return []
        if k == 'bind':
            if p['sub'] is not None:
                return None
            env[p['id']] = place if p['byref'] == 'no' else '(&%s)' % place
            return []
        if k == 'const':
            try:
                return ['%s == %s' % (place, self.constval(p['v'], p['ty']))]
            except Unsup:
                return None
        if k == 'deref':
            return self.sp_pat(p['sub'], deref_s(place), env)
        if k == 'leaf':
            fl = p.get('fields')
            out = []
            for idx, s in p['subs']:
                f = str(idx) if fl is None else fl[idx]
                c = self.sp_pat(s, '%s.%s' % (place, f), env)
                if c is None:
                    return None
                out += c
            return out
        if k == 'variant':
            adt = last(p['adt'])
            out = ['%s is %s' % (place, p['variant'])]
            for idx, s in p['subs']:
                pl = '%s->%s_%d' % (place, p['variant'], idx)
                c = self.sp_pat(s, pl, env)
                if c is None:
                    return None
                out += c
            return out
        return None

    def con_subst(self, b, con, args, extra=None):
        m = {}
        ns = con.params or [self.pname(p, i) for i, p in enumerate(b['params'])]
        for n, a in zip(ns, args):
            m[n] = a if re.match(r'^[\w.]+$', a) else '(%s)' % a
        m.update(extra or {})
        return lambda t: subst(t, m)

    def pname(self, p, i):
        if p['pat'] and p['pat']['k'] == 'bind':
            return {'self': 'this'}.get(p['pat']['name'], p['pat']['name'])
        return 'p%d' % i

    def ENS(self, e, ret, env):
        """postcondition clauses for the value of e when it is a single contracted call"""
        while e['k'] == 'block' and not e['b']['stmts'] and e['b']['tail'] is not None:
            e = e['b']['tail']
        if e['k'] == 'call':
            b = self.target(e['callee'])
            if b is not None:
                con = self.em.cons.get(b['vname'])
                args = self.SPs(e['args'], env)
                if con is not None and args is not None:
                    sb = self.con_subst(b, con, args, {'ret': ret})
                    return [sb(x) for x in con.ensures]
        return []

    def ENSN(self, e, env):
        """postconditions of the contracted calls every evaluation of e makes, for their described values"""
        k = e['k']
        if k == 'block' and not e['b']['stmts'] and e['b']['tail'] is not None:
            return self.ENSN(e['b']['tail'], env)
        if k in ('borrow', 'deref', 'field', 'use', 'scope') and isinstance(e.get('e'), dict):
            return self.ENSN(e['e'], env)
        if k != 'call':
            return []
        out = []
        for a in e['args']:
            out += self.ENSN(a, env)
        b = self.target(e['callee'])
        con = b is not None and self.em.cons.get(b['vname'])
        if con and (con.spec or con.derived(b['sig_out'])) and not con.requires:
            args = self.SPs(e['args'], env)
            v = self.SP(e, env)
            if args is not None and v is not None:
                sb = self.con_subst(b, con, args, {'ret': '(%s)' % v})
                out += [sb(x) for x in con.ensures]
        return out

    def REQ(self, e, env, path=()):
        """preconditions needed to evaluate e (list of clauses); best effort"""
        out = []

        def add(c):
            out.append(c if not path else '(%s) ==> (%s)' % (' && '.join(path), c))

        k = e['k']
        if k == 'if' and not self.has_let(e['c']):
            out += self.REQ(e['c'], env, path)
            c = self.SP(e['c'], env)
            if c is None:
                return out
            out += self.REQ(e['t'], env, path + (c,))
            if e['f'] is not None:
                out += self.REQ(e['f'], env, path + ('!' + c,))
            return out
        if k == 'logic':
            out += self.REQ(e['l'], env, path)
            c = self.SP(e['l'], env)
            if c is None:
                return out
            out += self.REQ(e['r'], env, path + ((c,) if e['op'] == 'And' else ('!' + c,)))
            return out
        if k == 'block':
            env = dict(env)
            for s in e['b']['stmts']:
                if s['k'] == 'let' and s['init'] is not None:
                    out += self.REQ(s['init'], env, path)
                    v = self.SP(s['init'], env)
                    if v is None or not self.sp_irref(s['pat'], v, env):
                        return out
                else:
                    return out
            if e['b']['tail'] is not None:
                out += self.REQ(e['b']['tail'], env, path)
            return out
        if k == 'match' and e['src'] == 'Normal':
            out += self.REQ(e['e'], env, path)
            sc = self.SP(e['e'], env)
            if sc is None:
                return out
            neg = ()
            for a in e['arms']:
                for p in self.expand_or(a['pat']):
                    env2 = dict(env)
                    c = self.sp_pat(p, sc, env2)
                    if c is None:
                        return out
                    out += self.REQ(a['body'], env2, path + neg + tuple(c))
                    if c:
                        neg = neg + ('!(%s)' % ' && '.join(c),)
            return out
        if k == 'closure':
            return out
        # generic children
        if k == 'call' or k == 'callv':
            for a in e['args']:
                out += self.REQ(a, env, path)
        for key in ('e', 'l', 'r'):
            if isinstance(e.get(key), dict) and 'k' in e[key]:
                out += self.REQ(e[key], env, path)
        for key in ('es',):
            for x in e.get(key, []) or []:
                out += self.REQ(x, env, path)
        if k == 'adt':
            for _, x in e['fs']:
                out += self.REQ(x, env, path)
        if k == 'index':
            out += self.REQ(e['i'], env, path)
            ss = self.SPs([e['e']['e'] if e['e']['k'] == 'deref' else e['e'], e['i']], env)
            if ss:
                add('%s < %s@.len()' % (ss[1], ss[0]))
        if k == 'bin' and e['ty'].get('n') == 'usize' and e['op'] in OPN:
            ss = self.SPs([e['l'], e['r']], env)
            if ss:
                if e['op'] in ('Add', 'Mul') and self.b['vname'] in self.em.ovf:
                    pass
                elif e['op'] in ('Add', 'Mul'):
                    add('%s %s %s <= usize::MAX' % (ss[0], BOP[e['op']], ss[1]))
                elif e['op'] == 'Sub':
                    add('%s >= %s' % (ss[0], ss[1]))
                else:
                    add('%s != 0' % ss[1])
        if k == 'callv':
            f = e['fun']
            while f['k'] in ('borrow', 'deref'):
                f = f['e']
            args = self.SPs(e['args'], env)
            if f['k'] == 'var' and args is not None and f['id'] in self.names:
                add('call_requires(%s, (%s,))' % (self.names[f['id']], ', '.join(args)))
        if k == 'call' and not e['callee'].get('ctor'):
            b = self.target(e['callee'])
            if b is not None:
                con = self.em.cons.get(b['vname'])
                args = self.SPs(e['args'], env)
                if con is not None and args is not None:
                    sb = self.con_subst(b, con, args)
                    for r in con.requires:
                        add(sb(r))
                    if con.panics:
                        add('(%s) ==> panics_ok' % sb(con.panics) if self.panicky else '!(%s)' % sb(con.panics))
                elif con is None and args is not None and b['path'] not in self.inlining:
                    env2 = {}
                    if all(p['pat'] is not None and self.sp_irref(p['pat'], args[i], env2) for i, p in enumerate(b['params'])):
                        self.inlining.append(b['path'])
                        try:
                            out += self.REQ(b['expr'], env2, path)
                        finally:
                            self.inlining.pop()
            else:
                from stdmap import std_req
                for r in std_req(self, e, env):
                    add(r)
        return out


def nopanic(req):
    """a closure of a function that may panic returns only where the call in it did not"""
    out = []
    for r in req:
        m = re.match(r'^(?:(.*) ==> \()?(\(.*\)) ==> panics_ok\)?$', r, re.S)
        if m:
            out.append('%s!%s' % (m.group(1) + ' ==> ' if m.group(1) else '', m.group(2)))
    return out


class Lam(str):
    """spec lambda of a closure; .val: the same with one reference layer of each parameter removed"""
    val = None
    param = False

    def app(self, args):
        if self.param:
            return '%s(%s)' % (self, ', '.join(deref_s(a) for a in args))
        return '(%s)(%s)' % (str(self), ', '.join(args))


def mklam(ps, spec):
    """ps: [(name, type text, ty)]"""
    l = Lam('|%s| %s' % (', '.join('%s: %s' % (n, t) for n, t, _ in ps), spec))
    if all(ty['t'] == 'ref' and not ty['m'] for _, _, ty in ps):
        def rep(m):
            return '(&%s)' % m.group(1)
        names = '|'.join(n for n, _, _ in ps)
        # values first: (*n) -> n was done above; mark those so that the second pass leaves them alone
        sp = spec
        sp = re.sub(r'\(\*(%s)\)' % names, lambda m: '\0' + m.group(1), sp)
        sp = re.sub(r'(?<![\w.\0])(%s)\b' % names, rep, sp)
        sp = sp.replace('\0', '')
        l.val = '|%s| %s' % (', '.join('%s: %s' % (n, t[t.index('&') + 1:].lstrip()) for n, t, _ in ps), sp)
    return l


def undr(t, muts):
    """`*x` in a closure specification moves x out of the closure's environment for rustc; vd(x) does not"""
    t = re.sub(r'\bcall_requires\((\w+),', r'call_requires(vd(&\1),', t)
    return re.sub(r'(?<![\w)\]])\*([A-Za-z_]\w*(?:->\w+)*)\b(?![(.\[@])', lambda m: m.group(0) if m.group(1) in muts else 'vd(%s)' % m.group(1),
                  re.sub(r'(?<=[\w)\]]) \* ', ' \x00 ', t)).replace('\x00', '*')


def deref_s(s):
    m = re.match(r'^\(&(.*)\)$', s)
    if m and balanced(m.group(1)):
        return m.group(1)
    return '(*%s)' % s


def ref_s(s):
    m = re.match(r'^\(\*(.*)\)$', s)
    if m and balanced(m.group(1)):
        return m.group(1)
    return '(&%s)' % s


def balanced(t):
    d = 0
    for ch in t:
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d < 0:
                return False
    # single operand only (no top-level spaces)
    d = 0
    for ch in t:
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif ch == ' ' and d == 0:
            return False
    return True


def out_block(t):
    return t


def subst2(t, subs):
    for k in sorted(subs, key=len, reverse=True):
        t = t.replace(k, subs[k])
    return t


def contains(x, pred):
    if isinstance(x, dict):
        if pred(x):
            return True
        if x.get('k') == 'closure':
            return False
        if pred(x):
            return True
        return any(contains(v, pred) for v in x.values())
    if isinstance(x, list):
        return any(contains(v, pred) for v in x)
    return False


def clear_binders(fe, x):
    """forget names of binders inside x so that a second inlining gets fresh ones"""
    if isinstance(x, dict):
        if x.get('k') == 'bind' and x['id'] in fe.names:
            del fe.names[x['id']]
        for v in x.values():
            if isinstance(v, (dict, list)):
                clear_binders(fe, v)
    elif isinstance(x, list):
        for v in x:
            clear_binders(fe, v)
