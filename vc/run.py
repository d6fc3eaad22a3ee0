#!/usr/bin/env python3
"""dump -> translate -> assemble -> Verus; library + CLI used by check.py"""
import os, sys, json, re, subprocess, time, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import translate as T

VERIF_FAIL = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
              'decreases not satisfied', 'possible arithmetic', 'possible division', 'could not show termination',
              'loop ensures not satisfied', 'unable to prove', 'possible bit shift', 'cannot prove', 'assertion not satisfied',
              'recommendation not met', 'constructed value may fail', 'invariant_except_break not satisfied', 'requires not satisfied',
              'unwind', 'at this location', 'not all errors may have been reported', 'loop must have a decreases', 'could not prove termination',
              'decreases condition')


def is_verif_msg(m):
    return any(x in m for x in VERIF_FAIL)


def assemble(crate, group, confs, roots, ext, lemmas_only=False, ovf=()):
    paths = [os.path.join(HERE, '..', 'contracts', c) for c in confs['contracts']]
    cons, raws = T.parse_contracts(paths)
    if confs.get('inst') and confs['inst'] != 'used':
        import inst
        raws = list(raws) + [('field_instance.vc', inst.text(confs['inst']))]
    em = T.Emit(crate, cons, raws, roots, ext)
    em.floatF = bool(confs.get('any'))
    em.ovf = set(ovf)      # functions in which usize + and * panic on overflow instead of being proved in range
    adts = em.run()
    if confs.get('inst') == 'used':
        import inst
        while True:
            used = sorted({x for n in em.order for x in re.findall(r'\bf_[a-z]\w*', em.done[n]['text'] or '') if x in inst.BODY})
            new = [c for x in used for c in inst.calls(x) if c not in em.done]
            if not new:
                break
            for c in new:
                em.need(crate.byname[c])
        raws.append(('field_instance.vc', inst.text('used', used)))
    lines = []
    cur = 1
    seg = []       # (start, end, kind, name)

    def add(t, kind='glue', name=''):
        nonlocal cur
        n = t.count('\n') + 1
        seg.append((cur, cur + n - 1, kind, name))
        lines.append(t)
        cur += n
    HEAD = '#[allow(unused_imports)] use super::*;'
    an = [T.last(p) for p in em.adts_needed]
    if an:
        HEAD += ' #[allow(unused_imports)] use crate::adts::{%s};' % ', '.join(an)
    add('use vstd::prelude::*; #[allow(unused_imports)] use core::cmp::Ordering; #[allow(unused_imports)] use vstd::seq_lib::*;\nverus!{')
    bc = confs.get('broadcast', [])
    BU = 'broadcast use {%s};' % ', '.join('crate::pre::' + b for b in bc) if bc else ''
    mods = ['pre', 'adts']
    add('pub mod pre { ' + HEAD)
    for p in confs['preludes']:
        add(open(os.path.join(HERE, p)).read(), 'prelude', p)
    import ints
    gen = ints.needed('\n'.join(em.done[n]['text'] or '' for n in em.order), '\n'.join(lines))
    if gen:
        add(gen, 'prelude', 'ints.py')
    add('}')
    add('pub mod adts { #[allow(unused_imports)] use super::*;')
    for t in adts:
        add(t, 'adt')
    add('}')
    for i, (p, t) in enumerate(raws):
        m = 'raw%d' % i
        mods.append(m)
        add('pub mod %s { %s %s' % (m, HEAD, BU))
        add(t, 'raw', os.path.basename(p))
        add('}')
    br = confs.get('broadcast_raw', [])
    if br:
        BU = BU.replace('};', ', %s};' % ', '.join('crate::raw%d::%s' % ([i for i, (_, t) in enumerate(raws) if re.search(r'fn %s\b' % b, t)][0], b) for b in br))
    if confs.get('broadcast_fn'):
        BU = BU.replace('};', ', %s};' % ', '.join('crate::pre::' + b for b in confs['broadcast_fn']))
    names = [n for n in em.order if em.done[n]['text']]
    k = max(1, min(NMOD, (len(names) + 3) // 4))
    for i in range(k):
        m = 'fns%d' % i
        mods.append(m)
        add('pub mod %s { %s %s' % (m, HEAD, BU))
        for n in names[i::k]:
            add(em.done[n]['text'], 'fn', n)
        add('}')
    add('#[allow(unused_imports)] pub use {%s};' % ', '.join(m + '::*' for m in mods))
    add('fn main() {}\n}')
    return '\n'.join(lines), seg, em, cons


NMOD = 8


def closure_raws(raws):
    return raws


def verus(path, extra=(), timeout=600, threads=8):
    cmd = ['verus', path, '--num-threads', str(threads), '--output-json', '--time', '--no-report-long-running', '--multiple-errors', '3'] + list(extra) + ['--', '--error-format=json']
    cmd = ['verus', path, '--num-threads', str(threads), '--output-json', '--time-expanded', '--multiple-errors', '3', '--error-format=json'] + list(extra)
    t = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p, time.time() - t, ' '.join(cmd)


def seg_of(seg, line):
    for a, b, k, n in seg:
        if a <= line <= b:
            return k, n
    return '?', '?'


def parse_diag(p, seg):
    verif, comp = [], []
    for l in p.stderr.split('\n'):
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get('level') not in ('error', 'error: internal compiler error') :
            if 'rlimit' in d.get('message', '') or 'Resource limit' in d.get('message', ''):
                pass
            else:
                continue
        m = d['message']
        if m.startswith('aborting due to'):
            continue
        sp = d.get('spans', [])
        pr = [s for s in sp if s.get('is_primary')] or sp
        line = pr[0]['line_start'] if pr else 0
        # function containing: prefer the span whose segment is a fn and which is the body site
        cand = [seg_of(seg, s['line_start']) for s in sp]
        rec = dict(msg=m, line=line, spans=[(s['line_start'], s.get('label') or '', ' '.join(x['text'].strip() for x in s.get('text', []))[:300], bool(s.get('is_primary'))) for s in sp],
                   seg=seg_of(seg, line), rendered=d.get('rendered', '')[:3000])
        if 'Resource limit' in m or 'rlimit' in m or 'spinoff' in m and 'timeout' in m:
            rec['rlimit'] = True
            verif.append(rec)
        elif is_verif_msg(m):
            verif.append(rec)
        else:
            comp.append(rec)
    return verif, comp


def probe(txt, seg, names, mode):
    """the same text with `assert(false)` at the start (or before the end) of every function body: each must be refuted"""
    L = txt.split('\n')
    put = []
    for a, b, k, n in seg:
        if k != 'fn' or n not in names:
            continue
        i = next((x for x in range(a - 1, b) if L[x].lstrip().startswith('let ghost panics_ok: bool =')), None)
        if i is None:
            continue
        if mode == 'start':
            j = L[i].index(';') + 1
            L[i] = L[i][:j] + ' assert(false);' + L[i][j:]
            put.append(n)
            continue
        o = next((x for x in range(i, a - 2, -1) if L[x] == '{'), None)
        c = next((x for x in range(b - 1, i, -1) if L[x] == '}'), None)
        sig = ' '.join(L[a - 1:o]) if o is not None else ''
        if o is None or c is None or '-> !' in sig:
            continue
        m = re.search(r'-> \(ret: (.*?)\)\s*(?:requires|ensures|decreases|$)', sig)
        if m:
            L[o], L[c] = '{ let probe_r: %s = {' % m.group(1), '}; assert(false); probe_r }'
        else:
            L[o], L[c] = '{ {', '}; assert(false); }'
        put.append(n)
    return '\n'.join(L), put


def vacuity(f, txt, seg, names, extra=(), modes=('start', 'end')):
    """functions whose start / end is not refuted: contradictory preconditions, or an end that cannot be reached"""
    out = {}
    src = txt.split('\n')
    rets = {n for a, b, k, n in seg if k == 'fn' and any(re.search(r'\breturn\b', x) for x in src[a - 1:b])}
    for mode in modes:
        t, put = probe(txt, seg, names, mode)
        g = f[:-3] + '_probe_' + mode + '.rs'
        open(g, 'w').write(t)
        p, dt, cmd = verus(g, extra, timeout=300)
        v, c = parse_diag(p, seg)
        L = t.split('\n')
        hit = {owner(r, seg) for r in v if r.get('rlimit') or any('assert(false)' in L[s[0] - 1] for s in r['spans'] if 0 < s[0] <= len(L))}
        out[mode] = dict(probed=len(put), refuted=len([n for n in put if n in hit]), not_refuted=[n + (' (ends in an explicit return)' if n in rets and mode == 'end' else '') for n in put if n not in hit] if not c else ['front end: ' + c[0]['msg'][:200]])
    return out


def owner(rec, seg):
    """function an error belongs to: a precondition error's primary span is the call site"""
    k, n = rec['seg']
    if k == 'fn':
        return n
    for line, lab, txt, prim in rec['spans']:
        k2, n2 = seg_of(seg, line)
        if k2 == 'fn':
            return n2
    return None


if __name__ == '__main__':
    import props
    ap = sys.argv[1:]
    group = ap[0]
    roots = [a for a in ap[1:] if not a.startswith('-')]
    conf = props.GROUPS[group]
    crate = T.Crate(os.environ.get('THIR', '/tmp/t/thir.json'))
    if not roots:
        roots = [n for n in T.parse_contracts([os.path.join(HERE, '..', 'contracts', c) for c in conf['contracts']])[0]]
    ext = {}
    for rnd in range(4):
        txt, seg, em, cons = assemble(crate, group, conf, roots, ext, ovf=os.environ.get('OVF', '').split())
        d = os.environ.get('OUTDIR', '/tmp/t/v')
        f = '%s/%s.rs' % (d, group)
        os.makedirs(d, exist_ok=True)
        open(f, 'w').write(txt)
        if '-n' in ap:
            break
        p, dt, cmd = verus(f, [a for a in ap if a.startswith('--')])
        v, c = parse_diag(p, seg)
        if c and '-k' in ap:
            bad = {owner(r, seg) for r in c}
            if None not in bad and bad:
                for b in bad:
                    ext[b] = 'rejected by the verifier front end: ' + [r['msg'] for r in c if owner(r, seg) == b][0]
                continue
        break
    for n, u in em.unsup.items():
        print('UNSUP', n, u)
    for n in em.order:
        d = em.done[n]
        if d['status'] == 'verified' and (d['fe'].bare or n in cons and d['fe'].lost()):
            print('BARE', n, d['fe'].bare, d['fe'].lost() if n in cons else '')
    if '-p' in ap:
        print(vacuity(f, txt, seg, [n for n in em.order if em.done[n]['status'] == 'verified']))
    if '-n' not in ap:
        for r in c[:12]:
            print('COMPILE', r['msg'], 'in', owner(r, seg), r['spans'][:3])
        for r in v:
            print('FAIL', r['msg'], 'in', owner(r, seg), r['line'], [(s[0], s[1], s[2][:160]) for s in r['spans']])
        try:
            j = json.loads(p.stdout[p.stdout.index('{'):])
            print(j['verification-results'], round(dt, 1))
        except Exception as ex:
            print(p.stdout[-500:], p.stderr[-1500:] if not c and not v else '', round(dt, 1))
