#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree:
  A. extract every function (rustc THIR), translate it with its contract, let Verus discharge every obligation;
  B. at the same time run the property's bounded search on the real code (harness), which supplies failing inputs.
Exit 0 / exit 1 with a VIOLATION line; always rewrites evidence/PROPERTY.json."""
import sys, os, json, subprocess, time, threading, fcntl, shutil, re, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ALGEO_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'vc'))
import props, run, translate

T0 = time.time()
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CONF = props.PROPS[PROP]
THOROUGH = TIER == 'thorough'
FINDINGS = os.path.join(HERE, 'known-findings.txt')
REPLAY = os.path.join(BUILD, 'replay')
WORK = os.path.join(BUILD, 'work', PROP)


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['PATH'] = e.get('PATH', '') + ':/root/.cargo/bin:/usr/local/bin'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(kw)
    return e


def sh(cmd, cwd, e, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, '', 'timed out: ' + ' '.join(cmd)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


# ---------------------------------------------------------------- A: proof

class Proof:
    def __init__(self):
        self.state = 'undecided'     # proved | failed | undecided
        self.why = []
        self.fails = []              # named failed obligations
        self.info = {}

    def go(self):
        try:
            self.inner()
        except Exception as x:
            import traceback
            self.state = 'undecided'
            self.why.append('machinery: ' + ''.join(traceback.format_exception_only(type(x), x)).strip()[:400])
            self.info['trace'] = traceback.format_exc()[-2000:]

    def inner(self):
        if not CONF.get('group'):
            self.why.append('no contract decides this property')
            return
        thir = os.path.join(WORK, 'thir.json')
        with Lock('extract'):
            rc, so, se = sh(['cargo', '+nightly', 'build', '--offline'], os.path.join(HERE, 'extract'),
                            env(CARGO_TARGET_DIR=os.path.join(BUILD, 'xtgt')), 600)
            if rc:
                self.why.append('extractor does not build: ' + se[-800:])
                return
            rc, sysroot, _ = sh(['rustc', '+nightly', '--print', 'sysroot'], HERE, env(), 60)
            chk = os.path.join(BUILD, 'chk')
            for d in glob.glob(os.path.join(chk, 'debug/.fingerprint/algeo-*')):
                shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(thir):
                os.unlink(thir)
            rc, so, se = sh(['cargo', '+nightly', 'check', '--lib', '--offline'], REPO,
                            env(CARGO_TARGET_DIR=chk, THIRDUMP_OUT=thir, LD_LIBRARY_PATH=sysroot.strip() + '/lib',
                                RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, 'xtgt/debug/thirdump')), 600)
            if rc or not os.path.exists(thir):
                self.why.append('extraction failed: ' + se[-1500:])
                return
        crate = translate.Crate(thir)
        parts = [(CONF['group'], CONF['roots'])] + list(CONF.get('also', []))
        states, infos = [], []
        for group, roots in parts:
            self.state, self.info = 'undecided', {}
            self.one(crate, group, list(roots))
            states.append(self.state)
            infos.append(self.info)
        self.state = 'failed' if 'failed' in states else 'undecided' if 'undecided' in states else 'proved'
        self.info = infos[0]
        for (group, _), i in list(zip(parts, infos))[1:]:
            for k in ('verified', 'errors', 'solver_wall_s', 'smt_ms'):
                self.info[k] = self.info.get(k, 0) + i.get(k, 0)
            for k in ('functions_under_contract', 'functions_inlined_or_uncontracted', 'functions_external', 'assumed_contracts'):
                self.info[k] = sorted(set(self.info.get(k, [])) | set(i.get(k, [])))
            self.info['part ' + group] = i

    def one(self, crate, group, roots):
        gconf = props.GROUPS[group]
        ext = {}
        f = os.path.join(WORK, group + '.rs')
        extra = []
        for rnd in range(6):
            txt, seg, em, cons = run.assemble(crate, group, gconf, roots, ext)
            open(f, 'w').write(txt)
            p, dt, cmd = run.verus(f, extra, timeout=400)
            v, c = run.parse_diag(p, seg)
            if c:
                bad = {run.owner(r, seg) for r in c}
                if None in bad or not bad or all(b in ext for b in bad):
                    self.why.append('the verifier rejects the generated text: ' + c[0]['msg'][:300])
                    self.info['front_end'] = [r['rendered'] for r in c[:5]]
                    self.fill(em, cons, seg, None, dt, cmd, f, ext)
                    return
                for b in bad:
                    ext[b] = 'rejected by the verifier front end: ' + [r['msg'] for r in c if run.owner(r, seg) == b][0]
                continue
            if v and all(r.get('rlimit') for r in v) and not extra:
                extra = ['--rlimit', '60']
                continue
            break
        try:
            j = json.loads(p.stdout[p.stdout.index('{'):])
        except Exception:
            self.why.append('no verdict from the verifier: ' + (p.stderr or p.stdout)[-500:])
            self.fill(em, cons, seg, None, dt, cmd, f, ext)
            return
        self.fill(em, cons, seg, j, dt, cmd, f, ext)
        undec = dict(em.unsup)
        lost, bare = {}, {}
        for n in em.order:
            d = em.done[n]
            if d['status'] == 'verified' and n in cons:
                l = d['fe'].lost()
                if l:
                    lost[n] = l
                if d['fe'].bare:
                    bare[n] = d['fe'].bare
        self.info['lost_annotations'] = lost
        missing = [n for n in em.order if em.done[n]['status'] == 'nosig']
        hard, soft = self.sort_out(v, seg, lost, bare)
        fns = {r['function'] for r in hard}
        if fns:
            # does the proof fail only because a usize sum or product is not proved to fit?
            txt2, seg2, em2, _ = run.assemble(crate, group, gconf, roots, ext, ovf=fns)
            if txt2 != txt:
                f2 = os.path.join(WORK, group + '_ovf.rs')
                open(f2, 'w').write(txt2)
                p2, dt2, _ = run.verus(f2, extra, timeout=300)
                v2, c2 = run.parse_diag(p2, seg2)
                if p2.stdout.find('{') >= 0 and not c2 and not self.sort_out(v2, seg2, lost, bare, quiet=True)[0]:
                    self.info['usize_overflow_not_excluded'] = sorted(fns)
                    self.why.append('%s: proved only under the assumption that usize sums and products fit' % ', '.join(sorted(fns)))
                    soft += hard
                    hard = []
        self.fails += hard
        self.info['soft_failures'] = soft
        for n, u in undec.items():
            self.why.append('%s: %s' % (n, u))
        if hard:
            self.state = 'failed'
        elif soft or undec or missing:
            self.state = 'undecided'
        elif j['verification-results'].get('errors', 1) == 0 and j['verification-results'].get('success'):
            self.state = 'proved'
            # vacuity: `assert(false)` at the end of every body must be refuted
            try:
                self.info['vacuity_probes'] = run.vacuity(f, txt, seg, [n for n in em.order if em.done[n]['status'] == 'verified'], extra,
                                                          ('start', 'end') if THOROUGH else ('end',))
                bad = [n for m in self.info['vacuity_probes'].values() for n in m['not_refuted'] if 'explicit return' not in n]
                if bad:
                    self.state = 'undecided'
                    self.why.append('vacuous: `false` was not refuted in ' + ', '.join(bad))
            except Exception as x:
                self.info['vacuity_probes'] = repr(x)[:300]
        else:
            self.why.append('verifier: ' + json.dumps(j['verification-results']))

    def sort_out(self, v, seg, lost, bare, quiet=False):
        """failed obligations -> those that stand, those that do not decide"""
        hard, soft, why = [], [], []
        for r in v:
            o = run.owner(r, seg) or '(lemma)'
            rec = dict(function=o, obligation=r['msg'], clause='; '.join(s[2] for s in r['spans'] if s[2])[:500], output=r['rendered'])
            if r.get('rlimit'):
                soft.append(rec)
                why.append('resource limit in ' + o)
            elif o in lost or o in bare or '(lemma)' == o:
                soft.append(rec)
                why.append('%s was restructured; its annotations no longer fit (%s)' % (o, lost.get(o) or bare.get(o)))
            else:
                hard.append(rec)
        if not quiet:
            self.why += why
        return hard, soft

    def fill(self, em, cons, seg, j, dt, cmd, f, ext):
        fns = [n for n in em.order if em.done[n]['status'] == 'verified']
        self.info.update(
            functions_under_contract=[n for n in fns if n in cons],
            functions_inlined_or_uncontracted=[n for n in fns if n not in cons],
            functions_undecided={n: em.unsup.get(n, ext.get(n, '')) for n in em.order if em.done[n]['status'] in ('undecided', 'nosig')},
            functions_external=[n for n in em.order if em.done[n]['status'] == 'external'],
            solver_wall_s=round(dt, 2), checker_cmd=cmd, text=f)
        t = open(f).read()
        self.info['trusted_scan'] = dict(
            external_body=len(re.findall(r'external_body', t)), assume=len(re.findall(r'\bassume\s*\(', t)),
            admit=len(re.findall(r'\badmit\s*\(', t)), axioms=len(re.findall(r'\baxiom fn\b', t)))
        used = sorted(set(re.findall(r'\b(?:pub )?fn (\w+)', ''.join(re.findall(r'external_body\][^\n{]*\n?[^\n{]*', t)))))
        self.info['assumed_contracts'] = used
        if j:
            r = j['verification-results']
            self.info['verified'] = r.get('verified', 0)
            self.info['errors'] = r.get('errors', 0)
            try:
                self.info['smt_ms'] = j['times-ms']['smt']['total']
            except Exception:
                pass


# ---------------------------------------------------------------- B: bounded search on the real code

class Hunt:
    def __init__(self):
        self.ok = False
        self.why = ''
        self.reports = []
        self.fails = []

    def build(self):
        e = env(CARGO_TARGET_DIR=os.path.join(BUILD, 'htgt'), RUSTFLAGS='--cfg algeo_verif', CARGO_INCREMENTAL='0')
        cmd = ['cargo', 'build', '--offline', '--features', CONF['feature']]
        rc, so, se = sh(cmd, os.path.join(HERE, 'harness'), e, 600)
        if rc:
            # the hooks may no longer fit a restructured crate; the public interface may still do
            first = se
            e['RUSTFLAGS'] = ''
            rc, so, se = sh(cmd, os.path.join(HERE, 'harness'), e, 600)
            if rc:
                self.why = 'the harness does not build against the current tree: ' + first[-1500:]
                return False
            self.why = 'hooks unavailable'
        os.makedirs(WORK, exist_ok=True)
        self.bin = os.path.join(WORK, 'harness')
        shutil.copy2(os.path.join(BUILD, 'htgt/debug/harness'), self.bin)
        return True

    def run(self, seed, secs, scale):
        out = os.path.join(WORK, 'hunt-%d.json' % seed)
        if os.path.exists(out):
            os.unlink(out)
        rc, so, se = sh([self.bin, PROP, '--seed', str(seed), '--secs', str(secs), '--scale', str(scale), '--out', out],
                        WORK, env(), secs + 120)
        if not os.path.exists(out):
            self.why = 'harness gave no report (rc %s): %s' % (rc, se[-500:])
            return
        d = json.load(open(out))
        d['seed'] = seed
        self.reports.append(d)
        for f in d['fails']:
            f['seed'] = seed
            self.fails.append(f)

    def go(self):
        try:
            with Lock('harness'):
                if not self.build():
                    return
            self.ok = True
            if THOROUGH:
                self.many(range(SEED, SEED + 8), 240, 60)
            else:
                self.run(SEED, 20, CONF.get('scale', 3))
        except Exception as x:
            self.why = 'machinery: %r' % x

    def many(self, seeds, secs, scale):
        ts = [threading.Thread(target=self.run, args=(s, secs, scale)) for s in seeds]
        [t.start() for t in ts]
        [t.join() for t in ts]


def findings():
    known, fixed = [], []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) input=(.*?) :: (.*)$', l)
            if m and m.group(1) == PROP:
                known.append(dict(key=m.group(2), input=m.group(3), what=m.group(4)))
            elif l.startswith('fixed: property=%s ' % PROP):
                fixed.append(l)
    return known, fixed


def main():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    A, B = Proof(), Hunt()
    ta, tb = threading.Thread(target=A.go), threading.Thread(target=B.go)
    ta.start(); tb.start(); ta.join(); tb.join()

    known, fixed = findings()
    new = []
    for f in B.fails:
        k = [x for x in known if x['key'] == f['key'] and x['input'] == f['input']]
        if not k:
            new.append(f)
    if A.state == 'failed' and not new and B.ok and not THOROUGH:
        # look harder for an input before reporting the obligation alone
        left = 420 - (time.time() - T0)
        if left > 30:
            B.many(range(SEED + 100, SEED + 108), min(60, left / 2), 40)
            for f in B.fails:
                if not [x for x in known if x['key'] == f['key'] and x['input'] == f['input']]:
                    new.append(f)

    status, lines = 0, []
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s: %s' % (PROP, k['input'], k['what']))
    replay = os.path.join(REPLAY, PROP + '.txt')
    if new:
        f = new[0]
        txt = 'property %s\nfailing input (real code, seed %s)\n  operation: %s\n  input: %s\n  what: %s\n' % (PROP, f['seed'], f['key'], f['input'], f['what'])
        txt += '\nreproduce: %s %s --seed %s --secs 60 --scale %s\n' % (B.bin, PROP, f['seed'], CONF.get('scale', 3))
        if A.state == 'failed':
            txt += '\nfailed obligations:\n' + '\n'.join('  %s: %s: %s\n%s' % (x['function'], x['obligation'], x['clause'], x['output']) for x in A.fails)
        txt += '\nall failing inputs found:\n' + '\n'.join('  [%s] %s => %s' % (x['key'], x['input'], x['what']) for x in new)
        open(replay, 'w').write(txt)
        lines.append('VIOLATION property=%s replay=%s' % (PROP, replay))
        status = 1
    elif A.state == 'failed':
        txt = 'property %s\nno failing input was found by the bounded search; these obligations fail:\n' % PROP
        txt += '\n'.join('  %s: %s: %s\n%s' % (x['function'], x['obligation'], x['clause'], x['output']) for x in A.fails)
        open(replay, 'w').write(txt)
        for x in A.fails[:5]:
            print('failed obligation: %s: %s: %s' % (x['function'], x['obligation'], x['clause'][:200]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, replay))
        status = 1

    # ------------------------------------------------------------ evidence
    ev = sum(r['evaluations'] for r in B.reports)
    nt = sum(r['distinct_nontrivial'] for r in B.reports)
    samples = [s for r in B.reports for s in r['samples']][:12]
    level = CONF.get('level', 'proof')
    cov = dict(
        verdict=A.state,
        obligations=A.info.get('verified', 0) + A.info.get('errors', 0),
        discharged=A.info.get('verified', 0),
        checker_cmd=A.info.get('checker_cmd', ''),
        trusted_base=['Verus 0.2026.09.13 and its Z3', 'rustc nightly (THIR of the functions verified)', 'extract/ and vc/translate.py, vc/stdmap.py (translation)',
                      'std/itertools functions behave like the verified reference implementations of vc/prelude_*.rs; %d functions assumed without body (listed)' % len(A.info.get('assumed_contracts', []))],
        back_end='Verus -> Z3',
        proof=A.info,
        undecided=A.why,
        failed_obligations=[dict(function=x['function'], obligation=x['obligation'], clause=x['clause']) for x in A.fails],
        bounded=dict(label='bounded (not counted as proved)', seeds=[r['seed'] for r in B.reports], skipped_overflow=sum(r['skipped'] for r in B.reports),
                     note=B.why, secs=round(sum(r['secs'] for r in B.reports), 2)),
        evaluations=ev, distinct_nontrivial=nt,
        rule='harness %s: exhaustive small inputs plus seeded random ones run on the real code against an independent oracle; non-trivial as flagged per case in harness/src/%s.rs' % (PROP, CONF['feature']),
        samples=samples or ['(none)'],
        explanation=CONF.get('explain', 'contracts on the real functions discharged by Verus; bounded search supplies failing inputs'),
    )
    doc = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=CONF.get('assume', []),
               wall_s=round(time.time() - T0, 2), violations=len(new) or len(A.fails))
    json.dump(doc, open(os.path.join(HERE, 'evidence', PROP + '.json'), 'w'), indent=1)

    print('%s: proof %s (%s/%s obligations, %s functions under contract); bounded search %s evaluations, %s failing; %.1f s' % (
        PROP, A.state, cov['discharged'], cov['obligations'], len(A.info.get('functions_under_contract', [])), ev, len(new), time.time() - T0))
    for w in A.why[:8]:
        print('  undecided: ' + w[:300])
    if B.why:
        print('  bounded search: ' + B.why[:600])
    for l in lines:
        print(l)
    if status == 0 and not B.ok and A.state != 'proved':
        print('no answer: neither the proof nor the bounded search could be carried out')
        sys.exit(2)
    sys.exit(status)


main()
