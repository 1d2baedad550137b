"""Runs the contracts and the bounded native monitors of one property and gives the verdict."""
import os, sys, json, time, hashlib, subprocess, traceback, multiprocessing as mp, signal, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
import irvc
import frontend
import prover
REPO = frontend.REPO

VENDORED_TRUST = [
    'clang-18 front end (-O0) and the LLVM IR it emits from /repo sources; irdump (IR to JSON)',
    'the irvc verification-condition generator in /verif/irvc',
    'z3 and cvc5',
]


class Group:
    """Contracts on functions of one translation unit (or several merged)."""

    def __init__(self, label, srcs, contracts, models=None, opts=None, flags=(), inc=(), notes=()):
        self.label = label
        self.srcs = srcs                # [(path relative to /repo or absolute, [regex])]
        self.contracts = contracts
        self.models = models or {}
        self.opts = opts or {}
        self.flags = list(flags)
        self.inc = list(inc)
        self.notes = list(notes)


class Native:
    """A bounded contract monitor compiled against /repo's current sources."""

    def __init__(self, label, srcs, bound, flags=(), libs=(), cxx=False, quick=(), thorough=(), deep=None, timeout=200, san=True, env=None, compiler=None, opt='-O1', subst=None, workdir=False, retries=0, parts=1):
        self.label, self.srcs, self.bound = label, list(srcs), bound
        self.flags, self.libs, self.cxx = list(flags), list(libs), cxx
        self.quick, self.thorough = list(quick), list(thorough)
        self.deep = list(deep) if deep is not None else list(thorough)
        self.timeout, self.san, self.env = timeout, san, env or {}
        self.compiler, self.opt = compiler, opt
        self.workdir = workdir
        self.parts = parts


def _verify_one(job):
    gi, ci = job
    g = _groups[gi]
    t0 = time.time()
    out = {'group': g.label, 'fn': g.contracts[ci].fn, 'obls': [], 'covers': [], 'err': None, 'inlined': [], 'models': [], 'trusted': []}
    try:
        js = []
        for src, pats in g.srcs:
            js.append(frontend.extract(src, pats, flags=g.flags, inc=g.inc))
        m = irvc.Module(js)
        e = irvc.Engine(m, g.contracts, models=g.models, opts=g.opts)
        e.covers = []
        c = g.contracts[ci]
        obs = e.verify(c)
        for o in obs:
            if o.status is not None:
                out['obls'].append((o.name, None, o.status, o.backend))
            else:
                out['obls'].append((o.name, prover.to_smt2(o.pc, o.goal), None, None))
        for nm, pc in e.covers:
            out['covers'].append((nm, prover.to_smt2(pc, z3.BoolVal(False))))
        out['inlined'] = sorted(m.fns[n]['dname'].split('(')[0] for n in e.inlined)
        out['models'] = sorted(k for k in e.trusted_used)
        out['paths'] = e.npaths
    except (irvc.Unsupported, frontend.ExtractError) as x:
        out['err'] = '%s: %s' % (type(x).__name__, x)
    except RecursionError as x:
        out['err'] = 'RecursionError'
    except Exception as x:
        out['err'] = 'internal: ' + ''.join(traceback.format_exception(type(x), x, x.__traceback__))[-1200:]
    out['time'] = time.time() - t0
    return out


_groups = []


class Clock:
    """The time left for the proofs.  Once the verdict cannot change any more (a monitor has a concrete failing
    input, or obligations have been decided against the code), only a short time is left for the others."""

    def __init__(self, deadline, monitors_failed):
        self.deadline, self.monitors_failed = deadline, monitors_failed
        self.cut = False

    def bad(self, why, sec, log):
        d = time.time() + sec
        if d < self.deadline:
            self.deadline = d
            log('remaining proof attempts limited to %.0fs: %s' % (sec, why))

    def wait(self, a, log):
        """result of the asynchronous job a, or None when time is up"""
        while True:
            if not self.cut and self.monitors_failed():
                self.cut = True
                self.bad('a monitor has a failing input', 45, log)
            left = self.deadline - time.time()
            try:
                return a.get(timeout=max(0.05, min(2.0, left)))
            except mp.TimeoutError:
                if left <= 0:
                    return None


def run_proofs(groups, deadline, ms, log, monitors_failed=lambda: False):
    global _groups
    clock = Clock(deadline, monitors_failed)
    _groups = groups
    frontend.irdump()
    # extraction is shared: do it before forking so that each unit is compiled once
    errs = {}
    for gi, g in enumerate(groups):
        for src, pats in g.srcs:
            try:
                frontend.extract(src, pats, flags=g.flags, inc=g.inc)
            except frontend.ExtractError as x:
                errs[gi] = str(x)
    jobs = [(gi, ci) for gi, g in enumerate(groups) for ci, c in enumerate(g.contracts) if not c.trusted and gi not in errs]
    results = []
    ctx = mp.get_context('fork')
    ncpu = min(8, os.cpu_count() or 4)
    obl = {}
    solver_time = 0.0
    covres = {}
    nsat_pre = {}
    with ctx.Pool(ncpu) as pool:
        pend = []
        covp = []
        it = pool.imap_unordered(_verify_one, jobs, chunksize=1)

        class Next:
            get = staticmethod(lambda timeout: it.next(timeout=timeout))
        for _ in jobs:
            r = clock.wait(Next, log)
            if r is None:
                log('verification-condition generation ran out of time')
                for j in jobs:
                    if not any(x['fn'] == groups[j[0]].contracts[j[1]].fn and x['group'] == groups[j[0]].label for x in results):
                        results.append({'group': groups[j[0]].label, 'fn': groups[j[0]].contracts[j[1]].fn, 'obls': [], 'covers': [], 'err': 'Unsupported: out of time', 'inlined': [], 'models': [], 'time': 0})
                pool.terminate()
                break
            results.append(r)
            seen = {}
            for k, (nm, txt, status, be) in enumerate(r['obls']):
                n = seen[nm] = seen.get(nm, 0) + 1
                name = nm if n == 1 else '%s#%d' % (nm, n)
                key = (r['group'], name)
                if status is not None:
                    obl[key] = (status, 0.0, be, None)
                else:
                    pend.append((key, pool.apply_async(prover.solve, ((0, txt, ms, True, 1),)), txt))
            r['nobl'] = len(r['obls'])
            r['obls'] = None
            for nm, txt in r['covers']:
                covp.append((nm, pool.apply_async(prover.cover, ((0, txt, 1500),))))
            r['covers'] = None
        unk = []
        nbad = 0
        for key, a, txt in pend:
            x = clock.wait(a, log)
            if x is None:
                obl[key] = ('undecided', 0, 'z3', 'out of time')
                continue
            _, status, t, be, model, why = x
            solver_time += t
            obl[key] = (status, t, be, model or why)
            if status == 'unknown':
                unk.append((key, txt))
            if status == 'refuted' or status == 'unknown':
                nbad += 1
                if status == 'refuted' or nbad == 12:
                    clock.bad('obligations fail', 75, log)
        # a second, longer attempt for the undecided ones
        if unk and time.time() < clock.deadline:
            re = [(key, pool.apply_async(prover.solve, ((0, txt, m, True, 2),))) for m in ((ms,) if len(unk) > 12 else (ms, ms * 3)) for key, txt in unk]
            for key, a in re:
                if obl[key][0] != 'unknown':
                    continue
                x = clock.wait(a, log)
                if x is not None:
                    _, status, t, be, model, why = x
                    solver_time += t
                    obl[key] = (status, t, be, model or why)
        for nm, a in covp:
            x = clock.wait(a, log)
            covres.setdefault(nm, []).append(x[1] if x is not None else 'unknown')
        pool.terminate()
    for gi, e in errs.items():
        for c in groups[gi].contracts:
            if not c.trusted:
                results.append({'group': groups[gi].label, 'fn': c.fn, 'err': 'ExtractError: ' + e[:600], 'inlined': [], 'models': [], 'nobl': 0, 'time': 0})
    vac = [nm for nm, rs in covres.items() if all(r == 'unsat' for r in rs)]
    return results, obl, solver_time, vac, covres


def build_native(n, out):
    comp = n.compiler or ('clang++' if n.cxx else 'clang')
    cmd = [comp] + (['-std=c++17'] if n.cxx else []) + ['-g', n.opt, '-w', '-ffp-contract=off']
    if n.san:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=' + (n.san if isinstance(n.san, str) else 'vptr,function')]
    cmd += n.flags + ['-I' + REPO, '-I' + REPO + '/include', '-I' + VERIF + '/native']
    if n.cxx:
        cmd += ['-I' + REPO + '/_build', '-isystem', '/usr/lib/llvm-20/include']
    srcs = [s if os.path.isabs(s) else (os.path.join(VERIF, s) if s.startswith('native/') else os.path.join(REPO, s)) for s in n.srcs]
    if n.cxx:
        # C sources keep their language; the translation units are compiled side by side
        def one(ks):
            k, s = ks
            o = '%s.%d.o' % (out, k)
            cc = (['clang'] + [x for x in cmd[1:] if x != '-std=c++17'] if s.endswith('.c') else cmd) + ['-c', s, '-o', o]
            r = subprocess.run(cc, capture_output=True, text=True)
            return o, r, cc
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(srcs)))
        for o, r, cc in res:
            if r.returncode:
                return r.returncode, r.stderr[-3000:], ' '.join(cc)
        srcs = [o for o, _, _ in res]
    cmd = cmd + srcs + ['-o', out] + n.libs
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr[-3000:], ' '.join(cmd)


def run_native(n, exe, args, seed, timeout, cwd):
    env = dict(os.environ)
    env.update({'VERIF_SEED': str(seed), 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'print_stacktrace=0'})
    env.update(n.env)

    def one(part):
        a = list(args) + (['part=%d/%d' % (part, n.parts)] if n.parts > 1 else [])
        p = subprocess.Popen([exe] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, cwd=cwd, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, e = p.communicate()
            rc = 'timeout'
        return rc, o, e, a
    if n.parts == 1:
        res = [one(0)]
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n.parts) as ex:
            res = list(ex.map(one, range(n.parts)))
    cases, samples, fail, to = 0, [], None, False
    for rc, o, e, a in res:
        cur = None
        for l in o.split('\n'):
            if l.startswith('CASES '):
                cases += int(l.split()[1])
            elif l.startswith('SAMPLE ') and len(samples) < 5:
                samples.append(l[7:400])
            elif l.startswith('FAIL ') and fail is None:
                fail = (l[5:2000], a, (o[-1500:] + e[-2500:]))
        if rc == 'timeout':
            cases_to = True
            to = True
        elif rc != 0 and fail is None:
            cur = [l for l in e.split('\n') if l.startswith('CURRENT ')]
            fail = ('process ended with status %s while checking: %s' % (rc, cur[-1][8:] if cur else '(no case recorded)'), a, o[-1500:] + e[-3500:])
    return {'fail': fail, 'cases': cases, 'samples': samples, 'timeout': to}


def main(mod, argv=None):
    t0 = time.time()
    prop = mod.PROP
    tier = os.environ.get('VERIF_TIER', 'quick')
    if argv and len(argv) > 0 and argv[0] in ('quick', 'thorough'):
        tier = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = os.environ.get('VERIF_VERBOSE')
    limit = float(os.environ.get('VERIF_LIMIT', '780' if tier == 'quick' else '3300'))
    deadline = t0 + limit

    def log(*a):
        print('[%s %.0fs]' % (prop, time.time() - t0), *a, flush=True)
    groups = mod.groups(tier) if hasattr(mod, 'groups') else []
    natives = mod.natives(tier) if hasattr(mod, 'natives') else []
    tmp = frontend.tmpdir()
    # build the monitors in the background
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(4)
    builds = []
    for k, n in enumerate(natives):
        exe = os.path.join(tmp, 'native%d' % k)
        builds.append((n, exe, ex.submit(build_native, n, exe)))
    known = load_known(prop)
    mfail = []

    def monitor(n, exe, fut):
        rc, err, cmd = fut.result()
        if rc != 0:
            return None
        args = n.quick if tier == 'quick' else n.thorough
        r = run_native(n, exe, args, seed, min(n.timeout if tier == 'quick' else n.timeout * 6, max(20, deadline - time.time())), tmp)
        if r['fail'] and not match_known(known, r['fail'][0]):
            mfail.append(n.label)
        return r
    mex = ThreadPoolExecutor(3)
    runs = [mex.submit(monitor, *b) for b in builds]
    # ---- deductive part
    ms = 20000 if tier == 'quick' else 60000
    pdl = t0 + limit * 0.6
    results, obl, stime, vac, covres = run_proofs(groups, pdl, ms, log, lambda: bool(mfail)) if groups else ([], {}, 0.0, [], {})
    extra = []
    if hasattr(mod, 'extra_obligations'):
        # further obligations decided by another deductive back end (e.g. bit-vector validity)
        for r in mod.extra_obligations(tier, tmp, max(30, pdl - time.time())):
            extra.append(r)
            if r.get('err'):
                results.append({'group': r['group'], 'fn': r['fn'], 'err': r['err'], 'inlined': [], 'models': r.get('models', []), 'nobl': 0, 'time': r.get('time', 0)})
                continue
            results.append({'group': r['group'], 'fn': r['fn'], 'err': None, 'inlined': r.get('inlined', []), 'models': r.get('models', []), 'nobl': len(r['obls']), 'time': r.get('time', 0)})
            for nm, status, t, be, info in r['obls']:
                obl[(r['group'], nm)] = (status, t, be, info)
                stime += t
    bad = sorted((k, v) for k, v in obl.items() if v[0] not in ('proved', 'undecided'))
    undec = sorted(k for k, v in obl.items() if v[0] == 'undecided')
    outof = [r for r in results if r['err']]
    internal = [r for r in outof if r['err'].startswith('internal')]
    log('%d obligations, %d discharged, %d not; %d functions proved-under-contract, %d out of reach; solver %.1fs' % (
        len(obl), len(obl) - len(bad) - len(undec), len(bad) + len(undec), len([r for r in results if not r['err']]), len(outof), stime))
    for r in outof:
        log('OUT OF REACH on this tree (bounded monitors stand in):', r['group'], r['fn'], '--', r['err'][:1500 if verbose else 300])
    for k, v in bad[:40]:
        log('FAILED obligation', '%s / %s' % k, v[0], v[2], str(v[3])[:300])
    if verbose:
        for r in sorted(results, key=lambda r: -r['time'])[:10]:
            log('vcgen %.1fs %s %s paths=%s n=%s' % (r['time'], r['group'], r['fn'], r.get('paths'), r.get('nobl')))
        for k, v in sorted(obl.items(), key=lambda x: -x[1][1])[:10]:
            log('slow %.1fs %s %s %s' % (v[1], k, v[0], v[2]))
    if vac:
        log('VACUOUS:', vac)
    # ---- bounded monitors
    nres = []
    fails = []
    monitor_broken = []
    deep_until = time.time() + (150 if tier == 'quick' else 600)
    for (n, exe, fut), run in zip(builds, runs):
        rc, err, cmd = fut.result()
        if rc != 0:
            monitor_broken.append((n.label, err))
            log('monitor %s does not build: %s' % (n.label, err[-800:]))
            continue
        r = run.result()
        if r['fail'] is None and bad and not mfail and time.time() + 10 < min(deadline, deep_until):
            # a proof obligation fails: search harder for a concrete witness
            log('searching for a failing input with', n.label)
            r2 = run_native(n, exe, n.deep, seed + 1, max(10, min(deadline, deep_until) - time.time()), tmp)
            if r2['fail'] is not None:
                r = r2
                mfail.append(n.label)
            else:
                r['cases'] += r2['cases']
        nres.append((n, r, cmd))
        log('monitor %s: %d cases%s%s' % (n.label, r['cases'], ' (stopped at its time limit)' if r['timeout'] else '', ' FAILED' if r['fail'] else ''))
        if r['fail']:
            log('  ', r['fail'][0][:600])
            fails.append((n, r, cmd))
    # ---- known findings
    knownhit = set()
    real = []
    for n, r, cmd in fails:
        kf = match_known(known, r['fail'][0])
        if kf:
            knownhit.add(kf)
        else:
            real.append((n, r, cmd))
    badk = []
    for k, v in bad:
        kf = match_known(known, 'obligation %s / %s' % k)
        if kf:
            knownhit.add(kf)
        else:
            badk.append((k, v))
    for kf in known:
        if kf.get('status') == 'open' and (kf['id'] in knownhit):
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']), flush=True)
    # ---- verdict
    code = 0
    violation = None
    rp = os.path.join(VERIF, 'replays')
    if real or badk:
        os.makedirs(rp, exist_ok=True)
        body = []
        if badk:
            body.append('FAILED OBLIGATIONS (verifier output)')
            for k, v in badk:
                body.append('  %s / %s: %s by %s (%.1fs) %s' % (k[0], k[1], v[0], v[2], v[1], str(v[3])[:4000]))
        for n, r, cmd in real:
            body.append('FAILING INPUT (replayed on the code of /repo by monitor %s)' % n.label)
            body.append('  case: ' + r['fail'][0])
            body.append('  build: ' + cmd)
            body.append('  run: VERIF_SEED=%d <exe> %s' % (seed, ' '.join(r['fail'][1])))
            body.append('  output:\n' + r['fail'][2])
        txt = '\n'.join(body) + '\n'
        path = os.path.join(rp, '%s-%s.txt' % (prop, hashlib.sha256(txt.encode()).hexdigest()[:10]))
        open(path, 'w').write(txt)
        violation = 'VIOLATION property=%s replay=%s%s' % (prop, path, '' if real else ' no-failing-input-found')
        code = 1
    elif vac and not outof:
        log('internal: vacuous specification', vac)
    # ---- evidence
    trusted = list(VENDORED_TRUST) + list(getattr(mod, 'TRUSTED', []))
    ms_used = sorted(set(x for r in results for x in (r.get('models') or [])))
    if ms_used:
        trusted.append('models of external functions: ' + ', '.join(ms_used))
    backends = {}
    for v in obl.values():
        if v[0] == 'proved':
            backends[v[2]] = backends.get(v[2], 0) + 1
    lvl = getattr(mod, 'LEVEL', 'proof')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl,
          'coverage': {
              'obligations': len(obl), 'discharged': len(obl) - len(bad) - len(undec), 'by_back_end': backends, 'solver_time_s': round(stime, 2),
              'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier), 'trusted_base': trusted,
              'functions_under_contract': sorted(set('%s: %s' % (r['group'], r['fn']) for r in results if not r['err'])),
              'functions_inlined_into_them': sorted(set(x for r in results for x in (r.get('inlined') or [])))[:200],
              'functions_out_of_reach_this_run': [{'fn': r['fn'], 'why': r['err'][:300]} for r in outof],
              'vacuity': {'checked': len(covres), 'vacuous': vac},
              'obligations_not_attempted_for_lack_of_time': ['%s / %s' % k for k in undec][:200],
              'failed_obligations': ['%s / %s' % k for k, v in bad],
              'bounded_monitors_not_counted_as_proof': [{'monitor': n.label, 'bound': n.bound, 'cases': r['cases'], 'stopped_at_time_limit': r['timeout'], 'samples': r['samples']} for n, r, c in nres],
              'monitors_not_built': [x for x, _ in monitor_broken],
              'known_findings': sorted(knownhit),
              'explanation': getattr(mod, 'EXPLAIN', ''),
          },
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [x for g in groups for x in g.notes],
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if code else 0}
    if lvl == 'other':
        ev['coverage'].setdefault('explanation', '')
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, prop + '.json'), 'w'), indent=1)
    if verbose and internal:
        for r in internal:
            print(r['err'])
    if violation:
        print(violation, flush=True)
    else:
        log('holds on everything explored')
    return code


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open']


def match_known(known, text):
    for k in known:
        if k.get('status') == 'open' and k.get('match') and k['match'] in text:
            return k['id']
    return None
