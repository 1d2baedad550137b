"""Discharge irvc obligations with z3 (in worker processes) and cvc5."""
import os, subprocess, time, tempfile, multiprocessing as mp, pickle, select, signal
import z3
# the integer-equation solver of this z3 may run for minutes inside one step, ignoring the timeout
z3.set_param('lp.dio', False)


def to_smt2(pc, goal):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _run_z3(txt, ms, seed=0, tactic=None):
    """in a child of its own, ended when z3 overruns its timeout"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            res = pickle.dumps(_run_z3_here(txt, ms, seed, tactic))
            while res:
                res = res[os.write(w, res):]
        finally:
            os._exit(0)
    os.close(w)
    buf, end = b'', time.time() + ms / 1000 + 3
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            break
        x = os.read(r, 1 << 20)
        if not x:
            break
        buf += x
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return 'unknown', None, 'timeout'


def _run_z3_here(txt, ms, seed=0, tactic=None):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', ms)
    if seed:
        s.set('random_seed', seed)
    if tactic == 'nomb':
        s.set('smt.mbqi', False)
    s.from_string(txt)
    r = s.check()
    m = None
    if r == z3.sat:
        try:
            m = {str(d): str(s.model()[d])[:200] for d in s.model().decls() if d.arity() == 0 and not str(d).startswith('mem')}
        except Exception:
            m = None
    why = s.reason_unknown() if r == z3.unknown else ''
    return str(r), m, why


def _run_cvc5(txt, ms):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        n = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '-q', n], capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        os.unlink(n)
    return out if out in ('sat', 'unsat') else 'unknown'


def solve(job):
    """job = (n, smt2 text, ms, use cvc5[, phase]).  Phase 1 is a short attempt with every back end, phase 2 a
    longer one with other seeds; without a phase both are made."""
    n, txt, ms, usecvc = job[:4]
    phase = job[4] if len(job) > 4 else 0
    t = time.time()
    be = 'z3'
    w1 = ''
    if phase != 2:
        r, m, why = _run_z3(txt, min(ms, 4000), tactic='nomb')
        if r == 'unsat':
            return n, 'proved', time.time() - t, be, None, ''
        r1, m1, w1 = _run_z3(txt, min(ms, 4000))
        if r1 == 'unsat':
            return n, 'proved', time.time() - t, be, None, ''
        if r1 == 'sat':
            return n, 'refuted', time.time() - t, be, m1, ''
    if usecvc:
        rc = _run_cvc5(txt, min(ms, 8000) if phase == 1 else ms)
        if rc == 'unsat':
            return n, 'proved', time.time() - t, 'cvc5', None, ''
        if rc == 'sat':
            return n, 'refuted', time.time() - t, 'cvc5', None, ''
    if ms > 4000 and phase != 1:
        for seed in (7, 23):
            r, m, why = _run_z3(txt, ms, seed, 'nomb' if seed == 7 else None)
            if r == 'unsat':
                return n, 'proved', time.time() - t, be, None, ''
            if r == 'sat' and seed != 7:
                return n, 'refuted', time.time() - t, be, m, ''
    return n, 'unknown', time.time() - t, be, None, w1 or 'undecided'


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = mp.get_context('fork').Pool(min(8, os.cpu_count() or 4))
    return _pool


def has_q(pc):
    from irvc import has_quant
    return any(has_quant(p) for p in pc)


def discharge(obls, ms=20000, cvc=True):
    jobs = []
    for n, o in enumerate(obls):
        if o.status is None:
            jobs.append((n, to_smt2(o.pc, o.goal), ms, cvc))
    for n, status, t, be, m, why in pool().imap_unordered(solve, jobs, chunksize=1):
        o = obls[n]
        o.status, o.time, o.backend, o.model = status, t, be, m
    return obls


def cover(job):
    n, txt, ms = job
    r, m, why = _run_z3(txt, ms)
    return n, r


def check_covers(covers, ms=1500):
    """a precondition / invariant / return path is vacuous iff its path condition is unsat"""
    jobs = [(n, to_smt2(pc, z3.BoolVal(False)), ms) for n, (nm, pc) in enumerate(covers)]
    res = {}
    for n, r in pool().imap_unordered(cover, jobs, chunksize=1):
        res.setdefault(covers[n][0], []).append(r)
    return res
