import os
import z3
import irvc, irbv
from irvc import *
from omt import *
from suite import Group, Native
PROP = 'C09'
EXPLAIN = ('The output is a ghost log of the formatted records (operation name, node name, phase, times) fed by a model of fprintf; the record buffer is a sequence of pending records. Proved: the tag macros pack and unpack '
           'losslessly (bit-vector validity over all 2^64 tags and lengths); recording a call appends exactly one pending record holding the clock, leaves every other entry alone and never leaves the buffer; flushing emits every '
           'pending record once, in order, with its own names cut to the lengths in its tag and its own times; an instrumentation call records exactly what its tag and the environment ask for, in the current-operation marker too.')
ASSUMPTIONS = ['each call carries exactly one of the before and after bits (as the compiler emits)', 'names are readable up to their NUL or the length in the tag', 'clock values lie in 0..2^40 s', 'one thread', 'records still buffered when a run starts belong to a run that was not printed and are dropped']
TRUSTED = ['fprintf writes the record its format describes', 'strncpy followed by a terminator at n yields the first n characters of the source', 'ReportMemory prints the rest of a memory record (ps output)', 'gettimeofday returns microseconds below 10^6']
CAP, ES = 8192, 7
STR = z3.DeclareSort('STR')
A8 = z3.ArraySort(I, I)
PREFIX = z3.Function('PREFIX', A8, I, I, STR)
STRVAL = z3.Function('STRVAL', A8, I, STR)
STRNCPY = z3.Function('STRNCPY', A8, I, A8, I, I, A8)
CNT = z3.Function('CNT', AII, I, I)
GH = {'n': I, 'eop': z3.ArraySort(I, STR), 'enode': z3.ArraySort(I, STR), 'eph': z3.ArraySort(I, B), 'et': AII, 'ed': AII, 'starts': I,
      'm': I, 'mop': z3.ArraySort(I, STR), 'mnode': z3.ArraySort(I, STR), 'mph': z3.ArraySort(I, B), 'clock': I}
EVG = ('n', 'eop', 'enode', 'eph', 'et', 'ed', 'starts')


def setup(v):
    for g, s in GH.items():
        v.st.ghost[g] = z3.Const('ghost0_' + g, s)


def G(v, name):
    return Ptr(v.eng.m.gid[name], 0)


def g(v, name):
    return v.st.ghost[name]


def gset(eng, st, **kw):
    for k, x in kw.items():
        st.ghost[k] = x
        if eng.writes is not None:
            eng.writes.append(('ghost', k))


def bit(x, p):
    return (Z(x) / (1 << p)) % 2 == 1


def bi(x, p):
    return (Z(x) / (1 << p)) % 2


def fld(x, p, n):
    return (Z(x) / (1 << p)) % (1 << n)


def BUF(v):
    return v.inner('i64', G(v, 'timeRecordBuffer'))


def tag(v, k):
    return BUF(v)[ES * Z(k) + 2]


def cnt_def(A, k):
    k = Z(k)
    t = A[ES * k + 2]
    return [CNT(A, 0) == 0, z3.Implies(k >= 0, CNT(A, k + 1) == CNT(A, k) + bi(t, 0) + bi(t, 1))]


def us(A, w):
    return A[w] * 1000000 + A[w + 1]


# ---- models
def m_strncpy(eng, st, fr, i, a):
    d, s, n = a
    if not isint(n):
        n = eng.unsigned(st, n, 64)
    v = View(eng, st, None, {})
    eng.oblige(st, 'memory-safety', 'strncpy destination', v.valid(d, Z(n) + 1), i.get('line'))
    D, S = v.inner('i8', d), v.inner('i8', s)
    do, so = Z(d.off.expr()), Z(s.off.expr())
    X = STRNCPY(D, do, S, so, Z(n))
    eng.assume(st, STRVAL(z3.Store(X, do + Z(n), 0), do) == PREFIX(S, so, Z(n)))
    eng.record(st, d, 'i8')
    st.mem['i8'] = z3.Store(eng.memk(st, 'i8'), Z(d.obj), X)
    return d


def const_text(eng, p):
    try:
        t = cstring(eng, p)
    except Exception:
        t = None
    if t is None:
        raise Unsupported('output text is not a constant')
    return t if isinstance(t, str) else bytes(t).decode('latin1')


def sval(eng, st, p):
    return STRVAL(View(eng, st, None, {}).inner('i8', p), Z(p.off.expr()))


def m_fprintf(eng, st, fr, i, a):
    fmt = const_text(eng, a[1]).rstrip('\0').replace('%lld', '%ld').replace('%06lld', '%06ld')
    v = View(eng, st, None, {})
    eng.oblige(st, 'call-pre', 'fprintf to an open file', z3.Not(Z(v.isnull(a[0]))), i.get('line'))
    if fmt == '==PERF-REPORT==, %s, %s, %s, %ld.%06ld, %ld.%06ld\n':
        ph = const_text(eng, a[4]).rstrip('\0')
        if ph not in ('before', 'after'):
            raise Unsupported('phase text')
        n = g(v, 'n')
        s1, u1, s2, u2 = [Z(x) for x in a[5:9]]
        for w, u in (('delta', u1), ('total', u2)):
            eng.oblige(st, 'format', 'microseconds-below-a-second-' + w, And(u >= 0, u < 1000000), i.get('line'))
        gset(eng, st, eop=z3.Store(g(v, 'eop'), n, sval(eng, st, a[2])), enode=z3.Store(g(v, 'enode'), n, sval(eng, st, a[3])), eph=z3.Store(g(v, 'eph'), n, z3.BoolVal(ph == 'before')),
             ed=z3.Store(g(v, 'ed'), n, s1 * 1000000 + u1), et=z3.Store(g(v, 'et'), n, s2 * 1000000 + u2), n=n + 1)
    elif fmt == '==MEM-REPORT==, %s, %s, %s':
        ph = const_text(eng, a[4]).rstrip('\0')
        n = g(v, 'm')
        gset(eng, st, mop=z3.Store(g(v, 'mop'), n, sval(eng, st, a[2])), mnode=z3.Store(g(v, 'mnode'), n, sval(eng, st, a[3])), mph=z3.Store(g(v, 'mph'), n, z3.BoolVal(ph == 'before')), m=n + 1)
    elif fmt == '==START-REPORT==\n':
        gset(eng, st, starts=g(v, 'starts') + 1)
    elif fmt == '==COMPILE-INFO-REPORT==, %s\n':
        pass
    else:
        raise Unsupported('output format %r' % fmt)
    return None


def m_clock(eng, st, fr, i, a):
    s, u = fresh('sec'), fresh('usec')
    eng.assume(st, And(s >= 0, s <= 1 << 40, u >= 0, u < 1000000))
    eng.raw_store(st, a[0], 'i64', s)
    eng.raw_store(st, a[0].addoff(Lin(8)), 'i64', u)
    gset(eng, st, clock=s * 1000000 + u)
    return 0


def m_getenv(eng, st, fr, i, a):
    nm = const_text(eng, a[0]).rstrip('\0')
    o = z3.Int('env_' + nm)
    eng.assume(st, And(o >= 0, o < Z(st.next)))
    return Ptr(o, 0)


def m_fopen(eng, st, fr, i, a):
    p = eng.havoc_val(st, 'ptr', 'file')
    eng.assume(st, Z(p.obj) >= 0)
    return p


def env(v, nm):
    return z3.Int('env_ONNX_MLIR_' + nm) != 0


MODELS = {'strncpy': m_strncpy, 'fprintf': m_fprintf, 'gettimeofday': m_clock, 'getenv': m_getenv, 'fopen': m_fopen}


# ---- state predicates
def names_ok(v, p):
    """a name is a readable string outside the module's own variables"""
    return And(Z(p.obj) > 0, Z(p.obj) < Z(v.st.next))


def entry_ok(v, k):
    A = BUF(v)
    b = G(v, 'timeRecordBuffer')
    po = v.inner('po', b)
    w = ES * k
    t = A[w + 2]
    tok = lambda x: And(A[x] >= 0, A[x] <= 1 << 40, A[x + 1] >= 0, A[x + 1] < 1000000)
    return And(po[w] > 0, po[w + 1] > 0, po[w] < Z(v.st.next), po[w + 1] < Z(v.st.next), z3.Implies(bit(t, 0), tok(w + 3)), z3.Implies(bit(t, 1), tok(w + 5)), z3.Or(bit(t, 0), bit(t, 1)))


def binv(v):
    """the record buffer is well formed"""
    n = Z(v.fld(G(v, 'bufferIndex'), 0, 'i64'))
    A = BUF(v)
    return [And(n >= 0, n <= CAP), forall(k_, z3.Implies(And(k_ >= 0, k_ < n), entry_ok(v, k_)), CNT(A, k_))]


def times_ok(v):
    r = []
    for nm in ('globalTimeVal', 'initTimeVal'):
        A = v.inner('i64', G(v, nm))
        r += [A[0] >= 0, A[0] <= 1 << 40, A[1] >= 0, A[1] < 1000000]
    return And(*r)


def flag(v, nm):
    return Z(v.fld(G(v, nm), 0, 'i8')) != 0


def bools(v):
    """the flags are 0 or 1"""
    return And(*[z3.Or(Z(v.fld(G(v, n), 0, 'i8')) == 0, Z(v.fld(G(v, n), 0, 'i8')) == 1) for n in ('instrumentReportDisabled', 'instrumentReportTimeDisabled', 'instrumentReportMemoryDisabled', 'instrumentInitialized', 'startReportPrinted')])


def fout(v):
    return v.fld(G(v, 'instrumentFout'), 0, 'ptr')


def B_(v):
    return Z(v.fld(G(v, 'bufferIndex'), 0, 'i64'))


def ghosts_same(v, names):
    return And(*[g(v, n) == g(v.old, n) for n in names])


def cut(v, p, t, pos, n):
    return PREFIX(v.inner('i8', p), Z(p.off.expr()), fld(t, pos, n))


# ---- contracts
def c_name():
    def pre(v):
        return [names_ok(v, v.arg('opName')), names_ok(v, v.arg('nodeName'))]

    def post(v):
        o = v.old
        t = o.arg('tag')
        return [('operation-name-cut-to-its-length', sval(v.eng, v.st, G(v, 'instrumentReportOpName')) == cut(o, o.arg('opName'), t, 8, 6)),
                ('node-name-cut-to-its-length', sval(v.eng, v.st, G(v, 'instrumentReportNodeName')) == cut(o, o.arg('nodeName'), t, 24, 9))]
    return Contract('ProcessName', pre, post, mods=lambda v: [G(v, 'instrumentReportOpName'), G(v, 'instrumentReportNodeName')], frees=lambda v: [], setup=setup, opts={'interior': ('opName', 'nodeName')})


def events(v, o, upto, n0):
    """every entry below upto has its records at n0 + CNT(entry)"""
    A = BUF(o)
    b = G(o, 'timeRecordBuffer')
    po, px = o.inner('po', b), o.inner('px', b)
    M = o.eng.memk(o.st, 'i8')
    w = ES * k_
    t = A[w + 2]
    e = n0 + CNT(A, k_)
    it = o.inner('i64', G(o, 'initTimeVal'))
    opn, ndn = PREFIX(M[po[w]], px[w], fld(t, 8, 6)), PREFIX(M[po[w + 1]], px[w + 1], fld(t, 24, 9))

    def rec(e, before, at):
        return And(g(v, 'eop')[e] == opn, g(v, 'enode')[e] == ndn, g(v, 'eph')[e] == before, g(v, 'et')[e] == us(A, at) - us(it, 0))
    body = And(z3.Implies(bit(t, 0), rec(e, z3.BoolVal(True), w + 3)), z3.Implies(bit(t, 1), rec(e + bi(t, 0), z3.BoolVal(False), w + 5)))
    return forall(k_, z3.Implies(And(k_ >= 0, k_ < upto), body), CNT(A, k_))


def mono(A, upto):
    t = A[ES * k_ + 2]
    return forall(k_, z3.Implies(And(k_ >= 0, k_ < upto), And(CNT(A, k_) >= 0, CNT(A, k_) + bi(t, 0) + bi(t, 1) <= CNT(A, upto))), CNT(A, k_))


def since(v):
    return us(v.inner('i64', G(v, 'globalTimeVal')), 0) - us(v.inner('i64', G(v, 'initTimeVal')), 0)


def chain(v, o, n0, n1):
    """every record reports the time since the previous one"""
    return [('time-since-the-previous-record', And(
        z3.Implies(n1 > n0, And(g(v, 'ed')[n0] == g(v, 'et')[n0] - since(o), since(v) == g(v, 'et')[n1 - 1])),
        z3.Implies(n1 == n0, since(v) == since(o)),
        forall(k_, z3.Implies(And(k_ > n0, k_ < n1), g(v, 'ed')[k_] == g(v, 'et')[k_] - g(v, 'et')[k_ - 1]), g(v, 'ed')[k_])))]


def kept(v, o, n0):
    return forall(k_, z3.Implies(k_ < n0, And(*[g(v, x)[k_] == g(o, x)[k_] for x in ('eop', 'enode', 'eph', 'et', 'ed')])), g(v, 'et')[k_])


def flush_active(o):
    return And(z3.Not(flag(o, 'instrumentReportTimeDisabled')), B_(o) > 0)


def c_flush():
    def pre(v):
        return binv(v) + [times_ok(v), bools(v), z3.Implies(flush_active(v), z3.Not(Z(v.isnull(fout(v)))))]

    def post(v):
        o = v.old
        act = flush_active(o)
        n0, A = g(o, 'n'), BUF(o)
        return [('every-pending-record-once', imp(act, g(v, 'n') == n0 + CNT(A, B_(o)))), ('in-order-with-names-phase-and-time', imp(act, events(v, o, B_(o), n0))),
                ('earlier-output-kept', kept(v, o, n0)), ('buffer-emptied', imp(act, B_(v) == 0)), ('start-line-once', g(v, 'starts') == g(o, 'starts') + z3.If(And(act, z3.Not(flag(o, 'startReportPrinted'))), 1, 0)),
                ('start-line-marked', imp(act, flag(v, 'startReportPrinted'))), ('flags-stay-flags', bools(v)), ('times-stay-times', times_ok(v)),
                ('nothing-when-inactive', imp(z3.Not(act), And(g(v, 'n') == n0, B_(v) == B_(o)))),
                ('entries-kept', And(BUF(v) == A, v.inner('po', G(v, 'timeRecordBuffer')) == o.inner('po', G(o, 'timeRecordBuffer')), v.inner('px', G(v, 'timeRecordBuffer')) == o.inner('px', G(o, 'timeRecordBuffer'))))] + \
            [(nm, imp(act, x)) for nm, x in chain(v, o, n0, g(v, 'n'))]

    def inv(v):
        o, i = v.old, Z(v.var('i'))
        A, n0 = BUF(o), g(o, 'n')
        return [('range', And(i >= 0, i <= B_(o), B_(v) == B_(o))), ('emitted', g(v, 'n') == n0 + CNT(A, i)), ('positions', mono(A, i)), ('records', events(v, o, i, n0)), ('kept', kept(v, o, n0)),
                ('names-kept', g_names_kept(v, o)), ('times', times_ok(v)), ('entries', BUF(v) == A)] + chain(v, o, n0, g(v, 'n'))

    def lem(v):
        A, i = BUF(v.old), Z(v.var('i'))
        return cnt_def(A, i) + cnt_def(A, i - 1)
    return Contract('flushRecordBuffer', pre, post, mods=lambda v: [G(v, 'instrumentReportOpName'), G(v, 'instrumentReportNodeName'), G(v, 'globalTimeVal'), G(v, 'bufferIndex'), G(v, 'startReportPrinted')],
                    frees=lambda v: [], setup=setup, ghosts=EVG, opts={}, axioms=None,
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: B_(v.old) - Z(v.var('i')), lemmas=lem)})


def g_names_kept(v, o):
    """only the two name buffers and module flags change among byte memory"""
    M, N = v.eng.memk(v.st, 'i8'), o.eng.memk(o.st, 'i8')
    return forall(o_, z3.Implies(o_ > 0, M[o_] == N[o_]), M[o_])


def merge_case(o, op, nd, tg):
    n = B_(o)
    w = ES * (n - 1)
    b = G(o, 'timeRecordBuffer')
    po, px, A = o.inner('po', b), o.inner('px', b), BUF(o)
    t = A[w + 2]
    return And(n > 0, po[w] == Z(op.obj), px[w] == Z(op.off.expr()), po[w + 1] == Z(nd.obj), px[w + 1] == Z(nd.off.expr()), bit(t, 0), z3.Not(bit(t, 1)), z3.Not(bit(tg, 0)))


def one_phase(t):
    return bit(t, 0) != bit(t, 1)


def c_printtime():
    def tv(v):
        p = v.arg('newTimeValue')
        return v.rd('i64', p, 0), v.rd('i64', p, 1)

    def pre(v):
        p = v.arg('newTimeValue')
        a, b = tv(v)
        return [v.valid(p, 16), Z(p.off.expr()) % 8 == 0, Z(p.obj) != G(v, 'globalTimeVal').obj, a >= 0, a <= 1 << 40, b >= 0, b < 1000000, times_ok(v), z3.Not(Z(v.isnull(fout(v))))]

    def post(v):
        o = v.old
        a, b = tv(o)
        t = a * 1000000 + b
        it, gt = us(o.inner('i64', G(o, 'initTimeVal')), 0), us(o.inner('i64', G(o, 'globalTimeVal')), 0)
        n = g(o, 'n')
        A = v.inner('i64', G(v, 'globalTimeVal'))
        st = lambda nm, x: g(v, nm) == z3.Store(g(o, nm), n, x)
        return [('one-record', g(v, 'n') == n + 1), ('operation', st('eop', sval(o.eng, o.st, G(o, 'instrumentReportOpName')))), ('node', st('enode', sval(o.eng, o.st, G(o, 'instrumentReportNodeName')))),
                ('phase', st('eph', Z(o.arg('isBefore')) != 0)), ('since-the-start', st('et', t - it)), ('since-the-previous', st('ed', t - gt)), ('previous-time-updated', And(A[0] == a, A[1] == b))]
    return Contract('PrintTime', pre, post, mods=lambda v: [G(v, 'globalTimeVal')], frees=lambda v: [], setup=setup, ghosts=('n', 'eop', 'enode', 'eph', 'et', 'ed'), opts={'interior': ('newTimeValue',), 'aligned': {'newTimeValue': 8}})


def c_update():
    def pre(v):
        t = v.arg('tag')
        return [names_ok(v, v.arg('opName')), names_ok(v, v.arg('nodeName')), one_phase(t)] + binv(v) + [times_ok(v), bools(v), z3.Not(flag(v, 'instrumentReportTimeDisabled')), z3.Not(Z(v.isnull(fout(v))))] + lens_ok(v)

    def post(v):
        o = v.old
        op, nd, t = o.arg('opName'), o.arg('nodeName'), o.arg('tag')
        b = G(v, 'timeRecordBuffer')
        A, A0 = BUF(v), BUF(o)
        po, px, po0, px0 = v.inner('po', b), v.inner('px', b), o.inner('po', b), o.inner('px', b)
        n0, n = B_(o), B_(v)
        mg = merge_case(o, op, nd, t)
        full = And(z3.Not(mg), n0 >= CAP)
        w = ES * (n - 1)
        last = And(n >= 1, po[w] == Z(op.obj), px[w] == Z(op.off.expr()), po[w + 1] == Z(nd.obj), px[w + 1] == Z(nd.off.expr()), fld(A[w + 2], 8, 6) == fld(t, 8, 6), fld(A[w + 2], 24, 9) == fld(t, 24, 9))
        return [('the-call-is-the-last-record', And(last, z3.Implies(bit(t, 0), And(bit(A[w + 2], 0), z3.Not(bit(A[w + 2], 1)), us(A, w + 3) == g(v, 'clock'))), z3.Implies(bit(t, 1), And(bit(A[w + 2], 1), us(A, w + 5) == g(v, 'clock'))))),
                ('one-more-entry-unless-merged', n == z3.If(mg, n0, z3.If(full, z3.IntVal(1), n0 + 1))),
                ('a-merged-record-keeps-its-before-time', imp(mg, And(bit(A[w + 2], 0), A[w + 3] == A0[w + 3], A[w + 4] == A0[w + 4]))),
                ('a-new-entry-holds-only-this-call', imp(z3.Not(mg), bit(A[w + 2], 0) == bit(t, 0))),
                ('other-entries-kept', forall(k_, z3.Implies(And(k_ >= 0, k_ < ES * (n - 1)), And(A[k_] == A0[k_], po[k_] == po0[k_], px[k_] == px0[k_])), A[k_])),
                ('a-full-buffer-is-written-out', imp(full, And(g(v, 'n') == g(o, 'n') + CNT(A0, n0), events(v, o, n0, g(o, 'n'))))),
                ('otherwise-nothing-is-written', imp(z3.Not(full), ghosts_same(v, EVG))), ('earlier-output-kept', kept(v, o, g(o, 'n'))),
                ('buffer-well-formed', And(*binv(v))), ('lengths', And(*lens_ok(v, True))), ('flags', bools(v)), ('times', times_ok(v))]
    return Contract('updateRecordBuffer', pre, post, mods=lambda v: [G(v, 'instrumentReportOpName'), G(v, 'instrumentReportNodeName'), G(v, 'globalTimeVal'), G(v, 'bufferIndex'), G(v, 'startReportPrinted'),
                                                                          G(v, 'timeRecordBuffer')],
                    frees=lambda v: [], setup=setup, ghosts=EVG + ('clock',), opts={'interior': ('opName', 'nodeName'), 'orfields': [(0, 1), (1, 1), (8, 6), (24, 9)]})


def lens_ok(v, post=False):
    """equal names come with equal lengths (the last entry is the only one that can be merged)"""
    if post:
        return []
    n, t = B_(v), v.arg('tag')
    w = ES * (n - 1)
    op, nd = v.arg('opName'), v.arg('nodeName')
    b = G(v, 'timeRecordBuffer')
    po, px, A = v.inner('po', b), v.inner('px', b), BUF(v)
    same = And(n > 0, po[w] == Z(op.obj), px[w] == Z(op.off.expr()), po[w + 1] == Z(nd.obj), px[w + 1] == Z(nd.off.expr()))
    return [z3.Implies(same, And(fld(A[w + 2], 8, 6) == fld(t, 8, 6), fld(A[w + 2], 24, 9) == fld(t, 24, 9)))]


def c_start():
    def pre(v):
        return [m_stdout(v), bools(v), z3.Or(z3.Not(flag(v, 'instrumentInitialized')), flag(v, 'instrumentReportDisabled'), z3.Not(Z(v.isnull(fout(v)))))]

    def post(v):
        o = v.old
        first = z3.Not(flag(o, 'instrumentInitialized'))
        none = z3.Or(flag(o, 'instrumentReportDisabled'), And(first, env(v, 'NO_INSTRUMENT')))
        tm = z3.Or(flag(o, 'instrumentReportTimeDisabled'), And(first, z3.Or(env(v, 'NO_INSTRUMENT'), env(v, 'NO_INSTRUMENT_TIME'))))
        mm = z3.Or(flag(o, 'instrumentReportMemoryDisabled'), And(first, z3.Or(env(v, 'NO_INSTRUMENT'), env(v, 'NO_INSTRUMENT_MEMORY'))))
        a, b = v.inner('i64', G(v, 'globalTimeVal')), v.inner('i64', G(v, 'initTimeVal'))
        return [('all-reports-as-the-environment-asks', flag(v, 'instrumentReportDisabled') == none), ('time-reports-as-the-environment-asks', flag(v, 'instrumentReportTimeDisabled') == tm),
                ('memory-reports-as-the-environment-asks', flag(v, 'instrumentReportMemoryDisabled') == mm), ('buffer-empty', B_(v) == 0), ('start-line-due', z3.Not(flag(v, 'startReportPrinted'))),
                ('started', flag(v, 'instrumentInitialized')), ('file-open', imp(z3.Not(none), z3.Not(Z(v.isnull(fout(v)))))), ('file-untouched-when-disabled', imp(none, same_ptr(fout(v), fout(o)))),
                ('clock-read', imp(z3.Not(none), And(us(a, 0) == g(v, 'clock'), us(b, 0) == g(v, 'clock')))), ('flags', bools(v)), ('times', imp(z3.Not(none), times_ok(v))), ('nothing-written', ghosts_same(v, [x for x in GH if x != 'clock']))]
    M = ('instrumentReportDisabled', 'instrumentReportTimeDisabled', 'instrumentReportMemoryDisabled', 'instrumentInitialized', 'startReportPrinted')
    return Contract('startInstrumentation', pre, post, mods=lambda v: [G(v, n) for n in M] + [G(v, 'bufferIndex'), G(v, 'globalTimeVal'), G(v, 'initTimeVal'), G(v, 'instrumentFout')],
                    frees=lambda v: [], setup=setup, ghosts=('clock',))


def c_mem():
    return Contract('ReportMemory', lambda v: [z3.Not(Z(v.isnull(fout(v))))], lambda v: [], mods=lambda v: [G(v, 'psErrorCount'), G(v, 'mypid')], frees=lambda v: [], trusted=True)


def m_stdout(v):
    return z3.Not(Z(v.isnull(v.fld(G(v, 'stdout'), 0, 'ptr'))))


def c_point():
    def ready(v):
        """after a start: the file is open"""
        return z3.Or(flag(v, 'instrumentReportDisabled'), z3.Not(Z(v.isnull(fout(v)))))

    def pre(v):
        t = v.arg('iTag')
        return [names_ok(v, v.arg('opName')), names_ok(v, v.arg('nodeName')), one_phase(t), bools(v), m_stdout(v)] + binv(v) + [
            z3.Or(flag(v, 'instrumentReportDisabled'), times_ok(v)), z3.Or(z3.Not(Z(v.isnull(fout(v)))), flag(v, 'instrumentReportDisabled'), And(bit(t, 4), z3.Not(flag(v, 'instrumentInitialized')))),
            z3.Or(bit(t, 4), And(*[z3.Implies(z3.BoolVal(True), x) for x in lens_ok2(v)]))]

    def lens_ok2(v):
        n, t = B_(v), v.arg('iTag')
        w = ES * (n - 1)
        op, nd = v.arg('opName'), v.arg('nodeName')
        b = G(v, 'timeRecordBuffer')
        po, px, A = v.inner('po', b), v.inner('px', b), BUF(v)
        same = And(n > 0, po[w] == Z(op.obj), px[w] == Z(op.off.expr()), po[w + 1] == Z(nd.obj), px[w + 1] == Z(nd.off.expr()))
        return [z3.Implies(same, And(fld(A[w + 2], 8, 6) == fld(t, 8, 6), fld(A[w + 2], 24, 9) == fld(t, 24, 9)))]

    def post(v):
        o = v.old
        op, nd, t = o.arg('opName'), o.arg('nodeName'), o.arg('iTag')
        A = BUF(v)
        b = G(v, 'timeRecordBuffer')
        po, px = v.inner('po', b), v.inner('px', b)
        off = flag(o, 'instrumentReportDisabled')
        tm = And(z3.Not(off), z3.Not(flag(v, 'instrumentReportTimeDisabled')), bit(t, 2))
        mm = And(z3.Not(off), z3.Not(flag(v, 'instrumentReportMemoryDisabled')), bit(t, 3), Z(o.fld(G(o, 'psErrorCount'), 0, 'i32')) < 20)
        n = B_(v)
        w = ES * (n - 1)
        tt = A[w + 2]
        m = g(o, 'm')
        return [('current-operation-marker', And(same_ptr(v.fld(G(v, 'OMCurrentOpName'), 0, 'ptr'), op), same_ptr(v.fld(G(v, 'OMCurrentNodeName'), 0, 'ptr'), nd), Z(v.fld(G(v, 'OMCurrentTag'), 0, 'i64')) == Z(t))),
                ('a-requested-time-record-is-pending', imp(tm, And(n >= 1, po[w] == Z(op.obj), px[w] == Z(op.off.expr()), po[w + 1] == Z(nd.obj), px[w + 1] == Z(nd.off.expr()), z3.If(bit(t, 0), And(bit(tt, 0), z3.Not(bit(tt, 1)), us(A, w + 3) == g(v, 'clock')), And(bit(tt, 1), us(A, w + 5) == g(v, 'clock')))))),
                ('no-record-unless-requested', imp(z3.Not(tm), And(g(v, 'n') == g(o, 'n'), z3.Or(B_(v) == B_(o), And(B_(v) == 0, bit(t, 4)))))),
                ('a-requested-memory-record-is-written', imp(mm, And(g(v, 'm') == m + 1, g(v, 'mop')[m] == cut(o, op, t, 8, 6), g(v, 'mnode')[m] == cut(o, nd, t, 24, 9), g(v, 'mph')[m] == bit(t, 0)))),
                ('no-memory-record-unless-requested', imp(z3.Not(mm), g(v, 'm') == m)), ('nothing-when-disabled', imp(off, And(ghosts_same(v, [x for x in GH]), B_(v) == B_(o)))),
                ('buffer-well-formed', And(*binv(v))), ('flags', bools(v)), ('ready', ready(v))]
    M = ('instrumentReportDisabled', 'instrumentReportTimeDisabled', 'instrumentReportMemoryDisabled', 'instrumentInitialized', 'startReportPrinted', 'instrumentReportOpName', 'instrumentReportNodeName')
    return Contract('OMInstrumentPoint', pre, post, mods=lambda v: [G(v, n) for n in M] + [G(v, 'bufferIndex'), G(v, 'globalTimeVal'), G(v, 'initTimeVal'), G(v, 'instrumentFout'),
                    G(v, 'timeRecordBuffer'), G(v, 'OMCurrentOpName'), G(v, 'OMCurrentNodeName'), G(v, 'OMCurrentTag'), G(v, 'psErrorCount'), G(v, 'mypid')],
                    frees=lambda v: [], setup=setup, ghosts=tuple(GH), opts={'interior': ('opName', 'nodeName')})


def c_print():
    def pre(v):
        return binv(v) + [times_ok(v), bools(v), z3.Implies(flush_active(v), z3.Not(Z(v.isnull(fout(v)))))]

    def post(v):
        o = v.old
        act = flush_active(o)
        return [('every-pending-record-is-written', imp(act, And(g(v, 'n') == g(o, 'n') + CNT(BUF(o), B_(o)), events(v, o, B_(o), g(o, 'n'))))), ('earlier-output-kept', kept(v, o, g(o, 'n'))),
                ('state-as-at-program-start', And(B_(v) == 0, Z(v.isnull(fout(v))), *[z3.Not(flag(v, n)) for n in ('instrumentReportDisabled', 'instrumentReportTimeDisabled', 'instrumentReportMemoryDisabled', 'instrumentInitialized', 'startReportPrinted')])),
                ('no-pending-error-count', Z(v.fld(G(v, 'psErrorCount'), 0, 'i32')) == 0)]
    M = ('instrumentReportDisabled', 'instrumentReportTimeDisabled', 'instrumentReportMemoryDisabled', 'instrumentInitialized', 'startReportPrinted', 'instrumentReportOpName', 'instrumentReportNodeName')
    return Contract('omInstrumentPrint', pre, post, mods=lambda v: [G(v, n) for n in M] + [G(v, 'bufferIndex'), G(v, 'globalTimeVal'), G(v, 'instrumentFout'), G(v, 'instrumentCompilationInfo'),
                    G(v, 'psErrorCount'), G(v, 'instrumentCounter')], frees=lambda v: [], setup=setup, ghosts=EVG)


def groups(tier):
    return [Group('OMInstrument.c', [('src/Runtime/OMInstrument.c', ['.'])], [c_name(), c_printtime(), c_flush(), c_update(), c_start(), c_mem(), c_point(), c_print()], models=MODELS)]


def natives(tier):
    return [Native('instrument', ['native/instrument.c', 'src/Runtime/OMInstrument.c'], 'histories of at most 40 calls over 6 names (and some of 8000 to 20000 calls), both start protocols, every environment setting',
                   libs=['-Wl,--wrap=gettimeofday,--wrap=popen,--wrap=pclose'], quick=['n=400', 'big=6'], thorough=['n=6000', 'big=60'], deep=['n=3000', 'big=20'])]


def extra_obligations(tier, tmp, budget):
    """the tag macros, over all 64-bit tags"""
    from irvc import Contract
    E = z3.Extract
    t64 = lambda eng, st: ([z3.BitVec('t', 64)], z3.BitVec('t', 64))
    t2 = lambda eng, st: ([z3.BitVec('t', 64), z3.BitVec('n', 64)], (z3.BitVec('t', 64), z3.BitVec('n', 64)))
    BVC = irbv.BVC
    c = [BVC('vf_init', t64, lambda t, r, e, s: [('clears-every-field', r == 0)], label='INIT_INSTRUMENT')]
    acts = [('before', 0, 'BEFORE_OP'), ('after', 1, 'AFTER_OP'), ('time', 2, 'REPORT_TIME'), ('mem', 3, 'REPORT_MEMORY'), ('init', 4, 'INIT')]
    for f, b, nm in acts:
        c.append(BVC('vf_set_' + f, t64, lambda t, r, e, s, b=b: [('sets-its-bit', E(b, b, r) == 1), ('keeps-every-other-bit', (r | (1 << b)) == (t | (1 << b)))], label='SET_INSTRUMENT_' + nm))
        c.append(BVC('vf_is_' + f, t64, lambda t, r, e, s, b=b: [('reads-its-bit', (r != 0) == (E(b, b, t) == 1))], label='IS_INSTRUMENT_' + nm))
        if b < 2:
            c.append(BVC('vf_clear_' + f, t64, lambda t, r, e, s, b=b: [('clears-its-bit', E(b, b, r) == 0), ('keeps-every-other-bit', (r | (1 << b)) == (t | (1 << b)))], label='CLEAR_INSTRUMENT_' + nm))
    for f, lo, n, nm in (('op', 8, 6, 'OP_NAME_LEN'), ('node', 24, 9, 'NODE_NAME_LEN')):
        m = ((1 << n) - 1) << lo
        c.append(BVC('vf_set_' + f, t2, lambda x, r, e, s, lo=lo, n=n, m=m: [('stores-the-length', z3.Implies(z3.And(z3.ULT(x[1], 1 << n), (x[0] & m) == 0), E(lo + n - 1, lo, r) == E(n - 1, 0, x[1]))), ('keeps-every-other-bit', (r | m) == (x[0] | m))], label='SET_INSTRUMENT_' + nm))
        c.append(BVC('vf_get_' + f, t64, lambda t, r, e, s, lo=lo, n=n: [('reads-the-length', r == z3.ZeroExt(64 - n, E(lo + n - 1, lo, t)))], label='GET_INSTRUMENT_' + nm))
    return irbv.verify([('tag macros', [('/verif/native/tags_inst.c', ['vf_'])], [], c)], budget, 60)
