import z3
import irvc, irbv
from irvc import *
from omt import *
from suite import Group, Native
PROP = 'C12'
EXPLAIN = ('rand()/srand() are modelled by a ghost seed and a ghost draw counter: every generator must seed from its seed argument, write output[i] as a fixed function of its own draws i (2i and 2i+1 for the normal ones), '
           'stay inside the requested range (uniform; monotone IEEE rounding lemmas decided in the SMT floating point theory), take log only of positive and sqrt only of non-negative values (normal), and write nothing else.')
ASSUMPTIONS = ['the seed converts to an unsigned int', 'low <= high and high-low are finite', 'the range holds up to the rounding of low + (high - low)', 'cos, sqrt and log are deterministic functions; log x <= 0 for 0 < x <= 1']
TRUSTED = ['rand() depends only on the last srand() seed and the number of calls since, and lies in 0..RAND_MAX', 'IEEE rounding to nearest is monotone and keeps representable values (used for double)']
RMAX = 2147483647
DRAW = z3.Function('DRAW', I, I, I)
F = {'f32': F32, 'f64': F64}
COS, SQRT, LOG = [z3.Function(n, F64, F64) for n in ('COS', 'SQRT', 'LOG')]


def op(n, a, b):
    return irvc.fop(n, a, b, 'uf')


def c64(x):
    return z3.FPVal(x, F64)


def c32(x):
    return z3.FPVal(x, F32)


def unit_facts(d):
    """rounding facts about a draw (each decided as a lemma in the floating point theory)"""
    d = Z(d)
    r = []
    for s, c in ((F32, c32), (F64, c64)):
        q = op('div', irvc.i2f(s)(d), c(2147483648.0))
        r += [z3.fpLEQ(c(0.0), q), z3.fpLEQ(q, c(1.0))]
        if s == F64:
            q = op('div', op('add', irvc.i2f(s)(d), c(1.0)), c(2147483648.0))
            r += [z3.fpLT(c(0.0), q), z3.fpLEQ(q, c(1.0))]
    return r


def m_rand(eng, st, fr, i, a):
    d = DRAW(Z(st.ghost['seed']), Z(st.ghost['draws']))
    eng.assume(st, And(d >= 0, d <= RMAX))
    for f in unit_facts(d):
        eng.assume(st, f)
    st.ghost['draws'] = Z(st.ghost['draws']) + 1
    if eng.writes is not None:
        eng.writes.append(('ghost', 'draws'))
    return d


def m_srand(eng, st, fr, i, a):
    st.ghost['seed'] = Z(a[0])
    st.ghost['draws'] = z3.IntVal(0)
    if eng.writes is not None:
        eng.writes.append(('ghost', 'draws'))
        eng.writes.append(('ghost', 'seed'))
    return None


def m_log(eng, st, fr, i, a):
    x = a[0]
    eng.oblige(st, 'domain', 'log-of-a-positive-number', z3.fpLT(c64(0.0), x), i.get('line'))
    r = LOG(x)
    eng.assume(st, z3.Implies(z3.And(z3.fpLT(c64(0.0), x), z3.fpLEQ(x, c64(1.0))), z3.fpLEQ(r, c64(0.0))))
    m = op('mul', c64(-2.0), r)
    eng.assume(st, z3.Implies(z3.fpLEQ(r, c64(0.0)), z3.fpLEQ(c64(0.0), m)))
    return r


def m_sqrt(eng, st, fr, i, a):
    eng.oblige(st, 'domain', 'sqrt-of-a-non-negative-number', z3.fpLEQ(c64(0.0), a[0]), i.get('line'))
    return SQRT(a[0])


MODELS = {'rand': m_rand, 'srand': m_srand, 'log': m_log, 'sqrt': m_sqrt, 'cos': lambda e, st, fr, i, a: COS(a[0])}


def ghosts(v):
    v.st.ghost['seed'] = z3.Int('seed0')
    v.st.ghost['draws'] = z3.Int('draws0')


def seed_of(x):
    return signed32(irvc.f2u(x.sort())(x))


def signed32(u):
    return z3.If(u >= 1 << 31, u - (1 << 32), u)


def usample(k, seed, low, high, s):
    c = c32 if s == F32 else c64
    r = op('div', irvc.i2f(s)(DRAW(seed, k)), c(2147483648.0))
    return op('add', low, op('mul', r, op('sub', high, low)))


def range_facts(s, low, high, seed, k):
    """monotone rounding, instantiated for the draw k"""
    c = c32 if s == F32 else c64
    d = op('sub', high, low)
    r = op('div', irvc.i2f(s)(DRAW(seed, k)), c(2147483648.0))
    x = op('mul', r, d)
    dr = DRAW(seed, k)
    return [z3.And(dr >= 0, dr <= RMAX)] + unit_facts(dr) + [
        z3.Implies(z3.fpLEQ(low, high), z3.fpLEQ(c(0.0), d)),
        z3.Implies(z3.And(z3.fpLEQ(c(0.0), r), z3.fpLEQ(r, c(1.0)), z3.fpLEQ(c(0.0), d), finite(d)), z3.And(z3.fpLEQ(c(0.0), x), z3.fpLEQ(x, d))),
        z3.Implies(z3.And(z3.fpLEQ(c(0.0), x), z3.fpLEQ(x, d), finite(low), finite(d)), z3.And(z3.fpLEQ(low, op('add', low, x)), z3.fpLEQ(op('add', low, x), op('add', low, d))))]


def finite(x):
    return z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)))


def nsample(k, seed, mean, scale, s):
    def u(j):
        return op('div', op('add', irvc.i2f(F64)(DRAW(seed, j)), c64(1.0)), c64(2147483648.0))
    n = op('mul', COS(op('mul', c64(6.28318), u(2 * k + 1))), SQRT(op('mul', c64(-2.0), LOG(u(2 * k)))))
    if s == F64:
        return op('add', op('mul', n, scale), mean)
    w = lambda x: z3.fpFPToFP(z3.RNE(), x, F64)
    return z3.fpFPToFP(z3.RNE(), op('add', op('mul', n, w(scale)), w(mean)), F32)


def comm(s):
    x, y = z3.Const('cx', s), z3.Const('cy', s)
    return [z3.ForAll([x, y], op(n, x, y) == op(n, y, x), patterns=[op(n, x, y)]) for n in ('add', 'mul')]


def uniform(fn, kind):
    s, es = F[kind], {'f32': 4, 'f64': 8}[kind]
    c = c32 if kind == 'f32' else c64

    def data(v):
        return v.fld(v.arg('output_tensor'), AG, 'ptr')

    def num(v):
        t = v.arg('output_tensor')
        return NUM(v.inner('i64', v.fld(t, SH, 'ptr')), Z(v.fld(t, RK, 'i64')))

    def pre(v):
        t, d = v.arg('output_tensor'), data(v)
        lo, hi = v.arg('low'), v.arg('high')
        return [wf(v, t), And(num(v) >= 0, num(v) <= 1 << 40), v.valid(d, es * num(v)), Z(d.obj) != Z(t.obj), Z(d.off.expr()) == 0,
                Z(d.obj) != Z(v.fld(t, SH, 'ptr').obj), Z(d.obj) != Z(v.fld(t, ST, 'ptr').obj), z3.fpLEQ(lo, hi), finite(op('sub', hi, lo)), finite(lo), finite(hi)]

    def vals(v, n):
        o = v.old
        A = v.inner(kind, data(o))
        sd = seed_of(o.arg('seed'))
        return forall(k_, z3.Implies(And(k_ >= 0, k_ < n), A[k_] == usample(k_, sd, o.arg('low'), o.arg('high'), s)), A[k_])

    def rng(v, n):
        o = v.old
        A = v.inner(kind, data(o))
        lo, hi = o.arg('low'), o.arg('high')
        return forall(k_, z3.Implies(And(k_ >= 0, k_ < n), And(z3.fpLEQ(lo, A[k_]), z3.fpLEQ(A[k_], op('add', lo, op('sub', hi, lo))))), A[k_])

    def keep(v):
        o = v.old
        A, B_ = v.inner(kind, data(o)), o.inner(kind, data(o))
        return forall(k_, z3.Implies(z3.Or(k_ < 0, k_ >= num(o)), A[k_] == B_[k_]), A[k_])

    def post(v):
        o = v.old
        return [('every-element-from-its-own-draw', vals(v, num(o))), ('inside-the-range', rng(v, num(o))), ('writes-only-the-elements', keep(v)),
                ('returns-the-tensor', same_ptr(v.ret, o.arg('output_tensor')))]

    def inv(v):
        o, i = v.old, Z(v.var('i'))
        return [('range', And(i >= 0, i <= num(o))), ('one-draw-each', Z(v.st.ghost['draws']) == i), ('seeded', Z(v.st.ghost['seed']) == seed_of(o.arg('seed'))),
                ('values', vals(v, i)), ('inside', rng(v, i)), ('rest', keep(v))]

    def lem(v):
        o, i = v.old, Z(v.var('i'))
        sd = seed_of(o.arg('seed'))
        return range_facts(s, o.arg('low'), o.arg('high'), sd, i) + range_facts(s, o.arg('low'), o.arg('high'), sd, i - 1) + comm(s)
    return Contract(fn, pre, post, mods=lambda v: [(data(v), (kind,))], frees=lambda v: [], setup=ghosts,
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: num(v.old) - Z(v.var('i')), lemmas=lem)}, opts={'overflow': 'assume'})


def normal(fn, kind):
    s, es = F[kind], {'f32': 4, 'f64': 8}[kind]

    def pre(v):
        n, d = Z(v.arg('size')), v.arg('result')
        return [And(n >= 0, n <= 1 << 40), v.valid(d, es * n)]

    def vals(v, n):
        o = v.old
        A = v.inner(kind, o.arg('result'))
        sd = seed_of(o.arg('seed'))
        return forall(k_, z3.Implies(And(k_ >= 0, k_ < n), A[k_] == nsample(k_, sd, o.arg('mean'), o.arg('scale'), s)), A[k_])

    def keep(v):
        o = v.old
        A, B_ = v.inner(kind, o.arg('result')), o.inner(kind, o.arg('result'))
        return forall(k_, z3.Implies(z3.Or(k_ < 0, k_ >= Z(o.arg('size'))), A[k_] == B_[k_]), A[k_])

    def inv(v):
        o, i = v.old, Z(v.var('index'))
        return [('range', And(i >= 0, i <= Z(o.arg('size')))), ('two-draws-each', Z(v.st.ghost['draws']) == 2 * i), ('seeded', Z(v.st.ghost['seed']) == seed_of(o.arg('seed'))),
                ('values', vals(v, i)), ('rest', keep(v))]
    return Contract(fn, pre, lambda v: [('every-element-from-its-own-draws', vals(v, Z(v.old.arg('size')))), ('writes-only-the-elements', keep(v))],
                    mods=lambda v: [(v.arg('result'), (kind,))], frees=lambda v: [], setup=ghosts,
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.old.arg('size')) - Z(v.var('index')), lemmas=lambda v: comm(F64))})


# contracts of the tensor getters used here (proved under C01)
def g_data():
    return Contract('omTensorGetDataPtr', lambda v: [wf(v, v.arg('tensor'))], lambda v: [('value', same_ptr(v.ret, v.old.fld(v.old.arg('tensor'), AG, 'ptr')))], mods=lambda v: [], frees=lambda v: [], trusted=True,
                    args=['tensor'], ret=lambda eng, st, amap: View(eng, st, None, amap).fld(amap['tensor'], AG, 'ptr'))


def g_num():
    return Contract('omTensorGetNumElems', lambda v: [wf(v, v.arg('tensor'))], lambda v: [('value', Z(v.ret) == NUM(v.old.inner('i64', v.old.fld(v.old.arg('tensor'), SH, 'ptr')), Z(v.old.fld(v.old.arg('tensor'), RK, 'i64'))))],
                    mods=lambda v: [], frees=lambda v: [], trusted=True, args=['tensor'])


def g_type():
    return Contract('omTensorGetDataType', lambda v: [wf(v, v.arg('tensor'))], lambda v: [('value', Z(v.ret) == Z(v.old.fld(v.old.arg('tensor'), DT, 'i32')))], mods=lambda v: [], frees=lambda v: [], trusted=True, args=['tensor'])


def m_num(eng, st, fr, i, a):
    v = View(eng, st, None, {})
    eng.oblige(st, 'call-pre', 'omTensorGetNumElems', wf(v, a[0]), i.get('line'))
    return NUM(v.inner('i64', v.fld(a[0], SH, 'ptr')), Z(v.fld(a[0], RK, 'i64')))


def m_data(eng, st, fr, i, a):
    v = View(eng, st, None, {})
    eng.oblige(st, 'call-pre', 'omTensorGetDataPtr', wf(v, a[0]), i.get('line'))
    return v.fld(a[0], AG, 'ptr')


def m_type(eng, st, fr, i, a):
    v = View(eng, st, None, {})
    return v.fld(a[0], DT, 'i32')


TM = {'omTensorGetDataPtr': m_data, 'omTensorGetNumElems': m_num, 'omTensorGetDataType': m_type}


def dispatch():
    """run_uniform_random: the kind written follows the element type (bodies inlined)"""
    a, b = uniform('run_uniform_random_f32', 'f32'), uniform('run_uniform_random_f64', 'f64')
    W = lambda x: z3.fpFPToFP(z3.RNE(), x, F64)

    def num(v):
        t = v.arg('output_tensor')
        return NUM(v.inner('i64', v.fld(t, SH, 'ptr')), Z(v.fld(t, RK, 'i64')))

    def pre(v):
        t = v.arg('output_tensor')
        d = v.fld(t, AG, 'ptr')
        lo, hi = v.arg('low'), v.arg('high')
        return [wf(v, t), And(num(v) >= 0, num(v) <= 1 << 40), v.valid(d, z3.If(Z(v.fld(t, DT, 'i32')) == 1, 4, 8) * num(v)), Z(d.obj) != Z(t.obj), Z(d.off.expr()) == 0,
                Z(d.obj) != Z(v.fld(t, SH, 'ptr').obj), Z(d.obj) != Z(v.fld(t, ST, 'ptr').obj), z3.fpLEQ(lo, hi), finite(op('sub', hi, lo)), finite(lo), finite(hi),
                finite(op('sub', W(hi), W(lo)))]

    def post(v):
        o = v.old
        t = o.arg('output_tensor')
        dt = Z(o.fld(t, DT, 'i32'))
        d = o.fld(t, AG, 'ptr')
        A32, A64 = v.inner('f32', d), v.inner('f64', d)
        lo, hi, sd = o.arg('low'), o.arg('high'), o.arg('seed')
        rg = And(k_ >= 0, k_ < num(o))
        return [('float-elements', imp(dt == 1, forall(k_, z3.Implies(rg, A32[k_] == usample(k_, seed_of(sd), lo, hi, F32)), A32[k_]))),
                ('double-elements', imp(dt == 11, forall(k_, z3.Implies(rg, A64[k_] == usample(k_, seed_of(W(sd)), W(lo), W(hi), F64)), A64[k_]))),
                ('other-types-refused', imp(And(dt != 1, dt != 11), v.isnull(v.ret))), ('returns-the-tensor', imp(z3.Or(dt == 1, dt == 11), same_ptr(v.ret, t)))]
    return Contract('run_uniform_random', pre, post, mods=lambda v: [(v.fld(v.arg('output_tensor'), AG, 'ptr'), ('f32', 'f64'))], frees=lambda v: [], setup=ghosts, opts={'overflow': 'assume'})


def groups(tier):
    return [Group('OMRandomUniform.c', [('src/Runtime/OMRandomUniform.c', ['.'])], [uniform('run_uniform_random_f32', 'f32'), uniform('run_uniform_random_f64', 'f64'), dispatch()], models=dict(MODELS, **TM)),
            Group('OMRandomNormal.c', [('src/Runtime/OMRandomNormal.c', ['.'])], [normal('get_random_normal_value_f64', 'f64'), normal('get_random_normal_value_f32', 'f32')], models=MODELS)]


def extra_obligations(tier, tmp, budget):
    """the rounding facts used above, decided over IEEE arithmetic"""
    rm = z3.RNE()
    ob = []

    def lem(nm, hyps, goal):
        s = z3.Solver()
        s.add(*hyps)
        s.add(z3.Not(goal))
        ob.append(('lemma:' + nm, s.to_smt2(), 120))
    d = z3.BitVec('d', 32)
    for s, nm in ((F32, 'float'), (F64, 'double')):
        c = lambda x: z3.FPVal(x, s)
        x = z3.fpSignedToFP(rm, d, s)
        q = z3.fpDiv(rm, x, c(2147483648.0))
        lem('draw-over-2^31-is-in-0..1-' + nm, [d >= 0], z3.And(z3.fpLEQ(c(0.0), q), z3.fpLEQ(q, c(1.0))))
        if s == F64:
            q = z3.fpDiv(rm, z3.fpAdd(rm, x, c(1.0)), c(2147483648.0))
            lem('draw-plus-1-over-2^31-is-positive-and-at-most-1', [d >= 0], z3.And(z3.fpLT(c(0.0), q), z3.fpLEQ(q, c(1.0))))
            y = z3.Const('y', s)
            lem('minus-2-times-non-positive', [z3.fpLEQ(y, c(0.0))], z3.fpLEQ(c(0.0), z3.fpMul(rm, c(-2.0), y)))
        lo, hi, r, w = [z3.Const(n, s) for n in ('lo', 'hi', 'r', 'w')]
        lem('difference-of-ordered-is-non-negative-' + nm, [z3.fpLEQ(lo, hi), finite(z3.fpSub(rm, hi, lo))], z3.fpLEQ(c(0.0), z3.fpSub(rm, hi, lo)))
        p = z3.fpMul(rm, r, w)
        if s == F32:
            lem('scaling-down-stays-below-' + nm, [z3.fpLEQ(c(0.0), r), z3.fpLEQ(r, c(1.0)), z3.fpLEQ(c(0.0), w), finite(w)], z3.And(z3.fpLEQ(c(0.0), p), z3.fpLEQ(p, w)))
    # over the reals, from monotone rounding that keeps representable values
    rnd = z3.Function('rnd', z3.RealSort(), z3.RealSort())
    x, y, lo, r, w = z3.Reals('x y lo r w')
    mono = [z3.ForAll([x, y], z3.Implies(x <= y, rnd(x) <= rnd(y)), patterns=[z3.MultiPattern(rnd(x), rnd(y))]), rnd(0) == 0, rnd(lo) == lo, rnd(w) == w]
    lem('scaling-down-stays-below', mono + [0 <= r, r <= 1, 0 <= w], z3.And(0 <= rnd(r * w), rnd(r * w) <= w))
    lem('adding-a-smaller-part', mono + [0 <= r, r <= w], z3.And(lo <= rnd(lo + r), rnd(lo + r) <= rnd(lo + w)))
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(irbv.decide, ob, chunksize=1)
    return [{'group': 'lemmas', 'fn': 'rounding facts', 'obls': res}]


def natives(tier):
    return [Native('random', ['native/random.c', 'src/Runtime/OMRandomUniform.c', 'src/Runtime/OMRandomNormal.c', 'src/Runtime/OMTensor.c', 'src/Runtime/OnnxDataType.c', 'src/Support/SmallFPConversion.c'],
                   'tensors of rank at most 4 and at most 13^4 elements, with the draws 0 and RAND_MAX made frequent', libs=['-lm', '-Wl,--wrap=rand', '-Wl,--wrap=srand'],
                   quick=['n=3000'], thorough=['n=200000'], deep=['n=20000'])]
