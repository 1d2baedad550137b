import os
import z3
import irvc
from irvc import *
from omt import *
from c18 import ghost, iter_
from suite import Group, Native
PROP = 'C16'
SRC = 'src/Runtime/OMTensorListHelper.cpp'
SRC2 = 'src/Runtime/OMTensorHelper.cpp'
RT = 'src/Runtime/'
VL = 'St6vectorIlSaIlEE'
VEC = 'RK' + VL
FLAGS = ['-fexceptions', '-frtti']
EXPLAIN = ('Proved for every list of parsed entries and options: the list function asks for each input once, with the type and dimensions of its entry, bounds taken per input, else per type, else built in, in order, or the leading ones asked for, only when every dimension is known; '
           'a list is made of all inputs and otherwise every input already made is destroyed and the array freed. For each of the 11 arithmetic element types: the fill gives every element a value between the bounds converted to the type, and the tensor has the type, rank and shape asked for and owns data of that size; '
           'the leading ones of an arbitrary row are as many as asked (random counts within the row), the rest is zero; float16 inputs are conversions of numbers between the bounds; a failure leaves no block behind. The parsers of the options, the generated strings and the whole path through the real library are compared with a '
           'reference by a monitor over random signatures and options (bounded).')
ASSUMPTIONS = ['the number of elements and of bytes of an input fit 56 bits', 'bounds are values of the element type (what the conversion of others gives is not specified); bounds as real numbers, without rounding to float',
               'std::generate stores a value returned by the (verified) lambda in every cell of its range; a uniform distribution returns a value between its ends', 'parseInputSpecs, parseValueInfo and parseBoundOverrides return what the options say (monitored)']
TRUSTED = ['std::vector accessors, std::min, std::fill, std::generate, std::random_device, the generator and its distributions as modelled in contracts/c16.py', 'omTensorCreateWithOwnership (contract proved in C01), omTensorListCreate, omTensorDestroy, om_f32_to_f16 (proved in C10)']
# element types: letter of the C++ type, element kind in memory, size, signed, number in OM_DATA_TYPE, distribution letter, its kind
T = {'bool': ('b', 'i8', 1, 'bool', 9), 'int8': ('a', 'i8', 1, True, 3), 'uint8': ('h', 'i8', 1, False, 2), 'int16': ('s', 'i16', 2, True, 5), 'uint16': ('t', 'i16', 2, False, 4), 'int32': ('i', 'i32', 4, True, 6), 'uint32': ('j', 'i32', 4, False, 12),
     'int64': ('l', 'i64', 8, True, 7), 'uint64': ('m', 'i64', 8, False, 13), 'float': ('f', 'f32', 4, 'fp', 1), 'double': ('d', 'f64', 8, 'fp', 11)}
FS = {'f32': F32, 'f64': F64}


# ---- std::vector<int64_t>
def vdat(v, p):
    return v.fld(p, 0, 'ptr')


def vlen(v, p):
    return Z(v.fld(p, 8, 'i64'))


def vok(v, p):
    d, n = vdat(v, p), vlen(v, p)
    return And(v.valid(p, 24), n >= 0, n <= MAXN, Z(d.off.expr()) == 0, Z(d.obj) > 0, v.valid(d, 8 * n), Z(d.obj) != Z(p.obj), v.alive(d), Z(p.off.expr()) == 0)


def vw(eng, st):
    return View(eng, st, None, {})


def dims(v, p):
    return v.inner('i64', vdat(v, p))


def vec_at(eng, st, fr, i, a):
    v = vw(eng, st)
    d, n, k = vdat(v, a[0]), vlen(v, a[0]), Z(a[1])
    eng.oblige(st, 'call-pre', 'vector.index-in-range', And(k >= 0, k < n), i.get('line'))
    return Ptr(d.obj, Lin.of(a[1], 8))


def vec_back(eng, st, fr, i, a):
    v = vw(eng, st)
    n = vlen(v, a[0])
    eng.oblige(st, 'call-pre', 'vector.back.not-empty', n > 0, i.get('line'))
    return Ptr(vdat(v, a[0]).obj, Lin.of(n - 1, 8))


def vec_begin(eng, st, fr, i, a):
    return Ptr(vdat(vw(eng, st), a[0]).obj, 0)


def vec_end(eng, st, fr, i, a):
    v = vw(eng, st)
    return Ptr(vdat(v, a[0]).obj, Lin.of(vlen(v, a[0]), 8))


VECM = {'_ZNK%s4sizeEv' % VL: lambda e, st, fr, i, a: vlen(vw(e, st), a[0]), '_ZNK%s5emptyEv' % VL: lambda e, st, fr, i, a: vlen(vw(e, st), a[0]) == 0, '_ZNK%sixEm' % VL: vec_at, '_ZNK%s4backEv' % VL: vec_back,
        '_ZNK%s4dataEv' % VL: vec_begin, '_ZNK%s5beginEv' % VL: vec_begin, '_ZNK%s3endEv' % VL: vec_end}


Q, C = z3.Int('some_row'), z3.Int('some_column')


# ---- std::min, std::fill, random numbers
CT = {'f32': 'float', 'f64': 'double'}


def temp(eng, st, ty, v):
    o = -1000000 - next(eng.stackid)
    st.size = z3.Store(st.size, Z(o), Z(8))
    st.alive = z3.Store(st.alive, Z(o), True)
    st.priv[o] = {}
    p = Ptr(o, 0)
    eng.raw_store(st, p, ty, v)
    return p


def m_min(eng, st, fr, i, a):
    x, y = [Z(eng.raw_load(st, p, 'i64')) for p in a]
    return temp(eng, st, 'i64', z3.If(y < x, y, x))


def region(eng, st, i, what, p, q, esz):
    """the elements from p up to q lie in one block"""
    n = z3.simplify(Z(q.off.expr()) - Z(p.off.expr()))
    eng.oblige(st, 'call-pre', what + '.range-in-one-block', And(Z(p.obj) == Z(q.obj), n >= 0, z3.Or(n == 0, And(z3.Select(st.alive, Z(p.obj)), Z(p.off.expr()) >= 0, Z(q.off.expr()) <= z3.Select(st.size, Z(p.obj))))), i.get('line'))


def idx(eng, st, p, esz):
    d = p.off.div(esz)
    if d is None:
        d = eng.div_off(st, p, esz)
    return Z(d)


def set_cells(eng, st, p, q, kind, esz, what):
    """cells p..q-1 get what(j, old); the rest stay"""
    eng.expose(st, p.obj)
    lo, hi = idx(eng, st, p, esz), idx(eng, st, q, esz)
    eng.record(st, p, kind)
    M = eng.memk(st, kind)
    old = z3.Select(M, Z(p.obj))
    new = fresh('cells', old.sort())
    st.mem[kind] = z3.Store(M, Z(p.obj), new)
    j = z3.Int('j!c')
    eng.assume(st, z3.ForAll([j], z3.If(And(j >= lo, j < hi), what(new[j]), new[j] == old[j]), patterns=[new[j]]))


def m_fill(kind, esz):
    def f(eng, st, fr, i, a):
        region(eng, st, i, 'fill', a[0], a[1], esz)
        x = eng.raw_load(st, a[2], CT.get(kind, kind))
        x = Z(x)
        if x.sort() == B:
            x = z3.If(x, 1, 0)
        set_cells(eng, st, a[0], a[1], kind, esz, lambda c: c == x)
        if 'ones' in st.ghost:
            v = eng.old
            D, n = dims(v, v.arg('shape')), vlen(v, v.arg('shape'))
            lo, hi = idx(eng, st, a[0], esz), idx(eng, st, a[1], esz)
            ghost(eng, st, 'ones', z3.If(lo == Q * D[n - 1], hi - lo, st.ghost['ones']))
    return f


def U(x, w):
    x = Z(x)
    return z3.If(x < 0, x + (1 << w), x)


def b2i(x):
    x = Z(x)
    return z3.If(x, z3.IntVal(1), z3.IntVal(0)) if x.sort() == B else x


def leq(x, y, kind, signed):
    if signed == 'fp':
        return x <= y if Z(x).sort() == irvc.REAL else z3.fpLEQ(x, y)
    x, y = b2i(x), b2i(y)
    w = KSZ[kind] * 8
    return Z(x) <= Z(y) if signed is True else U(x, w) <= U(y, w)


DIST = {'i': ('i32', True), 'j': ('i32', False), 'l': ('i64', True), 'm': ('i64', False), 'f': ('f32', 'fp'), 'd': ('f64', 'fp')}


def dist_of(letter):
    kind, signed = DIST[letter]
    esz = KSZ[kind]
    ct = CT.get(kind, kind)

    def ctor(eng, st, fr, i, a):
        eng.oblige(st, 'call-pre', 'distribution.bounds-in-order', leq(a[1], a[2], kind, signed), i.get('line'))
        eng.raw_store(st, a[0], ct, a[1])
        eng.raw_store(st, a[0].addoff(Lin(esz)), ct, a[2])

    def draw(eng, st, fr, i, a):
        eng.oblige(st, 'call-pre', 'distribution.place', Z(a[0].off.expr()) == 0, i.get('line'))
        a = [Ptr(a[0].obj, 0)]
        lo, hi = eng.raw_load(st, a[0], ct), eng.raw_load(st, a[0].addoff(Lin(esz)), ct)
        x = eng.havoc_val(st, ct, 'draw')
        eng.assume(st, And(leq(lo, x, kind, signed), leq(x, hi, kind, signed)))
        return x
    return {'_ZNSt%s%sEC2E%s' % ('24uniform_int_distributionI' if signed != 'fp' else '25uniform_real_distributionI', letter, letter * 2): ctor, '_ZNSt%s%sEclI*' % ('24uniform_int_distributionI' if signed != 'fp' else '25uniform_real_distributionI', letter): draw}


def nop(eng, st, fr, i, a):
    return None


def anyint(eng, st, fr, i, a):
    return eng.havoc_val(st, i['ty'], 'seed')


RAND = {'_ZSt3minIlERKT_S2_S2_': m_min, '_ZNSt13random_deviceC2Ev': nop, '_ZNSt13random_deviceD2Ev': nop, '_ZNSt13random_deviceclEv': anyint, '_ZNSt23mersenne_twister_engineI*': nop}
for _l in DIST:
    RAND.update(dist_of(_l))
for _n, (_l, _k, _s, _g, _t) in T.items():
    RAND['_ZSt4fillIP%s%sEvT_S1_RKT0_' % (_l, _l)] = m_fill(_k, _s)


def pin(**kw):
    """the argument is this constant: one instance of the contract per value"""
    def setup(v):
        for p in v.eng.curfn['params']:
            if p['name'] in kw:
                v.eng.args[p['name']] = kw[p['name']]
                v.args[p['name']] = kw[p['name']]
                v.st.frames[0].env[p['id']] = kw[p['name']]
    return setup


def owning():
    c = c_create_owning()
    return Contract('omTensorCreateWithOwnership', c.pre, c.post, ret=ret_start, mods=lambda v: [], frees=lambda v: [], allocs=True, trusted=True, args=['data_ptr', 'shape', 'rank', 'dtype', 'owning'])


# ---- leading ones
def num(v, i):
    return NUM(dims(v.old, v.old.arg('shape')), Z(i))


def c_soz(name):
    letter, kind, esz, signed, ty = T[name]
    one, zero = (1, 0) if signed != 'fp' else (z3.FPVal(1.0, FS[kind]), z3.FPVal(0.0, FS[kind]))

    def facts(v):
        o = v.old or v
        s = o.arg('shape')
        n, D = vlen(o, s), dims(o, s)
        return n, D, NUM(D, n - 1), D[n - 1]

    def some(v):
        n, D, R, W = facts(v)
        return And(Q >= 0, Q < R, C >= 0, C < W)

    def pre(v):
        s = v.arg('shape')
        n, D = vlen(v, s), dims(v, s)
        return [vok(v, s), z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < n), D[k_] >= 0), patterns=[D[k_]]), Z(v.arg('sozCount')) >= -1, *num_def(D, 0), z3.Implies(n > 0, And(NUM(D, n - 1) >= 0, NUM(D, n - 1) * D[n - 1] < (1 << 56), D[n - 1] < (1 << 56)))]

    def setup(v):
        pin(omType=ty)(v)
        v.st.ghost['ones'] = z3.IntVal(-1)

    def inv0(v):
        n, D, R, W = facts(v)
        i = Z(v.var('i'))
        return [('range', And(i >= 0, i <= n - 1)), ('rows', Z(v.var('numRows')) == NUM(D, i))]

    def inv1(v):
        n, D, R, W = facts(v)
        r, b = Z(v.var('row')), v.var('buf')
        x = v.inner(kind, b)[Q * W + C]
        m = Z(v.st.ghost['ones'])
        want = Z(v.old.arg('sozCount'))
        cap = z3.If(W > 1, W - 1, z3.IntVal(1))
        return [('range', And(r >= 0, r <= R)), ('rows not reached are zero', z3.Implies(And(some(v), r <= Q), x == zero)),
                ('leading ones', z3.Implies(And(some(v), r > Q), And(x == z3.If(C < m, one, zero), z3.If(want >= 0, m == z3.If(want < W, want, W), And(m >= 1, m <= cap)))))]

    def lem1(v):
        n, D, R, W = facts(v)
        r = Z(v.var('row'))
        return [z3.Implies(And(r < Q), (Q - r) * W >= W), z3.Implies(r > Q, (r - Q) * W >= W), z3.Implies(r < R, (R - r) * W >= W), z3.Implies(Q < R, (R - Q) * W >= W), Q * W >= 0, r * W >= 0]

    def post(v):
        n, D, R, W = facts(v)
        t = v.ret
        nn = nonnull(v, t)
        d = v.fld(t, AG, 'ptr')
        x = v.inner(kind, d)[Q * W + C]
        m = Z(v.st.ghost['ones'])
        want = Z(v.old.arg('sozCount'))
        cap = z3.If(W > 1, W - 1, z3.IntVal(1))
        T_, S_ = v.inner('i64', v.fld(t, ST, 'ptr')), v.inner('i64', v.fld(t, SH, 'ptr'))
        return [('none without dimensions', z3.Implies(n == 0, z3.Not(nn))), ('type', imp(nn, Z(v.fld(t, DT, 'i32')) == ty)), ('rank', imp(nn, Z(v.fld(t, RK, 'i64')) == n)), ('shape', imp(nn, forall(k_, z3.Implies(And(k_ >= 0, k_ < n), S_[k_] == D[k_]), S_[k_]))),
                ('owns its data', imp(nn, And(Z(v.fld(t, OW, 'i64')) == 1, same_ptr(v.fld(t, AL, 'ptr'), d), Z(d.off.expr()) == 0, v.alive(d), Z(v.size(d)) >= R * W * esz))),
                ('any cell of any row', imp(And(nn, some(v)), And(x == z3.If(C < m, one, zero), z3.If(want >= 0, m == z3.If(want < W, want, W), And(m >= 1, m <= cap))))),
                ('no-leak', made_only(v, t))]
    return Contract('_Z21omTensorCreateSozDataRKSt6vectorIlSaIlEE12OM_DATA_TYPEl', pre, post, lambda v: [], frees=lambda v: [], allocs=True, setup=setup, ghosts=('ones',),
                    loops={'count': 2, 0: Loop(inv0, lambda v: facts(v)[0] - Z(v.var('i')), lemmas=lambda v: num_def(facts(v)[1], v.var('i'))), 1: Loop(inv1, lambda v: facts(v)[2] - Z(v.var('row')), lemmas=lem1)},
                    opts={'overflow': 'assume', 'unsigned_nowrap': True})


def made_only(v, t):
    o = v.old
    nn = nonnull(v, t)
    sh, st, d = v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr'), v.fld(t, AL, 'ptr')
    new = z3.And(o_ >= Z(o.st.next), o_ < Z(v.st.next))
    return forall(o_, z3.Implies(And(new, z3.Select(v.st.alive, o_)), And(nn, z3.Or(*[o_ == Z(p.obj) for p in (t, sh, st, d)]))), z3.Select(v.st.alive, o_))

# ---- random values between two bounds
KIND0 = {'b': ('j', 'i8')}


def under(name):
    """the distribution used for the type: int32_t/uint32_t for the types of at most 4 bytes"""
    letter, kind, esz, signed, ty = T[name]
    if signed == 'fp':
        return letter
    if esz <= 4:
        return 'i' if signed is True else 'j'
    return letter


def fits(name, x):
    """x, a value of the distribution's type, is one of the element type"""
    letter, kind, esz, signed, ty = T[name]
    if signed == 'fp' or esz == 8:
        return z3.BoolVal(True)
    x = Z(x)
    if signed == 'bool':
        return And(x >= 0, x <= 1)
    if signed is True:
        return And(x >= -(1 << (8 * esz - 1)), x < (1 << (8 * esz - 1)))
    return And(U(x, 32) >= 0, U(x, 32) < (1 << (8 * esz)))


def wide(name, x):
    """the number an element stands for"""
    letter, kind, esz, signed, ty = T[name]
    if signed == 'fp':
        return x
    x = b2i(x)
    return U(x, 8 * esz) if signed is False else x


def dwide(letter, x):
    kind, signed = DIST[letter]
    return x if signed == 'fp' else Z(x) if signed is True else U(x, 8 * KSZ[kind])


def c_draw(name):
    """the value the lambda hands to std::generate"""
    letter = under(name)
    kind = DIST[letter][0]
    esz = KSZ[kind]

    def bounds(v):
        d = v.fld(v.arg('this'), 0, 'ptr')
        z = Ptr(d.obj, 0)                    # offset 0 is required in pre
        return d, v.fld(z, 0, CT.get(kind, kind)), v.fld(z, esz, CT.get(kind, kind))

    def pre(v):
        d, lo, hi = bounds(v)
        return [And(v.valid(v.arg('this'), 8), v.valid(d, 2 * esz), Z(d.off.expr()) == 0), leq(lo, hi, *DIST[letter]), And(fits(name, lo), fits(name, hi))]

    def post(v):
        d, lo, hi = bounds(v.old)
        return [('between the bounds', And(dwide(letter, lo) <= wide(name, v.ret), wide(name, v.ret) <= dwide(letter, hi)))]
    return Contract('_ZZL20fillBufferWithRandomI%sEvPT_lS0_S0_ENKUlvE_clEv' % T[name][0], pre, post, mods=lambda v: [], frees=lambda v: [], opts={'fp': 'real'})


def m_generate(name):
    """std::generate: every cell gets a value that one call of the lambda returned"""
    l, kind, esz, signed, ty = T[name]
    D = under(name)
    dk = DIST[D][0]

    def f(eng, st, fr, i, a):
        region(eng, st, i, 'generate', a[0], a[1], esz)
        v = vw(eng, st)
        d = a[2] if isinstance(a[2], Ptr) else a[2].vals[0]
        lo, hi = v.fld(d, 0, CT.get(dk, dk)), v.fld(d, KSZ[dk], CT.get(dk, dk))
        eng.oblige(st, 'call-pre', 'generate.distribution', And(v.valid(d, 2 * KSZ[dk]), leq(lo, hi, *DIST[D]), fits(name, lo), fits(name, hi)), i.get('line'))
        set_cells(eng, st, a[0], a[1], kind, esz, lambda c: And(dwide(D, lo) <= wide(name, c), wide(name, c) <= dwide(D, hi), *([c >= 0, c <= 1] if signed == 'bool' else [])))
    return f


GEN = {'_ZSt8generateIP%sZL20fillBufferWithRandomI%sE*' % (T[n][0], T[n][0]): m_generate(n) for n in T}


def between(name, lo, hi, c):
    return And(wide(name, lo) <= wide(name, c), wide(name, c) <= wide(name, hi))


def c_random_fill(name):
    letter, kind, esz, signed, ty = T[name]

    def pre(v):
        p, n = v.arg('buf'), Z(v.arg('n'))
        return [And(n >= 0, z3.Or(n == 0, v.valid(p, n * esz)), v.alive(p), Z(p.off.expr()) == 0, Z(p.obj) > 0), wide(name, v.arg('lbound')) <= wide(name, v.arg('ubound'))]

    def post(v):
        p, n = v.arg('buf'), Z(v.arg('n'))
        M = v.inner(kind, p)
        return [('every element is between the bounds', forall(k_, z3.Implies(And(k_ >= 0, k_ < n), between(name, v.arg('lbound'), v.arg('ubound'), M[k_])), M[k_]))]
    return Contract('_ZL20fillBufferWithRandomI%sEvPT_lS0_S0_' % letter, pre, post, mods=lambda v: [(v.arg('buf'), (kind,))], frees=lambda v: [], opts={'fp': 'real', 'overflow': 'assume'})


def shape_pre(v, esz):
    s = v.arg('shape')
    n, D = vlen(v, s), dims(v, s)
    return [vok(v, s), z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < n), D[k_] >= 0), patterns=[D[k_]]), *num_def(D, 0), And(NUM(D, n) >= 0, NUM(D, n) < (1 << 56))]


def made(v, name, ok, ty):
    """what is known about the tensor returned"""
    letter, kind, esz, signed, _ = T[name]
    s = v.old.arg('shape')
    n, D = vlen(v.old, s), dims(v.old, s)
    t = v.ret
    nn = nonnull(v, t)
    d = v.fld(t, AG, 'ptr')
    M = v.inner(kind, d)
    S_ = v.inner('i64', v.fld(t, SH, 'ptr'))
    return [('start', imp(nn, Z(t.off.expr()) == 0)), ('type', imp(nn, Z(v.fld(t, DT, 'i32')) == ty)), ('rank', imp(nn, Z(v.fld(t, RK, 'i64')) == n)), ('shape', imp(nn, forall(k_, z3.Implies(And(k_ >= 0, k_ < n), S_[k_] == D[k_]), S_[k_]))),
            ('owns its data', imp(nn, And(Z(v.fld(t, OW, 'i64')) == 1, same_ptr(v.fld(t, AL, 'ptr'), d), Z(d.off.expr()) == 0, v.alive(d), Z(v.size(d)) >= NUM(D, n) * esz))),
            ('every element is between the bounds', imp(nn, forall(k_, z3.Implies(And(k_ >= 0, k_ < NUM(D, n)), ok(M[k_])), M[k_]))),
            ('no-leak', made_only(v, t))]


def itpos(v):
    """the place of the range-for iterator"""
    return iter_(v, 'begin')


def it_shape(block):
    return lambda v: [(v.anyvar(*['__%s%d' % (x, k) for k in range(9)]), block(v), 8) for x in ('begin', 'end')]


def c_random(name):
    letter, kind, esz, signed, ty = T[name]

    def pre(v):
        return shape_pre(v, esz) + [wide(name, v.arg('lbound')) <= wide(name, v.arg('ubound'))]

    def facts(v):
        o = v.old or v
        s = o.arg('shape')
        return vlen(o, s), dims(o, s), vdat(o, s)

    def inv(v):
        n, D, d = facts(v)
        p = itpos(v)
        k = v.idx('i64', p)
        e = iter_(v, 'end')
        return [('range', And(Z(p.obj) == Z(d.obj), Z(p.off.expr()) == 8 * k, k >= 0, k <= n)), ('end', And(Z(e.obj) == Z(d.obj), Z(e.off.expr()) == 8 * n)), ('elements', Z(v.var('numElems')) == NUM(D, k))]

    def post(v):
        return made(v, name, lambda c: between(name, v.arg('lbound'), v.arg('ubound'), c), v.arg('dtype'))
    return Contract('_ZL28omTensorCreateWithRandomDataI%sEP8OMTensorRKSt6vectorIlSaIlEET_S7_12OM_DATA_TYPE' % letter, pre, post, ret=ret_start, mods=lambda v: [], frees=lambda v: [], allocs=True,
                    loops={'count': 1, 0: Loop(inv, lambda v: facts(v)[0] - v.idx('i64', itpos(v)), lemmas=lambda v: num_def(facts(v)[1], v.idx('i64', itpos(v))), shape=it_shape(lambda v: facts(v)[2]))}, opts={'fp': 'real', 'overflow': 'assume', 'unsigned_nowrap': True})


def trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def rng(name):
    letter, kind, esz, signed, ty = T[name]
    return (-(1 << (8 * esz - 1)), (1 << (8 * esz - 1)) - 1) if signed is True else (0, (1 << (8 * esz)) - 1)


def c_dispatch(name):
    """the element type decides the instance, the bounds are converted to it"""
    letter, kind, esz, signed, ty = T[name]

    def pre(v):
        lo, hi = v.arg('lbound'), v.arg('ubound')
        r = shape_pre(v, esz) + [lo <= hi]
        if signed in (True, False):
            a, b = rng(name)
            r += [lo >= a, hi < b + 1] if esz < 8 else [lo >= a, hi <= b]
        return r

    def ok(v):
        lo, hi = v.arg('lbound'), v.arg('ubound')
        if signed == 'fp':
            return lambda c: And(lo <= c, c <= hi)
        if signed == 'bool':
            f = lambda x: z3.If(x > z3.RealVal('1/2'), 1, 0)
            return lambda c: And(f(lo) <= c, c <= f(hi))
        return lambda c: And(trunc(lo) <= wide(name, c), wide(name, c) <= trunc(hi))

    def post(v):
        return made(v, name, ok(v), ty)
    return Contract('_Z28omTensorCreateWithRandomDataRKSt6vectorIlSaIlEE12OM_DATA_TYPEdd', pre, post, mods=lambda v: [], frees=lambda v: [], allocs=True, ret=ret_start, setup=pin(omType=ty), opts={'fp': 'real', 'overflow': 'assume', 'unsigned_nowrap': True})


def as_trusted(c):
    c.trusted = True
    return c


# ---- float16: the number is drawn as a float and converted
HALF = z3.Function('HALF', irvc.REAL, I)
OKH = z3.Function('OKH', I, B)           # a half number converted from one between the bounds


def m_half(eng, st, fr, i, a):
    v = eng.old
    r = eng.havoc_val(st, i['ty'], 'half')
    eng.assume(st, And(Z(r) == HALF(a[0]), z3.Implies(And(v.arg('lbound') <= a[0], a[0] <= v.arg('ubound')), OKH(HALF(a[0])))))
    return r


def c_half():
    def pre(v):
        return shape_pre(v, 2) + [v.arg('lbound') <= v.arg('ubound')]

    def facts(v):
        o = v.old or v
        s = o.arg('shape')
        return vlen(o, s), dims(o, s), vdat(o, s)

    def inv(v):
        n, D, d = facts(v)
        p, e = itpos(v), iter_(v, 'end')
        k = v.idx('i64', p)
        return [('range', And(Z(p.obj) == Z(d.obj), Z(p.off.expr()) == 8 * k, k >= 0, k <= n)), ('end', And(Z(e.obj) == Z(d.obj), Z(e.off.expr()) == 8 * n)), ('elements', Z(v.var('numElems')) == NUM(D, k))]

    def inv1(v):
        n, D, d = facts(v)
        e = Z(v.var('e'))
        M = v.inner('i16', v.var('buf'))
        return [('range', And(e >= 0, e <= NUM(D, n))), ('filled', forall(k_, z3.Implies(And(k_ >= 0, k_ < e), OKH(M[k_])), M[k_]))]

    def post(v):
        return made(v, 'int16', lambda c: OKH(c), 10)
    return Contract('_ZL35omTensorCreateFloat16WithRandomDataRKSt6vectorIlSaIlEEff', pre, post, mods=lambda v: [], frees=lambda v: [], allocs=True,
                    loops={'count': 2, 0: Loop(inv, lambda v: facts(v)[0] - v.idx('i64', itpos(v)), lemmas=lambda v: num_def(facts(v)[1], v.idx('i64', itpos(v))), shape=it_shape(lambda v: facts(v)[2])),
                           1: Loop(inv1, lambda v: NUM(facts(v)[1], facts(v)[0]) - Z(v.var('e')), writes=lambda v: [('i16', v.var('buf'))])}, opts={'fp': 'real', 'overflow': 'assume', 'unsigned_nowrap': True})


def c_unsupported(ty):
    return Contract('_Z28omTensorCreateWithRandomDataRKSt6vectorIlSaIlEE12OM_DATA_TYPEdd', lambda v: [], lambda v: [('nothing for a type that cannot be generated', Z(v.isnull(v.ret)))], mods=lambda v: [], frees=lambda v: [], allocs=False, setup=pin(omType=ty), opts={'fp': 'real'})


# ---- the list of inputs
LS = '_Z36omTensorListCreateFromInputSignaturePKcS0_S0_S0_S0_b'
VE, VS = 'St6vectorI8SigEntrySaIS0_EE', 'St6vectorI9ValueSpecSaIS0_EE'
NT = 23
NE = z3.Int('number_of_inputs')
RANKF = z3.Function('rank_of', I, I)
DIMF = z3.Function('dim_of', I, I, I)
TYPEF = z3.Function('type_of', I, I)
HASMIN, HASMAX, HASSOZ = [z3.Function(n, I, B) for n in ('has_min', 'has_max', 'has_soz')]
MINF, MAXF = [z3.Function(n, I, irvc.REAL) for n in ('min_of', 'max_of')]
SOZF = z3.Function('soz_of', I, I)
OVER = [z3.Function('given_%s' % n, I, B) for n in ('lower', 'upper')]
OVERV = [z3.Function('%s_given' % n, I, irvc.REAL) for n in ('lower', 'upper')]
ESZ, SSZ = 32, 40
e_ = z3.Int('e')


def real_of(x):
    import fractions
    f = fractions.Fraction(x)
    return z3.RealVal(f.numerator) / z3.RealVal(f.denominator)


def default_bound(t, low):
    """the documented default range of an element type"""
    r = real_of(0.0 if low else 10.0)
    rules = [((1, 11, 10), -0.1, 0.1), ((3, 5, 6, 7), -10.0, 10.0), ((9,), 0.0, 1.0), ((8,), 0.0, 63.0)]
    for tys, lo, hi in rules:
        r = z3.If(z3.Or(*[Z(t) == x for x in tys]), real_of(lo if low else hi), r)
    return r


def bound_of(t, low):
    k = 0 if low else 1
    return z3.If(OVER[k](t), OVERV[k](t), default_bound(t, low))


def want(e, low):
    has, val = (HASMIN, MINF) if low else (HASMAX, MAXF)
    return z3.If(has(e), val(e), bound_of(TYPEF(e), low))


def c_default(low):
    return Contract('_ZL13defaultRand%s12OM_DATA_TYPE' % ('LB' if low else 'UB'), lambda v: [], lambda v: [('default of the type', v.ret == default_bound(v.arg('t'), low))], mods=lambda v: [], frees=lambda v: [], opts={'fp': 'real'})


def some_entries(eng, st, fr, i, a):
    """parseInputSpecs: entries of valid types (C16's parsers are monitored, not proved)"""
    ghost(eng, st, 'parsed', fresh('parsed', B))
    return st.ghost['parsed']


def some_specs(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'value options for as many inputs as there are', Z(a[1]) == NE, i.get('line'))
    return fresh('specs_parsed', B)


def entry(eng, st, fr, i, a):
    k = Z(a[1])
    eng.oblige(st, 'call-pre', 'entries.index', And(k >= 0, k < NE), i.get('line'))
    return Ptr(st.ghost['ENT'], Lin.of(k, ESZ))


def spec(eng, st, fr, i, a):
    k = Z(a[1])
    eng.oblige(st, 'call-pre', 'specs.index', And(k >= 0, k < NE), i.get('line'))
    return Ptr(st.ghost['SPEC'], Lin.of(k, SSZ))


def entry_of(eng, st, p, i):
    """the entry whose dims vector this is"""
    d = p.addoff(Lin(-8)).off.div(ESZ)
    if d is None:
        d = eng.div_off(st, p.addoff(Lin(-8)), ESZ)
    d = Z(d)
    eng.oblige(st, 'call-pre', 'dims of an entry', And(Z(p.obj) == Z(st.ghost['ENT']), d >= 0, d < NE), i.get('line'))
    return d


def dims_size(eng, st, fr, i, a):
    return RANKF(entry_of(eng, st, a[0], i))


def dims_at(eng, st, fr, i, a):
    e = entry_of(eng, st, a[0], i)
    k = Z(a[1])
    eng.oblige(st, 'call-pre', 'dims.index', And(k >= 0, k < RANKF(e)), i.get('line'))
    return temp(eng, st, 'i64', DIMF(e, k))


def bound_overrides(eng, st, fr, i, a):
    """parseBoundOverrides: the entries given replace the default"""
    k = 0 if Z(a[0].obj).get_id() == Z(eng.old.arg('defaultLowerBound').obj).get_id() else 1
    q = eng.old.arg(('defaultLowerBound', 'defaultUpperBound')[k])
    eng.oblige(st, 'call-pre', 'bound option', same_ptr(a[0], q), i.get('line'))
    p = a[1]
    eng.expose(st, p.obj)
    eng.record(st, p, 'f64')
    M = eng.memk(st, 'f64')
    old = z3.Select(M, Z(p.obj))
    new = fresh('bounds', old.sort())
    st.mem['f64'] = z3.Store(M, Z(p.obj), new)
    j = z3.Int('j!b')
    eng.assume(st, z3.ForAll([j], new[j] == z3.If(And(j >= 0, j < NT, OVER[k](j)), OVERV[k](j), old[j]), patterns=[new[j]]))
    return fresh('bounds_parsed', B)


def new_tensor(eng, st, e, i):
    t = fresh('tensor')
    eng.assume(st, z3.Or(t == 0, And(t > 0, st.ghost['WHO'][t] == e)))
    eng.oblige(st, 'call-pre', 'one tensor for an input', z3.Not(st.ghost['LIVE'][e]), i.get('line'))
    ghost(eng, st, 'LIVE', z3.Store(st.ghost['LIVE'], e, t != 0))
    return Ptr(t, 0)


def make_random(eng, st, fr, i, a):
    e = entry_of(eng, st, a[0], i)
    for n, c in (('random only without soz', z3.Not(HASSOZ(e))), ('random.type', Z(a[1]) == TYPEF(e)), ('random.lower bound', a[2] == want(e, True)), ('random.upper bound', a[3] == want(e, False)), ('random.bounds in order', a[2] <= a[3]),
                 ('random.static shape', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < RANKF(e)), DIMF(e, k_) >= 0), patterns=[DIMF(e, k_)]))):
        eng.oblige(st, 'call-pre', n, c, i.get('line'))
    return new_tensor(eng, st, e, i)


def make_soz(eng, st, fr, i, a):
    e = entry_of(eng, st, a[0], i)
    for n, c in (('leading ones only when asked for', HASSOZ(e)), ('leading ones.type', Z(a[1]) == TYPEF(e)), ('leading ones.count', Z(a[2]) == SOZF(e)),
                 ('leading ones.static shape', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < RANKF(e)), DIMF(e, k_) >= 0), patterns=[DIMF(e, k_)]))):
        eng.oblige(st, 'call-pre', n, c, i.get('line'))
    return new_tensor(eng, st, e, i)


def destroy(eng, st, fr, i, a):
    t = Z(a[0].obj)
    e = st.ghost['WHO'][t]
    eng.oblige(st, 'call-pre', 'destroy.a live tensor', And(t > 0, st.ghost['LIVE'][e]), i.get('line'))
    ghost(eng, st, 'LIVE', z3.Store(st.ghost['LIVE'], e, z3.BoolVal(False)))


def held(v, arr, n):
    """the first n places hold the live tensors of the first n inputs"""
    A = v.inner('po', arr)
    return forall(e_, z3.Implies(And(e_ >= 0, e_ < Z(n)), And(A[e_] > 0, v.st.ghost['WHO'][A[e_]] == e_)), A[e_])


def live_below(v, n):
    L = v.st.ghost['LIVE']
    return forall(e_, L[e_] == And(e_ >= 0, e_ < Z(n)), L[e_])


def make_list(eng, st, fr, i, a):
    v = vw(eng, st)
    eng.oblige(st, 'call-pre', 'list.all the inputs', And(Z(a[1]) == NE, held(v, a[0], NE), live_below(v, NE)), i.get('line'))
    t = fresh('list')
    eng.assume(st, t >= 0)
    ghost(eng, st, 'LISTED', t != 0)
    return Ptr(t, 0)


def printed(eng, st, fr, i, a):
    return eng.havoc_val(st, i['ty'], 'printed')


def no_name(eng, st, fr, i, a):
    return eng.havoc_val(st, 'ptr', 'name')


LISTM = {'_ZN%sC2Ev' % VE: nop, '_ZN%sD2Ev' % VE: nop, '_ZN%sC2Ev' % VS: nop, '_ZN%sD2Ev' % VS: nop, '_ZL15parseInputSpecsPKcS0_RSt6vectorI8SigEntrySaIS2_EE': some_entries, '_ZL14parseValueInfoPKciRSt6vectorI9ValueSpecSaIS2_EE': some_specs,
         '_ZNK%s4sizeEv' % VE: lambda e, st, fr, i, a: NE, '_ZN%sixEm' % VE: entry, '_ZN%sixEm' % VS: spec, '_ZNK%sixEm' % VE: entry, '_ZNK%sixEm' % VS: spec, '_ZNK%s4sizeEv' % VL: dims_size, '_ZNK%sixEm' % VL: dims_at, '_ZL19parseBoundOverridesPKcPd': bound_overrides,
         '_Z21omTensorCreateSozData' + VEC + '12OM_DATA_TYPEl': make_soz, '_Z28omTensorCreateWithRandomData' + VEC + '12OM_DATA_TYPEdd': make_random, 'omTensorDestroy': destroy, 'omTensorListCreate': make_list, 'printf': printed, 'fprintf': printed, '_ZL18omDataTypeToString12OM_DATA_TYPE': no_name}
LG = ('LIVE', 'WHO', 'LISTED', 'ENT', 'SPEC', 'parsed')


def l_setup(v):
    g = v.st.ghost
    g['LIVE'] = z3.K(I, z3.BoolVal(False))
    g['WHO'] = z3.Array('input_of', I, I)
    g['LISTED'] = z3.BoolVal(False)
    g['parsed'] = z3.BoolVal(False)
    g['ENT'], g['SPEC'] = z3.Int('entries_block'), z3.Int('specs_block')


def l_table(v):
    """the options, as parsed, are in the two blocks"""
    E, S = Ptr(v.st.ghost['ENT'], 0), Ptr(v.st.ghost['SPEC'], 0)
    T_ = v.inner('i32', E)
    i8, f64, i64 = v.inner('i8', S), v.inner('f64', S), v.inner('i64', S)
    q = forall
    r = lambda x: And(e_ >= 0, e_ < NE)
    return [NE >= 0, NE < (1 << 31), v.valid(E, ESZ * NE), v.valid(S, SSZ * NE), Z(E.obj) > 0, Z(S.obj) > 0, Z(E.obj) != Z(S.obj), Z(E.obj) < Z(v.st.next), Z(S.obj) < Z(v.st.next),
            z3.ForAll([e_], z3.Implies(r(0), And(T_[8 * e_] == TYPEF(e_), TYPEF(e_) >= 0, TYPEF(e_) < NT, RANKF(e_) >= 0, RANKF(e_) < (1 << 31), f64[5 * e_] == MINF(e_), f64[5 * e_ + 1] == MAXF(e_), i8[40 * e_ + 16] == z3.If(HASMIN(e_), 1, 0), i8[40 * e_ + 17] == z3.If(HASMAX(e_), 1, 0),
                                                 i64[5 * e_ + 3] == SOZF(e_), i8[40 * e_ + 32] == z3.If(HASSOZ(e_), 1, 0))), patterns=[TYPEF(e_)])]


def c_abort():
    def arr(v):
        c = v.fld(v.arg('this'), 0, 'ptr')
        return v.fld(Ptr(c.obj, 0), 0, 'ptr')

    def pre(v):
        c = v.fld(v.arg('this'), 0, 'ptr')
        a, n = arr(v), Z(v.arg('count'))
        return [And(v.valid(v.arg('this'), 8), v.valid(c, 8), Z(c.off.expr()) == 0), And(Z(a.obj) > 0, Z(a.off.expr()) == 0, v.alive(a), n >= 0, v.valid(a, 8 * n)), held(v, a, n), live_below(v, n), And(Z(a.obj) != Z(c.obj), Z(c.obj) != Z(v.arg('this').obj), Z(a.obj) != Z(v.arg('this').obj))]

    def inv(v):
        k, n = Z(v.var('k')), Z(v.arg('count'))
        L = v.st.ghost['LIVE']
        return [('range', And(k >= 0, k <= n)), ('destroyed', forall(e_, L[e_] == And(e_ >= k, e_ < n), L[e_]))]

    def post(v):
        L = v.st.ghost['LIVE']
        return [('nothing', Z(v.isnull(v.ret))), ('every input is destroyed', forall(e_, z3.Not(L[e_]), L[e_])), ('the array is freed', z3.Not(v.alive(arr(v.old))))]

    def setup(v):
        l_setup(v)
        v.st.ghost['LIVE'] = z3.Array('live0', I, B)
    return Contract('_ZZ' + LS[2:] + 'ENK3$_0clEi', pre, post, mods=lambda v: [], frees=lambda v: [arr(v)], setup=setup, ghosts=('LIVE',), loops={'count': 1, 0: Loop(inv, lambda v: Z(v.arg('count')) - Z(v.var('k')))}, opts={'fp': 'real'})


def on_stack(p):
    return isint(p.obj) and p.obj <= -1000000


def arrp(v):
    """the array of inputs (its variable lives in memory as the clean-up captures it)"""
    x = v.var('inputTensors')
    return v.fld(x, 0, 'ptr') if on_stack(x) else x


def arr_shape(v):
    x = v.var('inputTensors')
    return [(x, arrp(v.entry), 8)] if on_stack(x) else []


def c_list():
    def inv_t(v):
        t = Z(v.var('t'))
        lb, ub = [v.inner('f64', v.var(n)) for n in ('lb', 'ub')]
        return [('range', And(t >= 0, t <= NT)), ('defaults', And(*[forall(k_, z3.Implies(And(k_ >= 0, k_ < t), M[k_] == default_bound(k_, low)), M[k_]) for M, low in ((lb, True), (ub, False))]))]

    def inv_i(v):
        n = Z(v.var('i'))
        return [('range', And(n >= 0, n <= NE)), ('array', And(same_ptr(arrp(v), arrp(v.entry)), Z(arrp(v).off.expr()) == 0)), ('made', held(v, arrp(v), n)), ('live', live_below(v, n))]

    def inv_d(v):
        d, e = Z(v.var('d')), Z(v.var('i'))
        return [('range', And(d >= 0, d <= RANKF(e))), ('static', forall(k_, z3.Implies(And(k_ >= 0, k_ < d), DIMF(e, k_) >= 0), DIMF(e, k_)))]

    def inv_p(v):
        return [('range', Z(v.var('d')) >= 0)]

    def post(v):
        nn = nonnull(v, v.ret)
        L = v.st.ghost['LIVE']
        return [('a list of all the inputs', imp(nn, And(v.st.ghost['LISTED'], live_below(v, NE)))), ('nothing stays when there is no list', imp(z3.Not(nn), forall(e_, z3.Not(L[e_]), L[e_])))]
    return Contract(LS, lambda v: l_table(v), post, mods=lambda v: [], frees=lambda v: [], allocs=False, setup=l_setup, ghosts=LG,
                    loops={'count': 4, 0: Loop(inv_t, lambda v: NT - Z(v.var('t'))), 1: Loop(inv_i, lambda v: NE - Z(v.var('i')), shape=arr_shape), 2: Loop(inv_d, lambda v: RANKF(Z(v.var('i'))) - Z(v.var('d'))), 3: Loop(inv_p)}, opts={'fp': 'real', 'overflow': 'assume', 'unsigned_nowrap': True})



def groups(tier):
    g = [Group('default bounds', [(SRC, ['.'])], [c_default(True), c_default(False)], {}, flags=FLAGS), Group('clean-up', [(SRC, ['.'])], [c_abort()], LISTM, flags=FLAGS),
         Group('the list', [(SRC, ['.'])], [c_default(True), c_default(False), c_abort(), c_list()], LISTM, flags=FLAGS)]
    for n in T:
        g.append(Group('random values of ' + n, [(SRC2, ['.'])], [owning(), as_trusted(c_random(n)), c_dispatch(n)], {**VECM, **RAND}, flags=FLAGS))
    g.append(Group('random float16', [(SRC2, ['.'])], [owning(), c_half()], {**VECM, **RAND, 'om_f32_to_f16': m_half}, flags=FLAGS))
    for n in T:
        g.append(Group('random ' + n, [(SRC2, ['.'])], [owning(), c_draw(n), c_random_fill(n), c_random(n)], {**VECM, **RAND, **GEN}, flags=FLAGS))
    for n in T:
        g.append(Group('leading ones ' + n, [(SRC2, ['.']), (RT + 'OnnxDataType.cpp', ['@OM_DATA_TYPE_SIZE'])], [owning(), c_soz(n)], {**VECM, **RAND}, flags=FLAGS))
    for ty in (0, 14, 16):
        g.append(Group('no values of type %d' % ty, [(SRC2, ['.'])], [c_unsupported(ty)], {**VECM, **RAND, 'fprintf': printed}, flags=FLAGS))
    return g


def natives(tier):
    return [Native('options', ['native/inputs.cpp', SRC, SRC2, RT + 'OMTensor.cpp', RT + 'OMTensorList.cpp', RT + 'OnnxDataType.cpp', 'src/Support/SmallFPConversion.c'],
                   'signatures of at most 4 inputs of rank at most 4; options of at most 9 entries', cxx=True, libs=['-Wl,--wrap=omTensorListCreate', '-Wl,--wrap=omTensorCreateWithOwnership'],
                   quick=['n=12000'], thorough=['n=150000'], parts=8, timeout=600)]
