import os
import z3
import irvc
import irbv
from irvc import *
from omt import *
from irbv import BVC, P as BP
from suite import Group, Native
import c10
import c14
PROP = 'C15'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLAIN = ('Proved bit for bit, for every 64-bit operand: the double-to-integer conversions (truncating and half-to-even, saturated to the target width, NaN to 0), the integer-to-double conversions, non-zero tests, the clip functions of all three kinds, '
           'the saturating cast to a floating type. Proved for every size: the share of elements one thread transforms (functionTransformer) applies the function to its own elements only, and a lemma shows that the shares tile the array for any number of threads; '
           'the element loop of combine writes element k with the binary function of the operands at the address of position k, whatever the broadcast strides (C13: the walk), and nothing else. '
           'where, transpose, reshape, expand, split, pad, concat, slice, gather, scatter, nonzero, range, reduce, matMul are monitored (bounded): every element of the result of random chains of operations against a dense reference.')
ASSUMPTIONS = ['a cast between integer types changes the element type at once and the kept 64-bit values when they are read (the kept value may have more bits than the type until then)', 'element counts below 2^31; strides not negative (C13)',
               'double arithmetic that only chooses the share of a thread is treated as exact (the counts are below 2^31, so it is)', 'the element function passed to a transformer is an arbitrary function of the element']
TRUSTED = ['mlir::MLIRContext::getNumThreads, mlir::parallelFor, llvm::SmallVector members (contracts/smallvec.py), std::function call operators']
F64 = z3.Float64()
RNE, RTZ = z3.RNE(), z3.RTZ()
INST = os.path.join(HERE, 'native/elembuild_inst.cpp')


# ---- scalar operations, bit exact
def b_llrint(e, st, fr, i, a):
    r = z3.fpRoundToIntegral(RNE, a[0])
    e.oblige(st, 'float-conversion', 'llrint', z3.And(z3.fpGEQ(r, z3.FPVal(-2.0 ** 63, F64)), z3.fpLT(r, z3.FPVal(2.0 ** 63, F64))))
    return z3.fpToSBV(RNE, a[0], z3.BitVecSort(64))


SCALAR = {**c10.CALLEES, 'llrint': b_llrint, 'llvm.llrint.*': b_llrint}


def dbl(w):
    return z3.fpBVToFP(w, F64)


def to_int(x, lo, hi, signed, trunc):
    """NaN is 0; otherwise the rounded number, clamped to [lo, hi]"""
    r = z3.fpRoundToIntegral(RTZ if trunc else RNE, x)
    cv = (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)
    le = (lambda a, b: a <= b) if signed else z3.ULE
    flo, fhi = cv(RTZ, lo, F64), cv(RTZ, hi, F64)
    n = (z3.fpToSBV if signed else z3.fpToUBV)(RTZ, r, z3.BitVecSort(64))
    big = z3.FPVal(2.0 ** 63 if signed else 2.0 ** 64, F64)
    small = z3.FPVal(-2.0 ** 63 if signed else 0.0, F64)
    n = z3.If(z3.fpGEQ(r, big), hi, z3.If(z3.fpLT(r, small), lo, z3.If(le(n, lo), lo, z3.If(le(hi, n), hi, n))))
    return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, 64), n)


def c_conv(trunc, signed, lam):
    T = 'i64' if signed else 'u64'
    fn = '_ZZN9onnx_mlir12_GLOBAL__N_116convertIntFromFPILb%dE%sEEDaT0_S2_ENKUlNS_7WideNumEE_clES3_' % (trunc, 'l' if signed else 'm') if lam else 'vf_%s_%s' % ('trunc' if trunc else 'round', T)

    def setup(e, st):
        w, width = z3.BitVec('w', 64), z3.BitVec('width', 64)
        lo = (z3.BitVecVal(1 << 63, 64) >> (64 - width)) if signed else z3.BitVecVal(0, 64)
        hi = z3.LShR(z3.BitVecVal((1 << 63) - 1 if signed else (1 << 64) - 1, 64), 64 - width)
        if lam:
            p = e.alloc(st, 16)
            e.store(st, p, 8, lo)
            e.store(st, BP(p.obj, 8), 8, hi)
            return [p, w], (w, lo, hi, width)
        return [dbl(w), lo, hi], (w, lo, hi, width)

    def pre(c):
        return [z3.Or(*[c[3] == k for k in (8, 16, 32, 64)])]

    def post(c, r, e, st):
        x, lo, hi, width = dbl(c[0]), c[1], c[2], c[3]
        return [('rounded-and-saturated-to-%d-bits' % k, z3.Implies(width == k, r == z3.substitute(to_int(x, lo, hi, signed, trunc), (width, z3.BitVecVal(k, 64))))) for k in (8, 16, 32, 64)]
    return BVC(fn, setup, post, pre=pre, models=SCALAR, label='convertIntFrom%s<%s, %s>' % ('FP' if lam else 'Double', 'TRUNCATE' if trunc else 'ROUND', 'int64_t' if signed else 'uint64_t'))


def num(w, k):
    return dbl(w) if k == 'f' else z3.fpSignedToFP(RNE, w, F64) if k == 's' else z3.fpUnsignedToFP(RNE, w, F64)


def one(e, st):
    w = z3.BitVec('w', 64)
    return [w], w


def c_nonzero(k):
    return BVC('vf_nonzero_' + k, one, lambda w, r, e, st: [('one-iff-not-zero', r == z3.If(z3.fpIsZero(dbl(w)) if k == 'f' else w == 0, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)))], models=SCALAR, label='isWideNonZero<%s>' % {'f': 'double', 's': 'int64_t', 'u': 'uint64_t'}[k])


def c_dbl(k):
    return BVC('vf_dbl_' + k, one, lambda w, r, e, st: [('nearest-double', r == num(w, k))], models=SCALAR, label='wideToDouble<%s>' % {'f': 'double', 's': 'int64_t', 'u': 'uint64_t'}[k])


CL = {'f': 'd', 's': 'l', 'u': 'm'}


def less(k, a, b):
    return z3.fpLT(dbl(a), dbl(b)) if k == 'f' else a < b if k == 's' else z3.ULT(a, b)


def c_clip(k):
    def setup(e, st):
        lo, hi, n = z3.BitVecs('lo hi n', 64)
        p = e.alloc(st, 16)
        e.store(st, p, 8, lo)
        e.store(st, BP(p.obj, 8), 8, hi)
        return [p, n], (lo, hi, n)

    def post(c, r, e, st):
        lo, hi, n = c
        return [('below', z3.Implies(less(k, n, lo), r == lo)), ('above', z3.Implies(z3.And(z3.Not(less(k, n, lo)), less(k, hi, n)), r == hi)), ('within', z3.Implies(z3.And(z3.Not(less(k, n, lo)), z3.Not(less(k, hi, n))), r == n))]
    return BVC('_ZZZN9onnx_mlir19ElementsAttrBuilder4clipEN4mlir12ElementsAttrENS_7WideNumES3_ENK3$_0clI%sEEDaT_ENKUlS3_E_clES3_' % CL[k], setup, post, models=SCALAR, label='clip element (%s)' % k)


def c_sat(k):
    def setup(e, st):
        m, n = z3.BitVecs('m n', 64)
        p = e.alloc(st, 8)
        e.store(st, p, 8, m)
        return [p, n], (m, n)

    def pre(c):
        return [z3.fpGT(dbl(c[0]), z3.FPVal(0.0, F64)), z3.Not(z3.fpIsInf(dbl(c[0]))), z3.Not(z3.fpIsNaN(dbl(c[0])))]

    def post(c, r, e, st):
        m, x = dbl(c[0]), num(c[1], k)
        return [('saturated', z3.Implies(z3.Not(z3.fpIsNaN(x)), dbl(r) == z3.If(z3.fpGT(x, m), m, z3.If(z3.fpLT(x, -m), -m, x)))), ('nan-stays-nan', z3.Implies(z3.fpIsNaN(x), z3.fpIsNaN(dbl(r))))]
    return BVC('_ZZZN9onnx_mlir19ElementsAttrBuilder19castToFPElementTypeEN4mlir12ElementsAttrENS1_9FloatTypeEbENK3$_0clI%sEEDaT_ENKUlNS_7WideNumEE_clES7_' % CL[k], setup, post, pre=pre, models=SCALAR, label='saturating cast element (%s)' % k)


def c_tofp(k):
    def setup(e, st):
        n = z3.BitVec('n', 64)
        return [e.alloc(st, 8), n], n
    return BVC('_ZZZN9onnx_mlir19ElementsAttrBuilder19castToFPElementTypeEN4mlir12ElementsAttrENS1_9FloatTypeEbENK3$_0clI%sEEDaT_ENKUlNS_7WideNumEE0_clES7_' % CL[k], setup, lambda n, r, e, st: [('nearest-double', dbl(r) == num(n, k))], models=SCALAR, label='cast element to floating point (%s)' % k)


def extra_obligations(tier, tmp, budget):
    src = [(INST, ['vf_', 'convertInt', 'wideCast', 'isWideNonZero', 'wideToDouble', 'WideNum::', 'ElementsAttrBuilder::c', 'ElementsAttrBuilder4clip', 'castToFPElementType', 'bits(', 'wide('])]
    cs = [c_conv(t, s, l) for t in (True, False) for s in (True, False) for l in (False, True)] + [f(k) for f in (c_nonzero, c_dbl, c_clip, c_sat) for k in 'fsu'] + [c_tofp(k) for k in 'su'] + \
         [BVC('vf_cast_' + k, one, lambda w, r, e, st: [('same-bits', r == w)], models=SCALAR, label='wideCast ' + k) for k in ('us', 'su')]
    return irbv.verify([('element functions', src, [], cs)], budget, 60 if tier == 'quick' else 300) + [{'group': 'lemmas', 'fn': 'the shares of the threads', 'obls': [irbv.decide(j) for j in share_lemmas()]}]


# ---- functionTransformer: one thread's share of the elements (the instance made for clip of signed integers)
WORK = '_ZZZN9onnx_mlir19ElementsAttrBuilder19functionTransformerIZZNS0_4clipEN4mlir12ElementsAttrENS_7WideNumES4_ENK3$_0clIlEEDaT_EUlS4_E_EESt8functionIFvN4llvm15MutableArrayRefIS4_EEEES7_ENKUlSC_E_clESC_ENKUlmbE0_clEmb'
CLIP = '_ZZZN9onnx_mlir19ElementsAttrBuilder4clipEN4mlir12ElementsAttrENS_7WideNumES3_ENK3$_0clIlEEDaT_ENKUlS3_E_clES3_'
FUN = z3.Function('FUN', I, I)
T = z3.Int('threads')
BEGIN, END = ['__begin%d' % k for k in range(9)], ['__end%d' % k for k in range(9)]


def m_threads(eng, st, fr, i, a):
    return T


def m_fun(eng, st, fr, i, a):
    r = FUN(a[1])
    eng.assume(st, And(r >= -(1 << 63), r < (1 << 63)))
    return r


def m_floor(eng, st, fr, i, a):
    return z3.ToReal(z3.ToInt(a[0]))


def tile(n, t):
    """where the share of thread t begins"""
    q, r = n / T, n % T
    return t * q + z3.If(t < r, t, r)


def tile_facts(n, t):
    q, r = n / T, n % T
    return [T >= 1, T < (1 << 31), z3.Implies(n >= 0, And(n == q * T + r, q >= 0, r >= 0, r < T, q <= n)), z3.Implies(And(t >= 0, t < T, q >= 0), And(t * q >= 0, (t + 1) * q == t * q + q, (t + 1) * q <= T * q))]


def share_lemmas():
    """the shares tile [0, n): the first begins at 0, the last ends at n, each ends where the next begins (by definition) and none is negative"""
    n, t, t2 = z3.Ints('n t t2')
    out = []
    for name, goal in (('first-begins-at-zero', tile(n, z3.IntVal(0)) == 0), ('last-ends-at-n', tile(n, T) == n), ('ordered', tile(n, t) <= tile(n, t + 1)), ('within', And(tile(n, t) >= 0, tile(n, t + 1) <= n))):
        s = z3.Solver()
        s.add(n >= 0, t >= 0, t < T, *tile_facts(n, t))
        s.add(z3.Not(goal))
        out.append(('lemma:' + name, s.to_smt2(), 60))
    return out


def c_work():
    def parts(v):
        o = v if v.old is None else v.old
        c = o.arg('this')
        fb, fun = v.fld(c, 0, 'ptr'), v.fld(c, 8, 'ptr')
        z = lambda p: Ptr(p.obj, 0)                    # offset 0 is required in pre
        data, cp = v.fld(z(fb), 0, 'ptr'), v.fld(z(fb), 8, 'ptr')
        v.fld(z(cp), 0, 'ptr')
        return c, fb, fun, data, cp, v.fld(z(data), 0, 'ptr'), Z(v.fld(z(data), 8, 'i64'))

    def share(v):
        n = parts(v)[6]
        t, par = Z(v.arg('threadNumber')), v.arg('parallel')
        par = par if z3.is_bool(par) else Z(par) != 0
        return z3.If(par, tile(n, t), 0), z3.If(par, tile(n, t + 1), n)

    def pre(v):
        c, fb, fun, data, cp, p, n = parts(v)
        t = Z(v.arg('threadNumber'))
        return [v.valid(c, 16), v.valid(fb, 16), v.valid(data, 16), v.valid(cp, 8)] + [And(Z(x.obj) > 0, Z(x.obj) < Z(v.st.next), Z(x.off.expr()) == 0) for x in (c, fb, data, cp)] + [n >= 0, n < (1 << 31), t >= 0, t < T, Z(p.off.expr()) == 0, Z(p.obj) > 0, Z(p.obj) < Z(v.st.next),
                v.valid(p, 8 * n), And(*[Z(p.obj) != Z(x.obj) for x in (c, fb, data, cp, fun)])] + tile_facts(n, t)

    def done(v, k):
        p = parts(v.old)[5]
        b, e = share(v.old)
        A0, A = v.old.inner('i64', p), v.inner('i64', p)
        return forall(k_, A[k_] == z3.If(And(k_ >= b, k_ < k), FUN(A0[k_]), A0[k_]), A[k_])

    def inv(v):
        p, n = parts(v.old)[5:]
        b, e = share(v.old)
        x, y = v.anyvar(*BEGIN), v.anyvar(*END)
        xo = Z(x.off.expr())
        return [('bounds', And(b >= 0, b <= e, e <= n)), ('walk', And(Z(x.obj) == Z(p.obj), Z(y.obj) == Z(p.obj), xo % 8 == 0, xo >= 8 * b, xo <= 8 * e, Z(y.off.expr()) == 8 * e)), ('done-so-far', done(v, xo / 8))]
    return Contract(WORK, pre, lambda v: [('own-share-only', done(v, share(v.old)[1]))], mods=lambda v: [(parts(v)[5], ('i64',))], frees=lambda v: [], allocs=False,
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.anyvar(*END).off.expr()) - Z(v.anyvar(*BEGIN).off.expr()), writes=lambda v: [('i64', parts(v.old)[5])])},
                    opts={'overflow': 'assume', 'unsigned_nowrap': True, 'fp': 'real', 'copy_kinds': {8: 'i64'}})


# ---- combine, where: the element-wise loops over two broadcast operands (C13's contract of the walk)
import c13
from c13 import It, SUF, PS, zero_walk
from smallvec import vec, begin
COMB = z3.Function('COMB', I, I, I)
x_ = z3.Int('x')
Z0 = lambda p: Ptr(p.obj, 0)                    # used where offset 0 is required in the precondition


def i64_range(x):
    return And(x >= -(1 << 63), x < (1 << 63))


def m_comb(eng, st, fr, i, p, a):
    r = COMB(a[0], a[1])
    eng.assume(st, i64_range(r))
    return r


class Closure:
    """what the loop's closure holds: references to array buffers, the shape, stride vectors"""
    def __init__(self, v, nums, shape, vecs, size, extra=()):
        o = v if v.old is None else v.old
        self.v, self.c, self.size = v, o.arg('this'), size
        ld = lambda off: v.fld(self.c, off, 'ptr')
        self.dp, self.dn = o.arg('dstNums.coerce0'), Z(o.arg('dstNums.coerce1'))
        self.bufs = [ld(x) for x in nums]
        self.nums = [(v.fld(Z0(b), 24, 'ptr'), Z(v.fld(Z0(b), 32, 'i64'))) for b in self.bufs]
        self.sref = ld(shape)
        self.sp, self.n = v.fld(Z0(self.sref), 0, 'ptr'), Z(v.fld(Z0(self.sref), 8, 'i64'))
        self.svs = [ld(x) for x in vecs]
        self.vs = [vec(v, Z0(x)) for x in self.svs]
        self.vb = [begin(v, Z0(x)) for x in self.svs]
        self.ex = [ld(x) for x in extra]
        for e in self.ex:
            v.fld(Z0(e), 0, 'ptr')
        self.A = v.inner('i64', self.sp)
        self.N = SUF(self.A, self.n, 0)

    def pre(self):
        v = self.v
        low = lambda p: And(Z(p.obj) > 0, Z(p.obj) < Z(v.st.next), Z(p.off.expr()) == 0)
        r = [v.valid(self.c, self.size), low(self.c), v.valid(self.sref, 16), low(self.sref), self.n >= 0, self.n < (1 << 31)]
        r += [And(v.valid(b, 40), low(b)) for b in self.bufs] + [And(v.valid(x, 16), low(x)) for x in self.svs] + [And(v.valid(x, 8), low(x)) for x in self.ex]
        arr = lambda p, n: And(n >= 0, Z(p.off.expr()) == 0, Z(p.obj) >= 0, Z(p.obj) < Z(v.st.next), z3.Implies(n > 0, And(v.alive(p), Z(p.obj) > 0, v.size(p) >= 8 * n)))
        r += [arr(self.sp, self.n)] + [arr(p, n) for p, n in self.nums]
        for (S, m, ok), b in zip(self.vs, self.vb):
            r += [ok, m == self.n, arr(b, m), forall(k_, z3.Implies(And(k_ >= 0, k_ < self.n), S[k_] >= 0), S[k_])]
        r += [forall(k_, z3.Implies(And(k_ >= 0, k_ < self.n), self.A[k_] > 0), self.A[k_])]
        others = [self.c, self.sref, self.sp] + self.bufs + self.svs + self.vb + self.ex + [p for p, _ in self.nums]
        r += [arr(self.dp, self.dn), self.dn == self.N] + [Z(self.dp.obj) != Z(x.obj) for x in others]
        for (S, _, _), (p, n) in zip(self.vs, self.nums):
            r.append(forall(x_, z3.Implies(And(x_ >= 0, x_ < self.N), And(PS(self.A, S, x_, self.n) >= 0, PS(self.A, S, x_, self.n) < n)), PS(self.A, S, x_, self.n)))
        return r


def c_elementwise(fn, mk, value, before=None, opts={}):
    """dst[k] = value(element of every operand at position k) for every k, in any order of axes"""
    def done(v, k):
        c = mk(v.old)
        D = v.inner('i64', c.dp)
        return forall(x_, z3.Implies(And(x_ >= 0, x_ < k), D[x_] == value(v, c, x_)), D[x_])

    def bn(v):
        return v.anyvar(*BEGIN)

    def inv(v):
        c = mk(v.old)
        i, e = It(v, bn(v), 2), It(v, v.anyvar(*END), 2)
        i0 = It(v.entry, bn(v.entry), 2)
        r = [('walk-%d' % k, g) for k, g in enumerate(i.ok())] + i.at(i.f) + [('same-walk', And(i.same(i0), same_ptr(i.shp, c.sp), i.n == c.n, *[same_ptr(a, b) for a, b in zip(i.str, c.vb[-2:])])), ('range', And(i.f >= 0, i.f <= c.N, e.f == c.N)), ('own-index', And(Z(i.ib.obj) >= Z(v.old.st.next))), ('done-so-far', done(v, i.f))]
        if before:
            D = v.inner('i64', c.dp)
            r.append(('still-to-do', forall(x_, z3.Implies(And(x_ >= i.f, x_ < c.N), D[x_] == before(c, x_)), D[x_])))
        return r

    def writes(v):
        i = It(v, bn(v), 2)
        return [('i64', i.t), ('i64', i.ib), ('i64', mk(v.old).dp)]

    def setup(v):
        c = mk(v)
        for S, _, _ in c.vs:
            v.eng.assume(v.st, zero_walk(c.A, S, c.n))
    o = {'overflow': 'assume', 'unsigned_nowrap': True, 'copy_kinds': {8: 'i64'}}
    o.update(opts)
    return Contract(fn, lambda v: mk(v).pre(), lambda v: [('every-element', done(v, mk(v.old).N))], mods=lambda v: [(mk(v).dp, ('i64',))], frees=lambda v: [], allocs=bool(before), setup=setup,
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: mk(v.old).N - It(v, bn(v), 2).f, writes=writes)}, opts=o)


def c_combine():
    def mk(v):
        return Closure(v, (0, 8), 16, (24, 32), 48, (40,))

    def value(v, c, k):
        a = [v.old.inner('i64', p)[PS(c.A, S, k, c.n)] for (p, _), (S, _, _) in zip(c.nums, c.vs)]
        return COMB(*a)
    return c_elementwise('_ZZN9onnx_mlir19ElementsAttrBuilder7combineEN4mlir12ElementsAttrES2_NS1_10ShapedTypeEPFNS_7WideNumES4_S4_EENK3$_0clEN4llvm15MutableArrayRefIS4_EE', mk, value, opts={'indirect': m_comb})


def m_restride(eng, st, fr, i, a):
    """restrideArray<WideNum> for strides of full rank: C13's contract of restrideArray for elements of 8 bytes"""
    v = View(eng, st, None, {})
    hp, n, sp, m, fp, fn, d = a
    dp, dn = v.fld(d, 0, 'ptr'), Z(v.fld(d, 8, 'i64'))
    n, m, fn = Z(n), Z(m), Z(fn)
    A, S, F = v.inner('i64', hp), v.inner('i64', sp), v.inner('i64', fp)
    N = SUF(A, n, 0)
    for k, g in enumerate([m == n, forall(k_, z3.Implies(And(k_ >= 0, k_ < n), And(A[k_] > 0)), A[k_]), forall(k_, z3.Implies(And(k_ >= 0, k_ < n), S[k_] >= 0), S[k_]), And(dn >= N, Z(dp.off.expr()) == 0, *[Z(dp.obj) != Z(x.obj) for x in (hp, sp, fp)]),
                           forall(x_, z3.Implies(And(x_ >= 0, x_ < N), And(PS(A, S, x_, n) >= 0, PS(A, S, x_, n) < fn)), PS(A, S, x_, n))]):
        eng.oblige(st, 'call-pre', 'restrideArray.%d' % k, g, i.get('line'))
    eng.record(st, dp, 'i64')
    D = eng.inner_havoc(st, 'i64', dp.obj)
    eng.assume(st, forall(x_, z3.Implies(And(x_ >= 0, x_ < N), D[x_] == F[PS(A, S, x_, n)]), D[x_]))


RESTRIDE = {'_ZN9onnx_mlir13restrideArrayINS_7WideNumEEEvN4llvm8ArrayRefIlEES4_NS3_IT_EENS2_15MutableArrayRefIS5_EE': m_restride}


def c_where():
    def mk(v):
        return Closure(v, (16, 24, 32), 0, (8, 40, 48), 56)

    def el(v, c, j, k):
        return v.inner('i64', c.nums[j][0])[PS(c.A, c.vs[j][0], k, c.n)]

    def value(v, c, k):
        return z3.If(el(v.old, c, 0, k) != 0, el(v.old, c, 1, k), el(v.old, c, 2, k))
    return c_elementwise('_ZZN9onnx_mlir19ElementsAttrBuilder5whereEN4mlir12ElementsAttrES2_S2_NS1_10ShapedTypeEENK3$_0clEN4llvm15MutableArrayRefINS_7WideNumEEE', mk, value, before=lambda c, k: el(c.v, c, 0, k))


def groups(tier):
    EAB = 'src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp'
    S = [(EAB, ['functionTransformer', 'ArrayRef', 'iterator_range', 'make_range', 'clip', 'WideNum'])]
    W = [(EAB, ['ElementsAttrBuilder7combine', 'ElementsAttrBuilder::combine', 'ElementsAttrBuilder::where', 'ElementsAttrBuilder5where', 'restrideArray', 'Strides', 'SmallVector', 'ArrayRef', 'ArrayBuffer', 'std::array', 'WideNum'])]
    return [Group('transform', S, [c_work()], models={'_ZN4mlir11MLIRContext13getNumThreadsEv': m_threads, CLIP: m_fun, 'llvm.floor.*': m_floor}),
            Group('elementwise', W, [c_combine(), c13.c_next(2)], models={**RESTRIDE, **c13.VEC, **c13.MLIR})]


def natives(tier):
    return c14.natives(tier)
