import z3
import irbv, irvc
from irbv import BVC, P, S
from suite import Group, Native
PROP = 'C10'
EXPLAIN = ('Bit-precise contracts: for all 2^16 (2^32, 2^64) inputs the result of each conversion equals IEEE narrowing/widening as defined by the SMT theory of floating point, '
           'round to nearest even; the half and bfloat classes and the libgcc-style entry points are verified against the same definitions, DLFloat16 against its own rule. '
           'Round-trip identity is a lemma over the two contracts. The four 8-bit formats go through llvm::APFloat (compiled LLVM code): bounded monitor, exhaustive for widening.')
ASSUMPTIONS = ['compiled without -mf16c / __fp16 (the portable branch that is built here)', 'float arithmetic is IEEE binary32 round-to-nearest-even without flush-to-zero',
               'NaN payloads are not specified', '8-bit formats: llvm::APFloat is library code outside the contracts, monitored only']
TRUSTED = ['SMT-LIB floating point semantics as the definition of IEEE conversion']
H, B16, F, D = z3.Float16(), z3.FPSort(8, 8), z3.Float32(), z3.Float64()
RNE = z3.RNE()


def bits_in(w, name='u'):
    def setup(e, st):
        x = z3.BitVec(name, w)
        return [x], x
    return setup


def fp_in(sort, w):
    def setup(e, st):
        b = z3.BitVec('bits', w)
        x = z3.fpBVToFP(b, sort)
        return [x], x
    return setup


def widens(sort, to=F):
    return lambda x, r, e, st: [('widening-exact', r == z3.fpFPToFP(RNE, z3.fpBVToFP(x, sort), to))]


def narrows(sort):
    return lambda x, r, e, st: [('nearest-even', z3.fpBVToFP(r, sort) == z3.fpFPToFP(RNE, x, sort))]


def two(e, st):
    a, b = z3.BitVec('u', 16), z3.BitVec('v', 16)
    return [a, b], (a, b)


def eqs(sort, neg):
    def post(c, r, e, st):
        q = z3.fpEQ(z3.fpBVToFP(c[0], sort), z3.fpBVToFP(c[1], sort))
        return [('equality-is-by-value', r == (z3.Not(q) if neg else q))]
    return post


def nan(sort):
    return lambda x, r, e, st: [('is-nan', r == z3.fpIsNaN(z3.fpBVToFP(x, sort)))]


# contracts of the C conversions, used by their C++ callers
def cc(sort, wide):
    def mdl(e, st, fr, i, a):
        if wide:
            return z3.fpFPToFP(RNE, z3.fpBVToFP(a[0], sort), F)
        r = irbv.fresh('narrowed', 16)
        st.pc.append(z3.fpBVToFP(r, sort) == z3.fpFPToFP(RNE, a[0], sort))
        return r
    return mdl


def swap16(e, st, fr, i, a):
    return z3.Concat(z3.Extract(7, 0, a[0]), z3.Extract(15, 8, a[0]))


CALLEES = {'htons': swap16, 'ntohs': swap16, 'om_f16_to_f32': cc(H, True), 'om_f32_to_f16': cc(H, False), 'om_bf16_to_f32': cc(B16, True), 'om_f32_to_bf16': cc(B16, False)}


def to_i64(x, r, e, st):
    f = z3.fpBVToFP(x, H)
    return [('truncates-the-value', z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(f), z3.fpIsInf(f))), r == z3.fpToSBV(z3.RTZ(), z3.fpFPToFP(RNE, f, F), z3.BitVecSort(64))))]


# DLFloat16: 1 sign, 6 exponent (bias 31), 9 fraction bits; no subnormals, all-ones is NaN/infinity, ties away from zero
def dl_value(u):
    """the float a DLFloat16 pattern denotes (bits)"""
    e, f, s = z3.Extract(14, 9, u), z3.Extract(8, 0, u), z3.Extract(15, 15, u)
    mag = z3.Extract(14, 0, u)
    bits = z3.Concat(s, z3.ZeroExt(2, e) + z3.BitVecVal(96, 8), f, z3.BitVecVal(0, 14))
    return z3.If(mag == 0, z3.Concat(s, z3.BitVecVal(0, 31)), bits), mag == 0x7FFF


def dl_to(x, r, e, st):
    v, n = dl_value(z3.Extract(15, 0, x))
    return [('widening-exact', z3.If(n, z3.fpIsNaN(r), r == z3.fpBVToFP(v, F)))]


def dl_from(x, r, e, st):
    """r has the sign of x; the magnitude is the nearest one, ties away; below half of the least it is zero; above the greatest it is NaN/infinity"""
    b = z3.BitVec('bits', 32)
    mag = z3.ZeroExt(2, z3.Extract(30, 0, b))     # the ordering of magnitudes is the ordering of their patterns
    # magnitude in units of the dlf16 pattern with 14 more bits: (biased exponent, fraction)
    t = mag - z3.BitVecVal(96 << 23, 33)          # rebias (127 - 31 = 96)
    rnd = t + z3.BitVecVal(1 << 13, 33)
    q = z3.Extract(14, 0, rnd >> 14)
    sign = z3.Extract(31, 31, b)
    over = z3.UGE(z3.Extract(30, 0, b), z3.BitVecVal(((63 + 96) << 23) | (510 << 14) | (1 << 13), 31))
    under = rnd < 0
    want = z3.If(over, z3.BitVecVal(0x7FFF, 15), z3.If(under, z3.BitVecVal(0, 15), q))
    return [('nearest-ties-away', r == z3.Concat(sign, want))]


def dl_setup(e, st):
    b = z3.BitVec('bits', 32)
    return [z3.fpBVToFP(b, F)], b


def lemma(nm, pc, goal):
    s = z3.Solver()
    s.add(*pc)
    s.add(z3.Not(goal))
    return nm, s.to_smt2()


def extra_obligations(tier, tmp, budget):
    c = [BVC('om_f16_to_f32', bits_in(16), widens(H)), BVC('om_f32_to_f16', fp_in(F, 32), narrows(H)),
         BVC('om_bf16_to_f32', bits_in(16), widens(B16)), BVC('om_f32_to_bf16', fp_in(F, 32), narrows(B16))]
    rt = [BVC('__extendhfsf2', bits_in(16), widens(H), models=CALLEES), BVC('__gnu_h2f_ieee', bits_in(16), widens(H), models=CALLEES),
          BVC('__gnu_f2h_ieee', fp_in(F, 32), narrows(H), models=CALLEES), BVC('__truncsfhf2', fp_in(F, 32), narrows(H), models=CALLEES),
          BVC('__truncdfhf2', fp_in(D, 64), narrows(H), models=CALLEES)]
    k = [BVC('vf_h_to', bits_in(16), widens(H), models=CALLEES, label='float_16::toFloat'), BVC('vf_h_from', fp_in(F, 32), narrows(H), models=CALLEES, label='float_16::fromFloat'),
         BVC('vf_h_nan', bits_in(16), nan(H), label='float_16::isNaN'), BVC('vf_h_eq', two, eqs(H, False), models=CALLEES, label='float_16::operator=='), BVC('vf_h_ne', two, eqs(H, True), models=CALLEES, label='float_16::operator!='),
         BVC('vf_b_to', bits_in(16), widens(B16), models=CALLEES, label='bfloat_16::toFloat'), BVC('vf_b_from', fp_in(F, 32), narrows(B16), models=CALLEES, label='bfloat_16::fromFloat'),
         BVC('vf_b_nan', bits_in(16), nan(B16), label='bfloat_16::isNaN'), BVC('vf_b_eq', two, eqs(B16, False), models=CALLEES, label='bfloat_16::operator=='), BVC('vf_b_ne', two, eqs(B16, True), models=CALLEES, label='bfloat_16::operator!='),
         BVC('vf_h_i64', bits_in(16), to_i64, models=CALLEES, label='float_16::operator int64_t', ub=()),
         BVC('vf_h_f64', bits_in(16), widens(H, D), models=CALLEES, label='float_16::operator double'), BVC('vf_b_f64', bits_in(16), widens(B16, D), models=CALLEES, label='bfloat_16::operator double'),
         BVC('vf_d_to', bits_in(32), dl_to, pre=lambda x: [z3.ULT(x, 1 << 16)], models=CALLEES, label='NNP1::convert (to float)'),
         BVC('vf_d_from', dl_setup, lambda b, r, e, st: dl_from(b, r, e, st), models=CALLEES, label='NNP1::convert (from float)')]
    res = irbv.verify([('SmallFPConversion.c', [('src/Support/SmallFPConversion.c', ['.'])], [], c),
                       ('OMTensor.c', [('src/Runtime/OMTensor.c', ['^__'])], [], rt),
                       ('SmallFP.hpp / DLF16Conversion.hpp', [('/verif/native/smallfp_inst.cpp', ['vf_', 'SmallFP', 'float_16', 'NNP1'])], [], k)], budget, 60 if tier == 'quick' else 400)
    u = z3.BitVec('u', 16)
    r = z3.BitVec('r', 16)
    obls = []
    for nm, s in (('half', H), ('bfloat', B16)):
        x = z3.fpBVToFP(u, s)
        n, txt = lemma('lemma:round-trip-%s' % nm, [z3.Not(z3.fpIsNaN(x)), z3.fpBVToFP(r, s) == z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, x, F), s)], r == u)
        obls.append(irbv.decide((n, txt, 60)))
        n, txt = lemma('lemma:nan-stays-nan-%s' % nm, [z3.fpIsNaN(x), z3.fpBVToFP(r, s) == z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, x, F), s)], z3.fpIsNaN(z3.fpBVToFP(r, s)))
        obls.append(irbv.decide((n, txt, 60)))
    res.append({'group': 'lemmas', 'fn': 'round trip over the contracts', 'obls': obls})
    return res


# ---- arrays: element-wise use of the scalar conversion (which is under contract above)
F32s = z3.Float32()
DLN = z3.Function('dlf16_of', F32s, z3.IntSort())
DLW = z3.Function('dlf16_value', z3.IntSort(), F32s)


def m_ctor(eng, st, fr, i, a):
    from irvc import FSORT
    v = eng.raw_load(st, a[1], 'float')
    eng.raw_store(st, a[0], 'i16', DLN(v))


def m_ctor_int(eng, st, fr, i, a):
    v = eng.raw_load(st, a[1], 'i32')
    eng.raw_store(st, a[0], 'i16', eng.wrap(st, v, 16))


def m_uint(eng, st, fr, i, a):
    v = eng.raw_load(st, a[0], 'i16')
    st.pc.append(z3.And(irvc.Z(v) >= -32768, irvc.Z(v) <= 32767))
    return v


def m_conv(eng, st, fr, i, a):
    return DLW(irvc.Z(eng.raw_load(st, a[0], 'i16')))


LIM = (1 << 32) * (1.0 + 510.0 / 512.0)


def clip(x):
    lo, hi = z3.FPVal(-LIM, F32s), z3.FPVal(LIM, F32s)
    y = z3.If(z3.fpLT(x, lo), lo, x)
    return z3.If(z3.fpGT(y, hi), hi, y)


def arrays(name, src, sk, dst, dk, f):
    from irvc import Contract, Loop, Z, And
    from omt import forall, k_

    def es(k):
        return {'f32': 4, 'i16': 2}[k]

    def pre(v):
        n, a, b = Z(v.arg('num_fields')), v.arg(src), v.arg(dst)
        return [And(n >= 0, n < 1 << 40), v.valid(a, es(sk) * n), v.valid(b, es(dk) * n), Z(a.obj) != Z(b.obj), Z(a.off.expr()) == 0, Z(b.off.expr()) == 0]

    def done(v, upto):
        o = v.old
        return forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < upto), v.inner(dk, o.arg(dst))[k_] == f(o.inner(sk, o.arg(src))[k_])))

    def inv(v):
        i = Z(v.var('i'))
        return [('range', And(i >= 0, i <= Z(v.old.arg('num_fields')))), ('converted', done(v, i)),
                ('source-kept', v.inner(sk, v.old.arg(src)) == v.old.inner(sk, v.old.arg(src)))]
    return Contract(name, pre, lambda v: [('every-element-converted', done(v, Z(v.old.arg('num_fields')))), ('count', Z(v.ret) == Z(v.old.arg('num_fields')))],
                    mods=lambda v: [(v.arg(dst), (dk,))], frees=lambda v: [],
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.old.arg('num_fields')) - Z(v.var('i')))})


def groups(tier):
    return [Group('Convert.cpp', [('src/Accelerators/NNPA/Support/Stickify/Convert.cpp', ['dlf16', 'NNP1'])],
                  [arrays('fp32_to_dlf16', 'fp32_data', 'f32', 'dflt16_data', 'i16', lambda x: DLN(clip(x))),
                   arrays('dlf16_to_fp32', 'dflt16_data', 'i16', 'fp32_data', 'f32', lambda x: DLW(x))],
                  models={'NNP1::NNP1(float const&)': m_ctor, 'NNP1::NNP1(int const&)': m_ctor_int, 'NNP1::uint() const': m_uint, 'NNP1::convert(unsigned int*) const': m_conv})]


def natives(tier):
    return [Native('small-floats', ['native/smallfp.cpp', 'src/Support/SmallFP.cpp', 'src/Accelerators/NNPA/Support/Stickify/Convert.cpp', 'src/Support/SmallFPConversion.c', 'src/Runtime/OMTensor.c', 'src/Runtime/OnnxDataType.c'],
                   'widening: every pattern of every format; narrowing: every value, midpoint and neighbour of every format and random floats (thorough: every 17th float, all 2^32 for 8-bit formats)', cxx=True,
                   libs=['-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-Wl,-rpath,/usr/lib/llvm-20/lib', '-lm'],
                   quick=['n=400000'], thorough=['n=4000000', 'step=5'], deep=['n=3000000', 'step=1021'], parts=8)]
