import os
import z3
import irvc
import irbv
from irbv import BVC, P, S
from suite import Group, Native
import c10
PROP = 'C14'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLAIN = ('A table of the 17 element types (ONNX tag, bits, bytes, signed / unsigned / floating, IEEE format) is the specification. Proved bit for bit, for every tag and every 64-bit pattern: the predicates, widths, wide type and ONNX number of a BType; '
           'WideNum::widen is sign- or zero-extension or the exact value in double; WideNum::narrow keeps the low bits, maps non-zero to true, or rounds through single to the target format; narrow(widen(x)) == x (a NaN stays a NaN); '
           'to<T>/from<T>, pack/unpack, toAPInt/fromAPInt carry the value for each kind of tag. widenArray and narrowArray are proved over those contracts for all 17 types and every length: element k of the result is the conversion of element k, nothing else written. '
           'How DisposableElementsAttr stores, transforms, splats and hands out elements through those functions is monitored (bounded) against a plain element-by-element reference, with ordinary DenseElementsAttr as oracle.')
ASSUMPTIONS = ['an 8-bit float narrowed after widening is the same pattern (property C10, monitored there over every pattern); the 8-bit conversions themselves are uninterpreted functions here',
               'a float or double converted to an integer by to<T>/from<T> is in the range of that integer (C++ leaves the rest undefined)', 'source and target of the array functions are separate blocks; a bool is stored as 0 or 1']
TRUSTED = ['llvm::APInt single-word constructors and accessors are translated, not trusted; mlir::Type <-> BType queries (MLIR casting) are only monitored']
H, B16, F, D = c10.H, c10.B16, c10.F, c10.D
RNE, RTZ = c10.RNE, z3.RTZ()
# the table of element types: ONNX tag, bits, bytes, kind (u, s, f), IEEE format when the 16-bit and wider floats
TYPES = {'BOOL': (9, 1, 1, 'u'), 'INT8': (3, 8, 1, 's'), 'UINT8': (2, 8, 1, 'u'), 'INT16': (5, 16, 2, 's'), 'UINT16': (4, 16, 2, 'u'), 'INT32': (6, 32, 4, 's'), 'UINT32': (12, 32, 4, 'u'),
         'INT64': (7, 64, 8, 's'), 'UINT64': (13, 64, 8, 'u'), 'DOUBLE': (11, 64, 8, 'f', D), 'FLOAT': (1, 32, 4, 'f', F), 'FLOAT16': (10, 16, 2, 'f', H), 'BFLOAT16': (16, 16, 2, 'f', B16),
         'FLOAT8E4M3FN': (17, 8, 1, 'f'), 'FLOAT8E4M3FNUZ': (18, 8, 1, 'f'), 'FLOAT8E5M2': (19, 8, 1, 'f'), 'FLOAT8E5M2FNUZ': (20, 8, 1, 'f')}
WIDE = {'u': 13, 's': 7, 'f': 11}
F8 = {n: (z3.Function('to_' + n, z3.BitVecSort(8), F), z3.Function('from_' + n, F, z3.BitVecSort(8))) for n in TYPES if n.startswith('FLOAT8')}
INST = 'native/widenum_inst.cpp'


def f8_models():
    m = {}
    for n, (to, fr) in F8.items():
        c = 'float_' + n[5:].lower()
        base = 'onnx_mlir::detail::SmallFPBase<onnx_mlir::%s, 8u>::' % c

        def mto(e, st, fr_, i, a, to=to):
            return to(e.load(st, a[0], 1))

        def mfrom(e, st, fr_, i, a, f=fr):
            return f(a[0])
        m[base + 'toFloat'] = mto
        m[base + 'fromFloat'] = mfrom
    return m


MODELS = {**c10.CALLEES, **f8_models()}


def tag_in(names):
    return lambda c: [z3.Or(*[c == TYPES[n][0] for n in names])]


def table(f):
    """value of f(name) for the tag"""
    def post(t, r, e, st):
        out = []
        for n, d in TYPES.items():
            w = f(d)
            out.append(('value-for-%s' % n, z3.Implies(t == d[0], r == w)))
        return out
    return post


def tags(e, st):
    t = z3.BitVec('tag', 32)
    return [t], t


def bits64(e, st):
    x = z3.BitVec('x', 64)
    return [x], x


def fits(n):
    """the 64-bit carrier of an element holds exactly the bits of the element"""
    b = TYPES[n][1]
    return lambda x: [] if b == 64 else [z3.LShR(x, b) == 0]


def low(x, b):
    return z3.Extract(b - 1, 0, x)


def ext(x, b, k):
    if b == 64:
        return x
    return z3.SignExt(64 - b, low(x, b)) if k == 's' else z3.ZeroExt(64 - b, low(x, b))


def value(n, x):
    """the double an element of a floating type denotes (a float when its format is an assumed contract)"""
    d = TYPES[n]
    if n in F8:
        return z3.fpFPToFP(RNE, F8[n][0](low(x, 8)), D)
    f = z3.fpBVToFP(low(x, d[1]), d[4])
    return f if d[4] is D else z3.fpFPToFP(RNE, f, D)


def widen_post(n):
    d = TYPES[n]

    def post(x, r, e, st):
        if d[3] == 'f':
            return [('widening-is-exact', z3.fpBVToFP(r, D) == value(n, x))]
        return [('sign-extended' if d[3] == 's' else 'zero-extended', r == ext(x, d[1], d[3]))]
    return post


def narrow_post(n):
    d = TYPES[n]

    def post(w, r, e, st):
        if d[3] == 'f':
            dbl = z3.fpBVToFP(w, D)
            if n == 'DOUBLE':
                return [('same-value', z3.fpBVToFP(r, D) == dbl)]
            f = z3.fpFPToFP(RNE, dbl, F)
            if n in F8:
                return [('narrowed-through-single', r == z3.ZeroExt(56, F8[n][1](f)))]
            if n == 'FLOAT':
                return [('nearest-even', z3.fpBVToFP(low(r, 32), F) == f), ('no-more-bits', z3.LShR(r, 32) == 0)]
            return [('narrowed-through-single', z3.fpBVToFP(low(r, 16), d[4]) == z3.fpFPToFP(RNE, f, d[4])), ('no-more-bits', z3.LShR(r, 16) == 0)]
        if n == 'BOOL':
            return [('nonzero-is-true', r == z3.If(w != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))]
        return [('low-bits', r == (w if d[1] == 64 else z3.ZeroExt(64 - d[1], low(w, d[1]))))]
    return post


def is_nan(n, x):
    return z3.fpIsNaN(value(n, x))


def trip_post(n):
    d = TYPES[n]

    def post(x, r, e, st):
        if d[3] == 'f':
            same = z3.Implies(z3.Not(is_nan(n, x)), r == x)
            if n in F8:
                to, fr = F8[n]
                same = z3.Implies(fr(to(low(x, 8))) == low(x, 8), same)      # C10: narrowing a widened 8-bit float gives it back (monitored exhaustively there)
                return [('round-trip', same)]
            return [('round-trip', same), ('nan-stays-nan', z3.Implies(is_nan(n, x), is_nan(n, r)))]
        return [('round-trip', r == x)]
    return post


def conv_to(T):
    def setup(e, st):
        t, w = z3.BitVec('tag', 32), z3.BitVec('w', 64)
        return [t, w], (t, w)

    def pre(c):
        t, w = c
        g = [z3.Or(*[t == d[0] for d in TYPES.values()])]
        if T in ('int64_t', 'uint64_t'):
            dbl = z3.fpBVToFP(w, D)
            lo, hi = (-2.0 ** 63, 2.0 ** 63) if T == 'int64_t' else (-1.0, 2.0 ** 64)
            g.append(z3.Implies(z3.Or(*[t == d[0] for d in TYPES.values() if d[3] == 'f']), z3.And(z3.fpLT(dbl, z3.FPVal(hi, D)), z3.fpGEQ(dbl, z3.FPVal(lo, D)) if T == 'int64_t' else z3.fpGT(dbl, z3.FPVal(lo, D)))))
        return g

    def post(c, r, e, st):
        t, w = c
        dbl = z3.fpBVToFP(w, D)
        out = []
        for k in 'usf':
            isk = z3.Or(*[t == d[0] for d in TYPES.values() if d[3] == k])
            if T == 'double':
                v = dbl if k == 'f' else z3.fpSignedToFP(RNE, w, D) if k == 's' else z3.fpUnsignedToFP(RNE, w, D)
            elif T == 'bool':
                v = (z3.Not(z3.fpIsZero(dbl)) if k == 'f' else w != 0)
            else:
                v = (z3.fpToSBV(RTZ, dbl, z3.BitVecSort(64)) if T == 'int64_t' else z3.fpToUBV(RTZ, dbl, z3.BitVecSort(64))) if k == 'f' else w
            out.append(('converts-the-value-%s' % {'u': 'unsigned', 's': 'signed', 'f': 'floating'}[k], z3.Implies(isk, r == v)))
        return out
    return BVC('vf_to_' + T, setup, post, pre=pre, models=MODELS, label='WideNum::to<%s>' % T)


def conv_from(T):
    def setup(e, st):
        t = z3.BitVec('tag', 32)
        x = z3.fpBVToFP(z3.BitVec('x', 64), D) if T == 'double' else z3.Bool('x') if T == 'bool' else z3.BitVec('x', 64)
        return [t, x], (t, x)

    def pre(c):
        t, x = c
        g = [z3.Or(*[t == d[0] for d in TYPES.values()])]
        if T == 'double':
            g.append(z3.Implies(z3.Or(*[t == d[0] for d in TYPES.values() if d[3] == 's']), z3.And(z3.fpLT(x, z3.FPVal(2.0 ** 63, D)), z3.fpGEQ(x, z3.FPVal(-2.0 ** 63, D)))))
            g.append(z3.Implies(z3.Or(*[t == d[0] for d in TYPES.values() if d[3] == 'u']), z3.And(z3.fpLT(x, z3.FPVal(2.0 ** 64, D)), z3.fpGT(x, z3.FPVal(-1.0, D)))))
        return g

    def post(c, r, e, st):
        t, x = c
        out = []
        for k in 'usf':
            isk = z3.Or(*[t == d[0] for d in TYPES.values() if d[3] == k])
            if T == 'double':
                v = z3.fpBVToFP(r, D) == x if k == 'f' else r == (z3.fpToSBV(RTZ, x, z3.BitVecSort(64)) if k == 's' else z3.fpToUBV(RTZ, x, z3.BitVecSort(64)))
            elif T == 'bool':
                v = z3.fpBVToFP(r, D) == z3.If(x, z3.FPVal(1.0, D), z3.FPVal(0.0, D)) if k == 'f' else r == z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            else:
                v = z3.fpBVToFP(r, D) == (z3.fpSignedToFP if T == 'int64_t' else z3.fpUnsignedToFP)(RNE, x, D) if k == 'f' else r == x
            out.append(('stores-the-value-%s' % {'u': 'unsigned', 's': 'signed', 'f': 'floating'}[k], z3.Implies(isk, v)))
        return out
    return BVC('vf_from_' + T, setup, post, pre=pre, models=MODELS, label='WideNum::from<%s>' % T)


def unpack(T):
    n = {'double': 'DOUBLE', 'int64_t': 'INT64', 'uint64_t': 'UINT64', 'bool': 'BOOL'}[T]

    def post(w, r, e, st):
        return [('unpacks-the-value', r == (z3.fpBVToFP(w, D) if T == 'double' else w != 0 if T == 'bool' else w))]

    def psetup(e, st):
        x = z3.fpBVToFP(z3.BitVec('x', 64), D) if T == 'double' else z3.Bool('x') if T == 'bool' else z3.BitVec('x', 64)
        return [x], x

    def ppost(x, r, e, st):
        return [('packs-the-value', z3.fpBVToFP(r, D) == x if T == 'double' else r == z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if T == 'bool' else r == x)]
    return [BVC('vf_unpack_' + T, bits64, post, models=MODELS, label='detail::unpack<%s>' % T), BVC('vf_pack_' + T, psetup, ppost, models=MODELS, label='detail::pack<%s>' % T)]


def is_kind(kinds):
    return table(lambda d: z3.BoolVal(d[3] in kinds))


def num(f):
    return table(lambda d: z3.BitVecVal(f(d), 32))


INTS = [n for n, d in TYPES.items() if d[3] != 'f']


def apint():
    def setup(e, st):
        t, w = z3.BitVec('tag', 8), z3.BitVec('w', 64)
        r, this = e.alloc(st, 16), e.alloc(st, 8)
        e.store(st, this, 8, w)
        return [r, this, t], (t, w, r)

    def pre(c):
        return [z3.Or(*[c[0] == TYPES[n][0] for n in INTS])]

    def post(c, r, e, st):
        t, w, p = c
        out = []
        for n in INTS:
            b = TYPES[n][1]
            out.append(('bits-of-%s' % n, z3.Implies(t == TYPES[n][0], z3.And(e.load(st, P(p.obj, 8), 4) == b, e.load(st, p, 8) == (w if b == 64 else z3.ZeroExt(64 - b, low(w, b)))))))
        return out

    def fsetup(b):
        def f(e, st):
            w, s = z3.BitVec('w', 64), z3.Bool('isSigned')
            x = e.alloc(st, 16)
            e.store(st, x, 8, w if b == 64 else z3.ZeroExt(64 - b, low(w, b)))
            e.store(st, P(x.obj, 8), 4, z3.BitVecVal(b, 32))
            return [x, s], (w, s)
        return f

    def fpost(b):
        return lambda c, r, e, st: [('sign-as-asked', r == z3.If(c[1], ext(c[0], b, 's'), ext(c[0], b, 'u')))]
    return [BVC('onnx_mlir::WideNum::toAPInt', setup, post, pre=pre)] + [BVC('onnx_mlir::WideNum::fromAPInt', fsetup(b), fpost(b), label='WideNum::fromAPInt (%d bits)' % b) for b in (1, 8, 16, 32, 64)]


def extra_obligations(tier, tmp, budget):
    bt = [BVC('vf_is_float', tags, is_kind('f'), pre=tag_in(TYPES), label='isFloatBType'), BVC('vf_is_int', tags, is_kind('us'), pre=tag_in(TYPES), label='isIntBType'),
          BVC('vf_is_iof', tags, is_kind('usf'), pre=tag_in(TYPES), label='isIntOrFloatBType'), BVC('vf_is_signed', tags, is_kind('s'), pre=tag_in(TYPES), label='isSignedIntBType'),
          BVC('vf_is_unsigned', tags, is_kind('u'), pre=tag_in(TYPES), label='isUnsignedIntBType'), BVC('vf_bits', tags, num(lambda d: d[1]), pre=tag_in(TYPES), label='bitwidthOfBType'),
          BVC('vf_bytes', tags, num(lambda d: d[2]), pre=tag_in(TYPES), label='bytewidthOfBType'), BVC('vf_wide', tags, num(lambda d: WIDE[d[3]]), pre=tag_in(TYPES), label='wideBTypeOfBType'),
          BVC('vf_onnx', tags, num(lambda d: d[0]), pre=tag_in(TYPES), label='onnxDataTypeOfBType'), BVC('vf_btype', tags, num(lambda d: d[0]), pre=tag_in(TYPES), label='btypeOfOnnxDataType')]
    nothing = lambda e, st: ([], None)
    el = []
    for n, d in TYPES.items():
        el += [BVC('vf_widen_' + n, bits64, widen_post(n), pre=fits(n), models=MODELS, label='WideNum::widen<%s>' % n), BVC('vf_narrow_' + n, bits64, narrow_post(n), models=MODELS, label='WideNum::narrow<%s>' % n),
               BVC('vf_trip_' + n, bits64, trip_post(n), pre=fits(n), models=MODELS, label='narrow(widen(x)) for %s' % n),
               BVC('vf_tag_' + n, nothing, lambda c, r, e, st, d=d: [('tag', r == d[0])], label='toBType<%s>' % n)]
    cv = [f(T) for T in ('double', 'int64_t', 'uint64_t', 'bool') for f in (conv_to, conv_from)] + [c for T in ('double', 'int64_t', 'uint64_t', 'bool') for c in unpack(T)]
    src = [(os.path.join(HERE, INST), ['vf_', 'WideNum', 'BType', 'SmallFP', 'float_', 'of<', 'raw<', 'APInt', 'llvm::'])]
    return irbv.verify([('BType', src, [], bt), ('WideNum', src, [], el), ('conversions', src, [], cv), ('APInt', src, [], apint())], budget, 60 if tier == 'quick' else 400)


# ---- arrays of elements: narrowArray / widenArray apply the scalar contract element by element and touch nothing else
from irvc import Contract, Loop, KSORT, I, And, Z, Ptr, Unsupported
from omt import forall, k_
import irvc as _irvc
CPP = {'BOOL': 'bool', 'INT8': 'signed char', 'UINT8': 'unsigned char', 'INT16': 'short', 'UINT16': 'unsigned short', 'INT32': 'int', 'UINT32': 'unsigned int', 'INT64': 'long', 'UINT64': 'unsigned long',
       'DOUBLE': 'double', 'FLOAT': 'float', **{n: 'onnx_mlir::float_16' for n in ['FLOAT16']}, 'BFLOAT16': 'onnx_mlir::bfloat_16', **{n: 'onnx_mlir::float_' + n[5:].lower() for n in F8}}


def kind(n):
    d = TYPES[n]
    return 'f64' if n == 'DOUBLE' else 'f32' if n == 'FLOAT' else {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[d[2]]


WID = {n: z3.Function('WIDE_' + n, KSORT[kind(n)], I) for n in TYPES}
NAR = {n: z3.Function('NARROW_' + n, I, KSORT[kind(n)]) for n in TYPES}


def a_models():
    m = {}
    for n, d in TYPES.items():
        def w(eng, st, fr, i, a, n=n):
            x = a[0]
            if z3.is_bool(x):
                x = z3.If(x, Z(1), Z(0))
            r = WID[n](x)
            eng.assume(st, And(r >= -(1 << 63), r < (1 << 63)))
            return r

        def na(eng, st, fr, i, a, n=n):
            r = NAR[n](eng.raw_load(st, a[0], 'i64'))
            if n == 'BOOL':
                eng.assume(st, z3.Or(r == 0, r == 1))
                return r != 0
            if KSORT[kind(n)] == I:
                b = TYPES[n][1]
                eng.assume(st, And(r >= -(1 << (b - 1)), r < (1 << (b - 1))))
            return r
        m['_ZN9onnx_mlir7WideNum5widenILNS_5BTypeE%dE*' % d[0]] = w
        m['_ZNK9onnx_mlir7WideNum6narrowILNS_5BTypeE%dE*' % d[0]] = na
    return m


class Bytes:
    def __init__(self, v, name):
        self.p, self.n = v.arg(name + '.coerce0'), Z(v.arg(name + '.coerce1'))

    def ok(self, v, esz):
        return And(self.n >= 0, self.n < (1 << 59), Z(self.p.off.expr()) == 0, Z(self.p.obj) >= 0, Z(self.p.obj) < Z(v.st.next), z3.Implies(self.n > 0, And(v.alive(self.p), Z(self.p.obj) > 0, v.size(self.p) >= esz * self.n)))


def arrays(widen):
    S, T = ('srcBytes', 'dst') if widen else ('src', 'dstBytes')

    def parts(v):
        s, t = Bytes(v, S), Bytes(v, T)
        return s, t, (t.n if widen else s.n)

    def pre(v):
        s, t, n = parts(v)
        bt = Z(v.arg('bt'))
        b = s if widen else t
        r = [s.ok(v, 1 if widen else 8), t.ok(v, 8 if widen else 1), z3.Or(s.n == 0, t.n == 0, Z(s.p.obj) != Z(t.p.obj)), z3.Or(*[bt == d[0] for d in TYPES.values()])]
        r += [z3.Implies(bt == d[0], b.n == d[2] * n) for d in TYPES.values()]
        if widen:
            A = v.inner('i8', s.p)
            r.append(z3.Implies(bt == TYPES['BOOL'][0], forall(k_, z3.Implies(And(k_ >= 0, k_ < n), z3.Or(A[k_] == 0, A[k_] == 1)), A[k_])))
        return r

    def done(v, o, n, k):
        s, t, _ = parts(o)
        A, D = o.inner(kind(n) if widen else 'i64', s.p), v.inner('i64' if widen else kind(n), t.p)
        f = WID[n] if widen else NAR[n]
        return forall(k_, z3.Implies(And(k_ >= 0, k_ < k), D[k_] == f(A[k_])), D[k_])

    def post(v):
        o = v.old
        return [('every-element-of-%s' % n, z3.Implies(Z(o.arg('bt')) == d[0], done(v, o, n, parts(o)[2]))) for n, d in TYPES.items()]

    def spec(n):
        w = TYPES[n][2]

        def pos(v):
            f, r = v.var('__first'), v.var('__result')
            return f, r

        def inv(v):
            s, t, N = parts(v.old)
            f, r = pos(v)
            e = v.var('__last')
            a, b = (w, 8) if widen else (8, w)
            k = z3.Int('done_%s' % n)
            fo, ro, eo = Z(f.off.expr()), Z(r.off.expr()), Z(e.off.expr())
            k = fo if a == 1 else fo / a
            return [('walks-source', And(Z(f.obj) == Z(s.p.obj), Z(e.obj) == Z(s.p.obj), fo >= 0, fo <= a * N, eo == a * N, fo % a == 0)), ('walks-target', And(Z(r.obj) == Z(t.p.obj), ro == b * k)),
                    ('unary-op', z3.BoolVal(True)), ('done-so-far', done(v, v.old, n, k))]
        return Loop(inv, variant=lambda v: Z(v.var('__last').off.expr()) - Z(v.var('__first').off.expr()), writes=lambda v: [('i64' if widen else kind(n), parts(v.old)[1].p)])
    loops = {}
    for n in TYPES:
        key = 'std::transform<%s const*, onnx_mlir::WideNum*, onnx_mlir::WideNum ' % CPP[n] if widen else 'std::transform<onnx_mlir::WideNum const*, %s*, %s ' % (CPP[n], CPP[n])
        loops[key] = {'count': 1, 0: spec(n)}
    return Contract('mlir::widenArray' if widen else 'mlir::narrowArray', pre, post, mods=lambda v: [(parts(v)[1].p, ('i64',) if widen else tuple({kind(n) for n in TYPES}))], frees=lambda v: [], allocs=False,
                    opts={'overflow': 'assume', 'unsigned_nowrap': True, 'copy_kinds': {1: 'i8', 2: 'i16', 8: 'i64'}, 'inline_loops': loops})


def groups(tier):
    return [Group('arrays', [('src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp', ['widenArray', 'narrowArray', 'std::transform', 'castArrayRef', 'castMutableArrayRef', 'ArrayRef', 'narrow<', 'dispatchByBType'])], [arrays(True), arrays(False)], models=a_models())]


ELEMENTS = ['native/elements.cpp'] + ['src/Dialect/ONNX/ElementsAttr/%s.cpp' % x for x in ('BType', 'DisposableElementsAttr', 'DisposablePool', 'ElementsAttrBuilder', 'ElementsAttrHelper', 'Strides', 'WideNum')] + \
           ['src/Support/TypeUtilities.cpp', 'src/Support/SmallFP.cpp', 'src/Support/SmallFPConversion.c']


def natives(tier):
    return [Native('elements', ELEMENTS, 'random constants of every element type, rank 0 to 4, at most a few hundred elements, through random chains of up to 6 builder operations; every operation and every way to read the result compared with a dense reference', cxx=True, flags=['-fno-rtti'],
                   libs=['-L/usr/lib/llvm-20/lib', '-lMLIR', '-lLLVM-20', '-Wl,-rpath,/usr/lib/llvm-20/lib'],
                   env={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allow_user_poisoning=0:detect_container_overflow=0:detect_stack_use_after_return=0'},
                   quick=['n=8000'], thorough=['n=300000'], deep=['n=20000'], parts=8)]
