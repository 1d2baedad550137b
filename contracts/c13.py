import os
import z3
import irvc
import irbv
from irvc import *
from omt import *
from smallvec import *
from suite import Group, Native
PROP = 'C13'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLAIN = ('The row-major numbering is defined by recursion on the axes (last coordinate = position mod size, the rest = coordinates of position div size), the address of a position as the dot product of those coordinates with the strides. '
           'Proved for every rank, shape and stride vector: getStridesPosition is the dot product; areStridesContiguous holds exactly for the default strides; getDefaultStrides, getSplatStrides, expandStrides, transposeDims and untransposeDims '
           'return exactly the specified vectors (the latter two inverse to each other); unflattenIndex gives the row-major coordinates; each step of StridesIterator<1> and <2> moves index, position and offsets from position k to k + 1 of the row-major walk, '
           'whatever carries occur; restrideArray writes element k of the dense buffer with the source element at the address of position k, for every element width, and nothing else. reshapeStrides is monitored (bounded) against the address '
           'of every element, including that it refuses only when no strides would do.')
ASSUMPTIONS = ['strides are not negative, and element counts and positions stay below 2^63 (64-bit arithmetic is treated as mathematical)', 'array arguments of distinct roles are separate blocks; ranks below 2^31']
TRUSTED = ['llvm::SmallVector members (contracts/smallvec.py), mlir::ShapedType::getNumElements, isDynamicShape']
SUF = z3.Function('SUF', AII, I, I, I)        # (shape, rank, l): product of the sizes from axis l on
PFX = z3.Function('PFX', AII, I, I, I, I)     # (shape, rank, k, l): number of the prefix of l coordinates that position k has
CRD = z3.Function('CRD', AII, I, I, I, I)     # (shape, k, l, j): coordinate j of the k-th prefix of l coordinates, row-major
PS = z3.Function('PS', AII, AII, I, I, I)     # (shape, strides, k, l): dot product of those coordinates with the strides
P = 'onnx_mlir::'
x_ = z3.Int('x')
KD = -(1 << 63)


class Ref:
    """an ArrayRef argument"""
    def __init__(self, v, name, kind='i64', esz=8):
        self.p, self.n = v.arg(name + '.coerce0'), Z(v.arg(name + '.coerce1'))
        self.A = v.inner(kind, self.p)
        self.kind = kind
        self.ok = And(self.n >= 0, self.n < (1 << 31), Z(self.p.off.expr()) == 0, Z(self.p.obj) >= 0, Z(self.p.obj) < Z(v.st.next), z3.Implies(self.n > 0, And(v.alive(self.p), Z(self.p.obj) > 0, v.size(self.p) >= esz * self.n)))

    def all(self, f):
        return forall(k_, z3.Implies(And(k_ >= 0, k_ < self.n), f(self.A[k_])), self.A[k_])


def suf_def(A, n, l):
    return [SUF(A, n, n) == 1, z3.Implies(And(Z(l) >= 0, Z(l) < Z(n)), SUF(A, n, l) == A[l] * SUF(A, n, Z(l) + 1))]


def dflt(A, n, l):
    return z3.If(A[l] == 1, 0, SUF(A, n, l + 1))


def result(v, n, what):
    """the returned vector: own block, n elements, element k satisfies what(array, k)"""
    r = v.old.arg('agg.result')
    A, m, ok = vec(v, r)
    return [('result-is-a-vector', And(ok, Z(begin(v, r).obj) >= Z(v.old.st.next))), ('size', m == n), ('elements', forall(k_, z3.Implies(And(k_ >= 0, k_ < n), what(A, k_)), A[k_]))]


def ret_pre(v):
    r = v.arg('agg.result')
    return [v.valid(r, 16), Z(r.off.expr()) == 0]


def apart(v, *refs):
    r = v.arg('agg.result')
    return [Z(r.obj) != Z(x.p.obj) for x in refs]


def C(fn, pre, post, **k):
    k.setdefault('allocs', True)
    k.setdefault('mods', lambda v: [v.arg('agg.result')] if 'agg.result' in v.args else [])
    k.setdefault('frees', lambda v: [])
    o = {'overflow': 'assume', 'unsigned_nowrap': True}
    o.update(k.pop('opts', {}))
    return Contract(P + fn, pre, post, opts=o, **k)


def c_position():
    def pre(v):
        i, s = Ref(v, 'index'), Ref(v, 'strides')
        return [i.ok, s.ok, i.n == s.n, i.all(lambda x: x >= 0), s.all(lambda x: x >= 0)]

    def inv(v):
        i, s = Ref(v.old, 'index'), Ref(v.old, 'strides')
        a = Z(v.var('axis'))
        return [('range', And(a >= 0, a <= i.n)), ('sum', And(Z(v.var('pos')) == DOT(i.A, s.A, a), Z(v.var('pos')) >= 0))]

    def lem(v):
        i, s = Ref(v.old, 'index'), Ref(v.old, 'strides')
        a = Z(v.var('axis'))
        return dot_def(i.A, s.A, a) + [z3.Implies(And(i.A[a] >= 0, s.A[a] >= 0), i.A[a] * s.A[a] >= 0)]
    return C('getStridesPosition', pre, lambda v: [('dot-product', Z(v.ret) == DOT(Ref(v.old, 'index').A, Ref(v.old, 'strides').A, Ref(v.old, 'index').n))], allocs=False,
             loops={'count': 1, 0: Loop(inv, variant=lambda v: Ref(v.old, 'index').n - Z(v.var('axis')), lemmas=lem, writes=lambda v: [])})


def c_contiguous():
    def pre(v):
        h, s = Ref(v, 'shape'), Ref(v, 'strides')
        return [h.ok, s.ok, h.n == s.n, h.all(lambda x: x >= 0)]

    def is_dflt(v, lo):
        h, s = Ref(v, 'shape'), Ref(v, 'strides')
        return forall(k_, z3.Implies(And(k_ >= lo, k_ < h.n), s.A[k_] == dflt(h.A, h.n, k_)), s.A[k_])

    def inv(v):
        h = Ref(v.old, 'shape')
        a = Z(v.var('axis'))
        return [('range', And(a >= -1, a < h.n)), ('product', Z(v.var('mult')) == SUF(h.A, h.n, a + 1)), ('so-far', is_dflt(v.old, a + 1))]

    def lem(v):
        h = Ref(v.old, 'shape')
        return suf_def(h.A, h.n, Z(v.var('axis')))
    return C('areStridesContiguous', pre, lambda v: [('exactly-the-default-strides', v.eng.tobool(v.ret) == is_dflt(v.old, 0))], allocs=False,
             loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.var('axis')) + 1, lemmas=lem, writes=lambda v: [])})


def local(v, name):
    """the returned local vector"""
    r = v.old.arg('agg.result')
    b = begin(v, r)
    A, m, ok = vec(v, r)
    return A, m, And(ok, Z(b.obj) >= Z(v.old.st.next), Z(b.obj) < Z(v.st.next), Z(b.obj) == Z(begin(v.entry, r).obj)), b


def c_default():
    def pre(v):
        h = Ref(v, 'shape')
        return ret_pre(v) + apart(v, h) + [h.ok, h.all(lambda x: x >= 0)]

    def inv(v):
        h = Ref(v.old, 'shape')
        a = Z(v.var('axis'))
        A, m, ok, b = local(v, 'strides')
        return [('range', And(a >= -1, a < h.n, m == h.n)), ('vector', ok), ('product', Z(v.var('mult')) == SUF(h.A, h.n, a + 1)), ('so-far', forall(k_, z3.Implies(And(k_ > a, k_ < h.n), A[k_] == dflt(h.A, h.n, k_)), A[k_]))]

    def lem(v):
        h = Ref(v.old, 'shape')
        return suf_def(h.A, h.n, Z(v.var('axis')))
    return C('getDefaultStrides', pre, lambda v: result(v, Ref(v.old, 'shape').n, lambda A, k: A[k] == dflt(Ref(v.old, 'shape').A, Ref(v.old, 'shape').n, k)),
             loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.var('axis')) + 1, lemmas=lem, writes=lambda v: [('i64', local(v, '')[3])])})


def c_splat():
    return C('getSplatStrides', lambda v: ret_pre(v) + apart(v, Ref(v, 'shape')) + [Ref(v, 'shape').ok], lambda v: result(v, Ref(v.old, 'shape').n, lambda A, k: A[k] == 0))


def c_expand():
    def pre(v):
        s, e = Ref(v, 'strides'), Ref(v, 'expandedShape')
        return ret_pre(v) + apart(v, s, e) + [s.ok, e.ok, e.n >= s.n]

    def post(v):
        s, e = Ref(v.old, 'strides'), Ref(v.old, 'expandedShape')
        return result(v, e.n, lambda A, k: A[k] == z3.If(k < e.n - s.n, 0, s.A[k - (e.n - s.n)]))

    def ext(v):
        """the dot product depends on the first rank strides only (by induction on the rank)"""
        s, e = Ref(v.old, 'strides'), Ref(v.old, 'expandedShape')
        A = vec(v, v.old.arg('agg.result'))[0]
        H, q = z3.Const('H', AII), z3.Int('q')
        X = EXPD(s.A, s.n, e.n)
        return [z3.ForAll([H, q], PS(H, A, q, e.n) == PS(H, X, q, e.n), patterns=[PS(H, A, q, e.n), PS(H, X, q, e.n)])]
    return C('expandStrides', pre, post, axioms=ext)


def c_transpose():
    def pre(v):
        d, p = Ref(v, 'dims'), Ref(v, 'perm')
        return ret_pre(v) + apart(v, d, p) + [d.ok, p.ok, d.n == p.n, p.all(lambda x: And(x >= 0, x < d.n))]

    def inv(v):
        d, p = Ref(v.old, 'dims'), Ref(v.old, 'perm')
        i = Z(v.var('i'))
        A, m, ok, b = local(v, '')
        return [('range', And(i >= 0, i <= p.n, m == i)), ('vector', ok), ('so-far', forall(k_, z3.Implies(And(k_ >= 0, k_ < i), A[k_] == d.A[p.A[k_]]), A[k_]))]
    return C('transposeDims', pre, lambda v: result(v, Ref(v.old, 'perm').n, lambda A, k: A[k] == Ref(v.old, 'dims').A[Ref(v.old, 'perm').A[k]]),
             loops={'count': 1, 0: Loop(inv, variant=lambda v: Ref(v.old, 'perm').n - Z(v.var('i')), writes=lambda v: [('i64', local(v, '')[3]), ('i32', v.old.arg('agg.result'))])})


def c_untranspose():
    def pre(v):
        d, p = Ref(v, 'dims'), Ref(v, 'perm')
        j = z3.Int('j')
        return ret_pre(v) + apart(v, d, p) + [d.ok, p.ok, d.n == p.n, p.all(lambda x: And(x >= 0, x < d.n)),
                                              z3.ForAll([k_, j], z3.Implies(And(k_ >= 0, k_ < p.n, j >= 0, j < p.n, k_ != j), p.A[k_] != p.A[j]), patterns=[z3.MultiPattern(p.A[k_], p.A[j])])]

    def sofar(v, i):
        d, p = Ref(v.old, 'dims'), Ref(v.old, 'perm')
        A = vec(v, v.old.arg('agg.result'))[0]
        return forall(k_, z3.Implies(And(k_ >= 0, k_ < i), A[p.A[k_]] == d.A[k_]), p.A[k_])

    def inv(v):
        p = Ref(v.old, 'perm')
        i = Z(v.var('i'))
        A, m, ok, b = local(v, '')
        return [('range', And(i >= 0, i <= p.n, m == p.n)), ('vector', ok), ('so-far', sofar(v, i))]

    def post(v):
        r = result(v, Ref(v.old, 'perm').n, lambda A, k: A[k] == A[k])
        return r[:2] + [('inverse-of-transposition', sofar(v, Ref(v.old, 'perm').n))]
    return C('untransposeDims', pre, post, loops={'count': 1, 0: Loop(inv, variant=lambda v: Ref(v.old, 'perm').n - Z(v.var('i')), writes=lambda v: [('i64', local(v, '')[3])])})


# ---- row-major numbering
def pfx_def(A, n, k, l):
    """one step of the definition of PFX"""
    return [PFX(A, n, k, n) == k, z3.Implies(And(Z(l) >= 0, Z(l) < Z(n), A[l] > 0), And(PFX(A, n, k, l) == PFX(A, n, k, Z(l) + 1) / A[l], PFX(A, n, k, l) >= 0))]


def crd_def(A, q, l):
    """the coordinates of prefix q of l + 1 coordinates: its last one is q mod A[l], the others are those of q div A[l]"""
    j = z3.Int('j')
    l = Z(l)
    return z3.Implies(And(l >= 0, q >= 0, A[l] > 0), And(CRD(A, q, l + 1, l) == q % A[l], forall(j, z3.Implies(And(j >= 0, j < l), CRD(A, q, l + 1, j) == CRD(A, q / A[l], l, j)), CRD(A, q, l + 1, j))))


def ps_def(A, S, q, l):
    l = Z(l)
    return [PS(A, S, q, 0) == 0, z3.Implies(And(l >= 0, q >= 0, A[l] > 0), PS(A, S, q, l + 1) == PS(A, S, q / A[l], l) + (q % A[l]) * S[l])]


def c_unflatten():
    def pre(v):
        h = Ref(v, 'shape')
        f = Z(v.arg('flattenedIndex'))
        return ret_pre(v) + apart(v, h) + [h.ok, h.all(lambda x: x > 0), f >= 0, PFX(h.A, h.n, f, 0) == 0]

    def idx(v):
        h, f = Ref(v.old, 'shape'), Z(v.old.arg('flattenedIndex'))
        return h, f

    def inv(v):
        h, f = idx(v)
        a = Z(v.var('axis'))
        A, m, ok, b = local(v, '')
        Q = PFX(h.A, h.n, f, a + 1)
        return [('range', And(a >= 0, a < h.n, m == h.n)), ('vector', ok), ('rest', And(Z(v.var('flattenedIndex')) == Q, Q >= 0)),
                ('so-far', forall(k_, z3.Implies(And(k_ > a, k_ < h.n), A[k_] == CRD(h.A, f, h.n, k_)), A[k_])),
                ('to-do', forall(x_, z3.Implies(And(x_ >= 0, x_ <= a), CRD(h.A, f, h.n, x_) == CRD(h.A, Q, a + 1, x_)), CRD(h.A, f, h.n, x_)))]

    def lem(v):
        h, f = idx(v)
        a = Z(v.var('axis'))
        return pfx_def(h.A, h.n, f, a) + [crd_def(h.A, PFX(h.A, h.n, f, a + 1), a)]
    return C('unflattenIndex', pre, lambda v: result(v, Ref(v.old, 'shape').n, lambda A, k: A[k] == CRD(idx(v)[0].A, idx(v)[1], idx(v)[0].n, k)), 
             loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.var('axis')), lemmas=lem, writes=lambda v: [('i64', local(v, '')[3])])})


# ---- walking a shape
class It:
    """a StridesIterator<N>: shape @0, N stride vectors @16.., then flattenedIndex, index vector, N offsets"""
    def __init__(self, v, t, N=1):
        self.v, self.t, self.N = v, t, N
        b = 16 + 16 * N
        f = lambda o, ty: v.fld(t, o, ty)
        self.shp, self.n = f(0, 'ptr'), Z(f(8, 'i64'))
        self.str = [f(16 + 16 * k, 'ptr') for k in range(N)]
        self.sn = [Z(f(24 + 16 * k, 'i64')) for k in range(N)]
        self.f = Z(f(b, 'i64'))
        self.vp = t.addoff(Lin(b + 8))
        self.idx, self.m, self.vok = vec(v, self.vp)
        self.ib = begin(v, self.vp)
        self.off = [Z(f(b + 72 + 8 * k, 'i64')) for k in range(N)]
        self.A = v.inner('i64', self.shp)
        self.S = [v.inner('i64', p) for p in self.str]
        self.size = b + 72 + 8 * N

    def ok(self):
        v, t, n = self.v, self.t, self.n
        arr = lambda p: And(Z(p.off.expr()) == 0, Z(p.obj) >= 0, Z(p.obj) < Z(v.st.next), Z(p.obj) != Z(self.ib.obj), Z(p.obj) != Z(t.obj), z3.Implies(n > 0, And(v.alive(p), Z(p.obj) > 0, v.size(p) >= 8 * n)))
        return [v.valid(t, self.size), Z(t.off.expr()) == 0, Z(t.obj) < Z(v.st.next), Z(t.obj) != Z(self.ib.obj), Z(self.ib.obj) < Z(v.st.next), And(n >= 0, n < (1 << 31), *[x == n for x in self.sn]), self.vok, self.m == n] + [arr(p) for p in [self.shp] + self.str] + \
               [forall(k_, z3.Implies(And(k_ >= 0, k_ < n), self.A[k_] > 0), self.A[k_])] + [forall(k_, z3.Implies(And(k_ >= 0, k_ < n), S[k_] >= 0), S[k_]) for S in self.S]

    def at(self, f):
        """the iterator is at position f of the walk"""
        return [('position', And(self.f == f, self.f >= 0)), ('index-is-the-row-major-one', forall(k_, z3.Implies(And(k_ >= 0, k_ < self.n), self.idx[k_] == CRD(self.A, f, self.n, k_)), self.idx[k_]))] + \
               [('offset-is-the-dot-product', And(*[self.off[k] == PS(self.A, self.S[k], f, self.n) for k in range(self.N)]))]

    def same(self, o):
        """only the position differs from o"""
        return And(same_ptr(self.shp, o.shp), self.n == o.n, same_ptr(self.ib, o.ib), self.m == o.m, *[same_ptr(a, b) for a, b in zip(self.str, o.str)], *[a == b for a, b in zip(self.sn, o.sn)])


def c_next(N=1):
    def it(v):
        return It(v, v.arg('this') if v.old is None else v.old.arg('this'), N)

    def pre(v):
        i = it(v)
        return i.ok() + [c for _, c in i.at(i.f)]

    def post(v):
        o, i = it(v.old), it(v)
        return i.at(o.f + 1) + [('rest-unchanged', i.same(o)), ('returns-itself', same_ptr(v.ret, v.old.arg('this')))]

    def inv(v):
        o, i = it(v.old), it(v)
        a = Z(v.var('axis'))
        A, n, f = o.A, o.n, o.f
        Qf, Qg = PFX(A, n, f, a), PFX(A, n, f + 1, a)
        r = [('range', And(a >= 0, a <= n)), ('rest-unchanged', i.same(o)), ('position', i.f == f + 1), ('carry', And(Qg == Qf + 1, Qf >= 0)),
             ('rewound', forall(k_, z3.Implies(And(k_ >= a, k_ < n), i.idx[k_] == CRD(A, f + 1, n, k_)), i.idx[k_])),
             ('untouched', forall(k_, z3.Implies(And(k_ >= 0, k_ < a), i.idx[k_] == CRD(A, Qf, a, k_)), i.idx[k_])),
             ('to-do', forall(x_, z3.Implies(And(x_ >= 0, x_ < a), CRD(A, f + 1, n, x_) == CRD(A, Qg, a, x_)), CRD(A, f + 1, n, x_)))]
        for k in range(N):
            r.append(('offset-%d' % k, And(offs(v, i, k) == PS(A, o.S[k], Qf, a), PS(A, o.S[k], f + 1, n) == PS(A, o.S[k], Qg, a))))
        return r

    def offs(v, i, k):
        if N == 2:
            return Z(v.var('offset%d' % k))
        return i.off[k]

    def lem(v):
        o = it(v.old)
        a = Z(v.var('axis'))
        l = a - 1
        A, n, f = o.A, o.n, o.f
        r = []
        for g in (f, f + 1):
            q = PFX(A, n, g, a)
            r += pfx_def(A, n, g, l) + [crd_def(A, q, l)]
            for S in o.S:
                r += ps_def(A, S, q, l)
        q, d = PFX(A, n, f, a), A[l]
        r += [div_step(q, d)] + [z3.Implies(And(d > 0, q >= 0), d * S[l] == (q % d) * S[l] + S[l] * (d - q % d)) for S in o.S] + [z3.Implies(q % d == d - 1, (q % d) * S[l] == d * S[l] - S[l]) for S in o.S] + [(q % d + 1) * S[l] == (q % d) * S[l] + S[l] for S in o.S]
        return r
    cnt = 3 if N == 1 else 1
    return Contract(P + 'StridesIterator<%dul>::operator++' % N, pre, post, mods=lambda v: [(v.arg('this'), ('i64',)), (it(v).ib, ('i64',))], frees=lambda v: [], allocs=False, ret=lambda eng, st, amap: amap['this'],
                    loops={'count': cnt, 0: Loop(inv, variant=lambda v: Z(v.var('axis')), lemmas=lem, writes=lambda v: [('i64', v.old.arg('this')), ('i64', it(v.old).ib)])}, opts={'overflow': 'assume', 'unsigned_nowrap': True})


def div_step(q, d):
    return z3.Implies(And(d > 0, q >= 0), And(q == (q / d) * d + q % d, q % d >= 0, q % d < d, q / d >= 0, z3.Implies(q % d + 1 < d, And((q + 1) / d == q / d, (q + 1) % d == q % d + 1)), z3.Implies(q % d + 1 >= d, And((q + 1) / d == q / d + 1, (q + 1) % d == 0, q % d == d - 1))))


def m_num(eng, st, fr, i, a):
    v = View(eng, st, None, {})
    p, n = a
    A = v.inner('i64', p)
    eng.oblige(st, 'call-pre', 'getNumElements.static', forall(k_, z3.Implies(And(k_ >= 0, k_ < Z(n)), A[k_] >= 0), A[k_]), i.get('line'))
    eng.assume(st, SUF(A, Z(n), 0) >= 0)
    return SUF(A, Z(n), 0)


def m_dyn(eng, st, fr, i, a):
    v = View(eng, st, None, {})
    p, n = a
    A = v.inner('i64', p)
    b, w = fresh('dynamic', B), fresh('which')
    eng.assume(st, z3.Implies(b, And(w >= 0, w < Z(n), A[w] == KD)))
    return b


MLIR = {'mlir::ShapedType::getNumElements': m_num, 'mlir::ShapedType::isDynamicShape': m_dyn}


def c_copy(T, kind, esz):
    def parts(v):
        return Ref(v, 'shape'), Ref(v, 'srcStrides'), BRef(v, 'src'), BRef(v, 'dst')

    def pre(v):
        h, s, a, b = parts(v)
        N = SUF(h.A, h.n, 0)
        return [h.ok, s.ok, s.n == h.n, h.all(lambda x: x > 0), s.all(lambda x: x >= 0), Z(v.arg('elementBytewidth')) == esz, N >= 0, a.ok, b.ok, Z(a.p.obj) != Z(b.p.obj), b.n >= esz * N] + [Z(b.p.obj) != Z(x.p.obj) for x in (h, s)] + \
               [forall(x_, z3.Implies(And(x_ >= 0, x_ < N), And(PS(h.A, s.A, x_, h.n) >= 0, esz * PS(h.A, s.A, x_, h.n) + esz <= a.n)), PS(h.A, s.A, x_, h.n))]

    def copied(v, k):
        h, s, a, b = parts(v.old)
        F, D = v.old.inner(kind, a.p), v.inner(kind, b.p)
        return forall(x_, z3.Implies(And(x_ >= 0, x_ < k), D[x_] == F[PS(h.A, s.A, x_, h.n)]), D[x_])

    def inv(v):
        h, s, a, b = parts(v.old)
        N = SUF(h.A, h.n, 0)
        i, e = It(v, v.anyvar('__begin2', '__begin1', '__begin3')), It(v, v.anyvar('__end2', '__end1', '__end3'))
        i0 = It(v.entry, v.entry.anyvar('__begin2', '__begin1', '__begin3'))
        r = [('walk-%d' % k, c) for k, c in enumerate(i.ok())] + i.at(i.f) + [('same-walk', And(i.same(i0), same_ptr(i.shp, h.p), same_ptr(i.str[0], s.p), i.n == h.n)), ('range', And(i.f >= 0, i.f <= N, e.f == N)), ('own-index', And(Z(i.ib.obj) >= Z(v.old.st.next))), ('copied-so-far', copied(v, i.f))]
        return r

    def writes(v):
        i = It(v, v.anyvar('__begin2', '__begin1', '__begin3'))
        return [('i64', i.t), ('i64', i.ib), (kind, BRef(v.old, 'dst').p)]
    def setup(v):
        h, s, a, b = parts(v)
        v.eng.assume(v.st, zero_walk(h.A, s.A, h.n))
    return Contract('void onnx_mlir::restrideArrayImpl<%s>' % T, pre, lambda v: [('elements-in-row-major-order', copied(v, SUF(parts(v.old)[0].A, parts(v.old)[0].n, 0)))], mods=lambda v: [(BRef(v, 'dst').p, (kind,))], frees=lambda v: [], allocs=False, setup=setup,
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: SUF(parts(v.old)[0].A, parts(v.old)[0].n, 0) - It(v, v.anyvar('__begin2', '__begin1', '__begin3')).f, writes=writes)}, opts={'overflow': 'assume', 'unsigned_nowrap': True})


def zero_walk(A, S, n):
    """position 0: every coordinate and the dot product are 0 (by induction on the rank)"""
    return And(PS(A, S, 0, n) == 0, forall(x_, z3.Implies(And(x_ >= 0, x_ < n), CRD(A, 0, n, x_) == 0), CRD(A, 0, n, x_)))


class BRef:
    """a byte array argument passed in memory"""
    def __init__(self, v, name):
        a = v.arg(name)
        self.p, self.n = v.fld(a, 0, 'ptr'), Z(v.fld(a, 8, 'i64'))
        self.ok = And(self.n >= 0, Z(self.p.off.expr()) == 0, Z(self.p.obj) >= 0, Z(self.p.obj) < Z(v.st.next), z3.Implies(self.n > 0, And(v.alive(self.p), Z(self.p.obj) > 0, v.size(self.p) >= self.n)))


EXPD = z3.Function('EXPD', AII, I, I, AII)     # strides padded with leading zeros: (strides, their number, rank)


def expanded(v):
    h, s = Ref(v, 'shape'), Ref(v, 'srcStrides')
    return h, EXPD(s.A, s.n, h.n)


def c_restride():
    W = (('i8', 1), ('i16', 2), ('i32', 4), ('i64', 8))

    def pre(v):
        h, s, a, b = Ref(v, 'shape'), Ref(v, 'srcStrides'), BRef(v, 'src'), BRef(v, 'dst')
        X = expanded(v)[1]
        N = SUF(h.A, h.n, 0)
        w = Z(v.arg('elementBytewidth'))
        return [h.ok, s.ok, s.n <= h.n, h.all(lambda x: x > 0), s.all(lambda x: x >= 0), z3.Or(*[w == n for _, n in W]), N >= 0, a.ok, b.ok, Z(a.p.obj) != Z(b.p.obj), b.n >= w * N] + [Z(b.p.obj) != Z(x.p.obj) for x in (h, s)] + \
               [z3.Implies(w == n, forall(x_, z3.Implies(And(x_ >= 0, x_ < N), And(PS(h.A, X, x_, h.n) >= 0, n * PS(h.A, X, x_, h.n) + n <= a.n)), PS(h.A, X, x_, h.n))) for _, n in W]

    def post(v):
        o = v.old
        h, X = expanded(o)
        a, b = BRef(o, 'src'), BRef(o, 'dst')
        r = []
        for kind, n in W:
            F, D = o.inner(kind, a.p), v.inner(kind, b.p)
            r.append(('elements-of-%d-bytes-in-row-major-order' % n, z3.Implies(Z(o.arg('elementBytewidth')) == n, forall(x_, z3.Implies(And(x_ >= 0, x_ < SUF(h.A, h.n, 0)), D[x_] == F[PS(h.A, X, x_, h.n)]), D[x_]))))
        return r
    return Contract(P + 'restrideArray', pre, post, mods=lambda v: [(BRef(v, 'dst').p, tuple(k for k, _ in W))], frees=lambda v: [], allocs=True, loops={'count': 0}, opts={'overflow': 'assume', 'unsigned_nowrap': True})


def m_unreachable(eng, st, fr, i, a):
    eng.oblige(st, 'assertion', 'unreachable', z3.BoolVal(False), i.get('line'))
    return False


MLIR['llvm::llvm_unreachable_internal'] = m_unreachable


def groups(tier):
    S = [('src/Dialect/ONNX/ElementsAttr/Strides.cpp', ['.'])]
    return [Group('strides', S, [c_position(), c_contiguous(), c_default(), c_splat(), c_expand(), c_transpose(), c_untranspose(), c_unflatten(), c_next(), c_restride(), *[c_copy(t, k, n) for t, k, n in (('unsigned char', 'i8', 1), ('unsigned short', 'i16', 2), ('unsigned int', 'i32', 4), ('unsigned long', 'i64', 8))]], models={**VEC, **MLIR}),
            Group('two-strides', [('/verif/native/strides_inst.cpp'.replace('/verif', HERE), ['.'])], [c_next(2)], models={**VEC, **MLIR})]


def extra_obligations(tier, tmp, budget):
    """induction steps of the two facts used as lemmas"""
    ob = []

    def lem(nm, hyps, goal):
        s = z3.Solver()
        s.add(*[z3.And(*h) if isinstance(h, list) else h for h in hyps])
        s.add(z3.Not(goal))
        ob.append(('lemma:' + nm, s.to_smt2(), 60))
    A, S, X = z3.Consts('A S X', AII)
    l, q, w, d = z3.Ints('l q w d')
    n = z3.Int('n')
    lem('walk-starts-at-zero', [ps_def(A, S, Z(0), l), crd_def(A, Z(0), l), l >= 0, A[l] > 0, PS(A, S, 0, l) == 0, forall(x_, z3.Implies(And(x_ >= 0, x_ < l), CRD(A, 0, l, x_) == 0), CRD(A, 0, l, x_))],
        And(PS(A, S, 0, l + 1) == 0, forall(x_, z3.Implies(And(x_ >= 0, x_ < l + 1), CRD(A, 0, l + 1, x_) == 0))))
    lem('address-depends-on-the-strides-of-the-shape', [ps_def(A, S, q, l), ps_def(A, X, q, l), l >= 0, q >= 0, A[l] > 0, S[l] == X[l], z3.ForAll([w], z3.Implies(w >= 0, PS(A, S, w, l) == PS(A, X, w, l)), patterns=[PS(A, S, w, l)])],
        PS(A, S, q, l + 1) == PS(A, X, q, l + 1))
    lem('division-step', [], div_step(q, d))
    return [{'group': 'lemmas', 'fn': 'row-major numbering', 'obls': [irbv.decide(j) for j in ob]}]


def natives(tier):
    return [Native('strides', ['native/strides.cpp', 'src/Dialect/ONNX/ElementsAttr/Strides.cpp'],
                   'random views of rank 0 to 9, transposed and broadcast; reshaping: every shape of at most 3 dimensions of 1 to 3 with strides 0 to 6 to every shape of rank up to 4, and random views to every or 40 shapes', cxx=True,
                   libs=['-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-Wl,-rpath,/usr/lib/llvm-20/lib'], quick=['n=1500'], thorough=['n=40000'], deep=['n=4000'], parts=8)]
