import z3
import irvc
import irbv
from irvc import *
from omt import *
from suite import Group, Native
PROP = 'C11'
EXPLAIN = ('The specification is the ONNX definition over real numbers: weight functions (nearest, linear, and the cubic convolution kernel with a = -3/4), the coordinate of an output position under half_pixel, and an interpolation in one dimension '
           'over the two or four neighbours around it (clamped to the edge), applied dimension after dimension. Proved, in real arithmetic: the weight functions (polynomial identities for the cubic one), the choice of neighbours, the '
           'one-dimensional and the recursive n-dimensional interpolation for every rank, and that Resize_Scales and Resize_Size write every output element exactly with the interpolation at its coordinates, read only inside the tensor '
           'and change nothing else. Rounding is covered by the monitor, which compares with a double-precision reference.')
ASSUMPTIONS = ['float arithmetic is treated as exact real arithmetic in the proof (rounding is monitored within a tolerance)', 'rank at least 1, dimensions below 2^31 - 8, output at most 2^31 - 1 elements, positive scales below 2^20', 'malloc succeeds (the code asserts it)',
               'the output tensor has the size floor(input * scale), or the given size', 'recursion depth is bounded by the rank (termination of the recursion is not a separate obligation)']
TRUSTED = ['floor', 'omTensorCreate and omTensorDestroy (proved under C01 and C02) and the tensor getters are used by contract', 'generate_coordinates (row-major enumeration of the output positions) is used by contract and monitored, not proved', 'the weight functions are called through a pointer to one of the three']
R = z3.RealSort()
AIR = z3.ArraySort(I, R)
NBF = z3.Function('NEIGHBOURS', I, I)                  # of a weight function object
COEF = z3.Function('COEF', I, I, R, R)               # weight function object, neighbour, ratio
ND = z3.Function('INTERPOLATE', I, AIR, I, AIR, I, R)   # weights, data, offset, coordinates, first dimension (shape and scales are constants)
STRD = z3.Function('STRIDE', I, I)                   # product of the dimensions from one on
OFFS = z3.Function('ELEMENT', I, I, I, I)                 # offset of row i of a sub-tensor whose rows have STRIDE(l) elements
NDI = z3.Function('RESIZED', I, R)                   # value of output element i
SH0 = z3.Const('SHAPE', AII)
SC0 = z3.Const('SCALE', AIR)
NR = z3.Int('RANK')
m_ = z3.Int('m')
x_ = z3.Const('xs', AIR)
HALF = z3.RealVal('1/2')
NF = 4096


def nb(eng, f):
    """number of neighbours of weight function object f"""
    return NBF(Z(f))


def ix(p):
    return Z(p.off.expr()) / 4


def ceil_(x):
    return -z3.ToInt(-x)


def clamp(i, n):
    return z3.If(i < 0, 0, z3.If(i >= n, n - 1, i))


def xo(x, s):
    return RDIV(x + HALF, s) - HALF


def ratio(u):
    d = u - z3.ToReal(z3.ToInt(u))
    return z3.If(d == 0, z3.RealVal(1), d)


def weighted(eng, f, u, W, val):
    """sum over the neighbours of u of weight times value; val(index)"""
    r = ratio(u)
    t = lambda n, k: RMUL(COEF(f, k, r), val(clamp(ceil_(u) - n // 2 + k, W)))
    return z3.If(nb(eng, f) == 4, t(4, 0) + t(4, 1) + t(4, 2) + t(4, 3), t(2, 0) + t(2, 1))


def nd_def(eng, f, A, off, X, L):
    """definition of the interpolation at one argument"""
    u = xo(X[L], SC0[L])
    W = SH0[L]
    return And(z3.Implies(L == NR - 1, ND(f, A, off, X, L) == weighted(eng, f, u, W, lambda i: A[off + i])),
               z3.Implies(And(L >= 0, L < NR - 1), ND(f, A, off, X, L) == weighted(eng, f, u, W, lambda i: ND(f, A, OFFS(off, i, L + 1), X, L + 1))))


def strd_def(l):
    return And(STRD(NR) == 1, z3.Implies(And(Z(l) >= 0, Z(l) < NR), And(STRD(l) == SH0[l] * STRD(l + 1), STRD(l) >= 0)))


# ---- weights
def keys(t):
    a = z3.RealVal('-3/4')
    return z3.If(t <= 1, (a + 2) * t * t * t - (a + 3) * t * t + 1, a * t * t * t - 5 * a * t * t + 8 * a * t - 4 * a)


def c_coeffs(nm, n, spec):
    def pre(v):
        b = v.arg('coeffs_buffer')
        r = v.arg('ratio')
        return [v.valid(b, 4 * n), Z(b.off.expr()) == 0, r > 0, r <= 1] + ([z3.Or(*[Z(v.arg('mode')) == m for m in (0, 1, 2, 4)])] if nm == 'nearest_coeffs' else [])

    def post(v):
        r = v.old.arg('ratio')
        A = v.inner('f32', v.old.arg('coeffs_buffer'))
        return [('weight-%d' % k, A[k] == s) for k, s in enumerate(spec(r, v.old))]
    return Contract(nm, pre, post, mods=lambda v: [(v.arg('coeffs_buffer'), ('f32',))], frees=lambda v: [], opts={'fp': 'real'})


def spec_linear(r, v):
    return [1 - r, r]


def spec_nearest(r, v):
    m = Z(v.arg('mode'))
    left = z3.If(m == 0, r <= HALF, z3.If(m == 1, r < HALF, m == 2))
    one, zero = z3.RealVal(1), z3.RealVal(0)
    return [z3.If(left, one, zero), z3.If(left, zero, one)]


def spec_cubic(r, v):
    return [keys(1 + r), keys(r), keys(1 - r), keys(2 - r)]


# ---- neighbours
def c_neighbor():
    def dat(v):
        p = v.arg('data')
        return v.inner('f32', p), v.idx('f32', p)

    def pre(v):
        x, n, lim, p, q = v.arg('x'), Z(v.arg('n')), Z(v.arg('limit')), v.arg('data'), v.arg('points')
        return [z3.Or(n == 2, n == 4), lim >= 1, lim < (1 << 31) - 8, Z(v.arg('exclude_outside')) == 0, x > -(1 << 30), x < (1 << 31) - 16, Z(p.off.expr()) >= 0, Z(p.off.expr()) + 4 * lim <= v.size(p), v.alive(p), Z(p.obj) > 0,
                v.valid(q, 4 * n), Z(q.off.expr()) == 0, Z(q.obj) != Z(p.obj)]

    def upto(v, k):
        o = v.old
        A, b = dat(o)
        n, lim = Z(o.arg('n')), Z(o.arg('limit'))
        c = ceil_(o.arg('x'))
        P = v.inner('f32', o.arg('points'))
        return And(*[z3.Implies(And(j < k, j < n), P[j] == A[Z(b) + clamp(c - z3.If(n == 4, 2, 1) + j, lim)]) for j in range(4)])

    def inv(v):
        o = v.old
        n = Z(o.arg('n'))
        i, s, e = Z(v.var('i')), Z(v.var('start')), Z(v.var('end'))
        return [('window', And(s == ceil_(o.arg('x')) - z3.If(n == 4, 2, 1), e == s + n - 1, i >= s, i <= e + 1)), ('points', upto(v, i - s))]
    return Contract('get_neighbor', pre, lambda v: [('the-nearest-on-both-sides', upto(v, Z(v.old.arg('n'))))], mods=lambda v: [(v.arg('points'), ('f32',))], frees=lambda v: [],
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.var('end')) - Z(v.var('i')) + 1, writes=lambda v: [('f32', v.arg('points'))])}, opts={'fp': 'real', 'interior': ('data',), 'aligned': {'data': 4}})


# ---- one dimension
FN = ('linear_coeffs', 'nearest_coeffs', 'cubic_coeffs')


def fobj(v):
    p = v.arg('get_coeffs')
    return Z(p.obj)


def fn_ok(v):
    f = v.arg('get_coeffs')
    return [z3.Or(NBF(Z(f.obj)) == 2, NBF(Z(f.obj)) == 4), Z(f.off.expr()) == 0, Z(v.arg('coeffs_n')) == nb(v.eng, f.obj), Z(v.arg('mode')) == 0, Z(v.arg('exclude_outside')) == 0, Z(v.arg('coordinate_transformation_mode')) == 0]


def m_indirect(eng, st, fr, i, p, a):
    """call of a weight function through the pointer: its contract"""
    v = View(eng, st, None, {})
    r, b, mode = a
    f = Z(p.obj)
    ln = i.get('line')
    eng.oblige(st, 'call-pre', 'weights.function', f == Z(eng.args['get_coeffs'].obj), ln)
    eng.oblige(st, 'call-pre', 'weights.buffer', And(v.valid(b, 4 * nb(eng, f)), Z(b.off.expr()) == 0), ln)
    eng.oblige(st, 'call-pre', 'weights.ratio', And(r > 0, r <= 1, Z(mode) == 0), ln)
    eng.record(st, b, 'f32')
    X = fresh('weights', AIR)
    for k in range(4):
        eng.assume(st, z3.Implies(k < nb(eng, f), X[k] == COEF(f, k, r)))
    st.mem['f32'] = z3.Store(eng.memk(st, 'f32'), Z(b.obj), X)
    return None


def rng(v):
    """interpolation arguments: the position maps into the neighbourhood of the dimension"""
    return []


def c_1d():
    def pre(v):
        t = v.arg('data')
        sh, d = v.fld(t, SH, 'ptr'), v.fld(t, AG, 'ptr')
        W = v.inner('i64', sh)[0]
        s, x = v.arg('scale_factor'), v.arg('x')
        b = v.arg('coeffs_buffer')
        return [v.valid(t, OMT_SIZE), v.valid(sh, 8), Z(sh.off.expr()) == 0, W >= 1, W < (1 << 31) - 8, v.alive(d), Z(d.obj) > 0, Z(d.off.expr()) >= 0, Z(d.off.expr()) + 4 * W <= v.size(d), Z(d.off.expr()) % 4 == 0, s != 0, xo(x, s) > -(1 << 30), xo(x, s) < (1 << 31) - 16,
                v.valid(b, 4 * Z(v.arg('coeffs_n'))), Z(b.off.expr()) == 0, Z(b.obj) != Z(d.obj), Z(d.obj) < Z(v.st.next)] + fn_ok(v)

    def post(v):
        o = v.old
        t = o.arg('data')
        sh, d = o.fld(t, SH, 'ptr'), o.fld(t, AG, 'ptr')
        A, b = o.inner('f32', d), ix(d)
        u = xo(o.arg('x'), o.arg('scale_factor'))
        return [('weighted-sum-of-the-neighbours', v.ret == weighted(v.eng, fobj(o), u, o.inner('i64', sh)[0], lambda i: A[b + i]))]

    def inv(v):
        o = v.old
        i, n = Z(v.var('i')), Z(o.arg('coeffs_n'))
        P, C = v.inner('f32', v.var('points')), v.inner('f32', o.arg('coeffs_buffer'))
        t = lambda k: RMUL(C[k], P[k])
        sums = [z3.RealVal(0), t(0), t(0) + t(1), t(0) + t(1) + t(2), t(0) + t(1) + t(2) + t(3)]
        return [('range', And(i >= 0, i <= n)), ('sum', And(*[z3.Implies(i == k, v.var('sum') == sums[k]) for k in range(5)]))]
    return Contract('interpolate_1d_with_x', pre, post, mods=lambda v: [(v.arg('coeffs_buffer'), ('f32',))], frees=lambda v: [], loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.old.arg('coeffs_n')) - Z(v.var('i')), writes=lambda v: [])},
                    opts={'fp': 'real', 'real_uf': ('mul', 'div'), 'malloc_may_fail': False, 'indirect': m_indirect})


# ---- n dimensions
def m_create(eng, st, fr, i, a):
    data, shape, rank, dt = a
    v = View(eng, st, None, {})
    n = Z(rank)
    eng.oblige(st, 'call-pre', 'omTensorCreate.shape', And(n >= 1, v.alive(shape), Z(shape.off.expr()) >= 0, Z(shape.off.expr()) + 8 * n <= v.size(shape)), i.get('line'))
    S, so = v.inner('i64', shape), Z(v.idx('i64', shape))
    t, sh, sd = eng.alloc(st, 64), eng.alloc(st, 8 * n), eng.alloc(st, 8 * n)
    X = fresh('shape_copy', AII)
    eng.assume(st, forall(m_, z3.Implies(And(m_ >= 0, m_ < n), X[m_] == S[so + m_]), X[m_]))
    st.mem['i64'] = z3.Store(eng.memk(st, 'i64'), Z(sh.obj), X)
    for off, ty, x in ((AL, 'ptr', data), (AG, 'ptr', data), (OF, 'i64', 0), (SH, 'ptr', sh), (ST, 'ptr', sd), (RK, 'i64', rank), (DT, 'i32', dt), (OW, 'i64', 0)):
        eng.raw_store(st, t.addoff(Lin(off)), ty, x)
    return t


def m_destroy(eng, st, fr, i, a):
    t = a[0]
    v = View(eng, st, None, {})
    for p in (v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr'), t):
        eng.oblige(st, 'memory-safety', 'omTensorDestroy of a live tensor', And(v.alive(p), Z(p.obj) > 0), i.get('line'))
        st.alive = z3.Store(st.alive, Z(p.obj), False)
    eng.note(st, ('free',))
    return None


class Nd:
    def __init__(self, v):
        self.v = v
        t = v.arg('data')
        self.t = t
        self.sh, self.d = v.fld(t, SH, 'ptr'), v.fld(t, AG, 'ptr')
        self.S = v.inner('i64', self.sh)
        self.n = Z(v.arg('n'))
        self.L = NR - self.n
        self.xs, self.sc = v.arg('xs'), v.arg('scale_factors')
        self.A, self.off = v.inner('f32', self.d), ix(self.d)
        self.X = v.inner('f32', self.xs)
        self.f = fobj(v)

    def nd(self, off, l):
        return ND(self.f, self.A, off, self.X, l)

    def pre(self):
        v, L = self.v, self.L
        b = v.arg('coeffs_buffer')
        C = v.inner('f32', self.sc)
        inside = lambda p, n: And(v.alive(p), Z(p.obj) > 0, Z(p.obj) < Z(v.st.next), Z(p.off.expr()) >= 0, Z(p.off.expr()) + n <= v.size(p))
        return [self.n >= 1, self.n <= NR, NR < 64, v.valid(self.t, OMT_SIZE), v.valid(self.sh, 8 * self.n), Z(self.sh.off.expr()) == 0, Z(self.sh.obj) > 0, Z(self.sh.obj) < Z(v.st.next), Z(self.t.obj) > 0, Z(self.t.obj) < Z(v.st.next), Z(v.fld(self.t, DT, 'i32')) == 1,
                forall(m_, z3.Implies(And(m_ >= 0, m_ < self.n), self.S[m_] == SH0[L + m_]), self.S[m_]), shape_ok(), Z(self.xs.off.expr()) == 4 * L, Z(self.sc.off.expr()) == 4 * L, inside(self.xs, 4 * self.n), inside(self.sc, 4 * self.n),
                forall(m_, z3.Implies(And(m_ >= 0, m_ < NR), C[m_] == SC0[m_]), C[m_]), inside(self.d, 4 * STRD(L)), Z(self.d.off.expr()) % 4 == 0, coords_ok(self.X), v.valid(b, 4 * Z(v.arg('coeffs_n'))), Z(b.off.expr()) == 0, Z(b.obj) < Z(v.st.next),
                *[Z(b.obj) != Z(p.obj) for p in (self.d, self.xs, self.sc)]] + fn_ok(v)


def shape_ok():
    return forall(k_, z3.Implies(And(k_ >= 0, k_ < NR), And(SH0[k_] >= 1, SH0[k_] < (1 << 31) - 64, SC0[k_] != 0, STRD(k_ + 1) >= 1)), SH0[k_])


def coords_ok(X):
    return forall(k_, z3.Implies(And(k_ >= 0, k_ < NR), And(xo(X[k_], SC0[k_]) > -(1 << 30), xo(X[k_], SC0[k_]) < (1 << 31) - 16)), X[k_])


def nd_setup(v):
    """the definitions at the arguments of this call"""
    c = Nd(v)
    e = v.eng
    L = c.L
    e.assume(v.st, nd_def(e, c.f, c.A, c.off, c.X, L))
    for l in (L, L + 1):
        e.assume(v.st, strd_def(l))
    e.assume(v.st, And(SH0[L] == SH0[L], X_touch(c, L)))


def X_touch(c, L):
    return c.X[L] == c.X[L]


def c_nd():
    def stride(v):
        c = Nd(v.old)
        i = Z(v.var('i'))
        t = Z(v.var('stride'))
        return [('range', And(i >= 1, i <= c.n)), ('product', And(t >= 0, t * STRD(c.L + i) == STRD(c.L + 1)))]

    def stride_lem(v):
        c = Nd(v.old)
        i, t = Z(v.var('i')), Z(v.var('stride'))
        return [strd_def(c.L + i), strd_def(c.L + i + 1), STRD(NR) == 1, t * (SH0[c.L + i] * STRD(c.L + i + 1)) == (t * SH0[c.L + i]) * STRD(c.L + i + 1)]

    def sub(v):
        o = v.old
        c = Nd(o)
        i = Z(v.var('i'))
        T = v.var('tempData')
        D = v.inner('f32', T)
        s = STRD(c.L + 1)
        return [('range', And(i >= 0, i <= SH0[c.L])), ('stride', Z(v.var('stride')) == s), ('buffer', And(Z(T.obj) >= Z(o.st.next), Z(T.obj) < Z(v.st.next), Z(T.off.expr()) == 0, v.alive(T), v.size(T) == 4 * SH0[c.L])), ('width', Z(v.var('input_width')) == SH0[c.L]),
                ('others-live', forall(o_, z3.Implies(And(o_ > -1000000, o_ < Z(o.st.next)), v.st.alive[o_] == o.st.alive[o_]), v.st.alive[o_])),
                ('nothing-else-new', forall(o_, z3.Implies(And(o_ >= Z(o.st.next), o_ < Z(v.st.next), o_ != Z(T.obj)), z3.Not(v.st.alive[o_])), v.st.alive[o_])),
                ('values', forall(m_, z3.Implies(And(m_ >= 0, m_ < i), D[m_] == c.nd(OFFS(c.off, m_, c.L + 1), c.L + 1)), D[m_]))]

    def sub_lem(v):
        c = Nd(v.old)
        i, t, w, s = Z(v.var('i')), Z(v.var('stride')), SH0[c.L], STRD(c.L + 1)
        return [OFFS(c.off, i, c.L + 1) == c.off + i * t, z3.Implies(And(i >= 0, i < w, t >= 0), And(i * t >= 0, i * t + t <= w * t)), z3.Implies(t == s, w * t == w * s)]
    loops = {'count': 2, 0: Loop(stride, variant=lambda v: Nd(v.old).n - Z(v.var('i')), lemmas=stride_lem, writes=lambda v: []),
             1: Loop(sub, variant=lambda v: SH0[Nd(v.old).L] - Z(v.var('i')), lemmas=sub_lem)}
    return Contract('interpolate_nd_with_x', lambda v: Nd(v).pre(), lambda v: [('interpolation-over-all-dimensions', v.ret == Nd(v.old).nd(Nd(v.old).off, Nd(v.old).L))], mods=lambda v: [(v.arg('coeffs_buffer'), ('f32',))], frees=lambda v: [], allocs=False,
                    setup=nd_setup, loops=loops, opts={'fp': 'real', 'real_uf': ('mul', 'div'), 'malloc_may_fail': False, 'interior': ('xs', 'scale_factors'), 'aligned': {'xs': 4, 'scale_factors': 4}, 'overflow': 'assume', 'indirect': m_indirect})


o_ = z3.Int('o')


# ---- coordinates of the output positions
OSZ = z3.Const('OUTPUT_SIZE', AII)
SUF = z3.Function('ROWS', I, I)                      # product of the output sizes from dimension l on
PFX = z3.Function('PREFIX', I, I, I)                 # position q as a number of blocks of SUF(l)
CRD = z3.Function('COORDINATE', I, I, I, I)          # (k, l, j): coordinate j of the k-th prefix of l coordinates in row-major order
CO = z3.Function('CELL', I, I)                       # cell of the table of all coordinates, row-major


def suf_def(l):
    return And(SUF(NR) == 1, z3.Implies(And(Z(l) >= 0, Z(l) < NR), And(SUF(l) == OSZ[l] * SUF(l + 1), SUF(l) >= 1)))


def sizes_ok():
    return forall(k_, z3.Implies(And(k_ >= 0, k_ < NR), And(OSZ[k_] >= 1, OSZ[k_] < (1 << 31) - 1)), OSZ[k_])


def crd_def(k, l, i, j):
    """the row-major numbering: prefix k of l coordinates followed by coordinate i is prefix k * size + i"""
    n = k * OSZ[l] + i
    return z3.Implies(And(i >= 0, i < OSZ[l], l >= 0, l < NR), And(CRD(n, l + 1, l) == i, z3.Implies(And(j >= 0, j < l), CRD(n, l + 1, j) == CRD(k, l, j))))


def crd_all(k, l, i):
    n = k * OSZ[l] + i
    nn = fresh('prefix')
    j = z3.Int('j')
    return And(nn == n, z3.Implies(And(i >= 0, i < OSZ[l], l >= 0, l < NR), And(CRD(nn, l + 1, l) == i, forall(j, z3.Implies(And(j >= 0, j < l), CRD(nn, l + 1, j) == CRD(k, l, j)), CRD(nn, l + 1, j))))), nn


class Co:
    def __init__(self, v):
        self.v = v
        self.os, self.all, self.it, self.pos = v.arg('output_size'), v.arg('allCoordinates'), v.arg('currentIter'), v.arg('currentPosition')
        self.r = Z(v.arg('currentRank'))
        self.p0 = v.inner('i64', self.pos)[0]
        self.K = PFX(self.p0, self.r)

    def pre(self):
        v = self.v
        O, T = v.inner('i64', self.os), v.inner('i64', self.it)
        objs = [self.os, self.all, self.it, self.pos]
        return [Z(v.arg('rank')) == NR, NR >= 1, NR < 64, self.r >= 0, self.r < NR, v.valid(self.os, 8 * NR), v.valid(self.it, 8 * NR), v.valid(self.pos, 8), v.valid(self.all, 8 * NR * (self.p0 + SUF(self.r))),
                v.size(self.all) < (1 << 62),
                *[Z(p.off.expr()) == 0 for p in objs], *[Z(objs[a].obj) != Z(objs[b].obj) for a in range(4) for b in range(a)],
                self.p0 >= 0, self.p0 == self.K * SUF(self.r), sizes_ok(), forall(k_, z3.Implies(And(k_ >= 0, k_ < NR), O[k_] == OSZ[k_]), O[k_]),
                forall(k_, z3.Implies(And(k_ >= 0, k_ < self.r), T[k_] == CRD(self.K, self.r, k_)), T[k_])]

    def filled(self, v, upto, A=None):
        A = v.inner('i64', self.all) if A is None else A
        A0 = self.v.inner('i64', self.all)
        return [('filled', forall(x_i, z3.Implies(And(x_i >= self.p0 * NR, x_i < upto), A[x_i] == CO(x_i)), A[x_i])),
                ('rows-before-kept', forall(x_i, z3.Implies(x_i < self.p0 * NR, A[x_i] == A0[x_i]), A[x_i]))]

    def kept(self, v):
        T, T0 = v.inner('i64', self.it), self.v.inner('i64', self.it)
        return ('prefix-kept', forall(k_, z3.Implies(And(k_ >= 0, k_ < self.r), T[k_] == T0[k_]), T[k_]))


x_i = z3.Int('x')


def co_facts(c, i):
    """at loop counter i: position and prefix of the next row"""
    q = c.p0 + i * SUF(c.r + 1)
    f, nn = crd_all(c.K, c.r, i)
    return [f, suf_def(c.r), suf_def(c.r + 1), q == nn * SUF(c.r + 1), PFX(q, c.r + 1) == nn, z3.Implies(And(i >= 0, i < OSZ[c.r]), i * SUF(c.r + 1) + SUF(c.r + 1) <= OSZ[c.r] * SUF(c.r + 1)),
            i * SUF(c.r + 1) >= 0], nn, q


def c_step():
    def rows(v):
        c = Co(v.old)
        i = Z(v.var('i'))
        p = v.inner('i64', c.pos)[0]
        return [('range', And(i >= 0, i <= OSZ[c.r])), ('position', p == c.p0 + i * SUF(c.r + 1)), *c.filled(v, p * NR), c.kept(v)]

    def rows_lem(v):
        c = Co(v.old)
        i = Z(v.var('i'))
        F, nn, q = co_facts(c, i)
        p = v.inner('i64', c.pos)[0]
        return F

    def cells(v):
        c = Co(v.old)
        i, j = Z(v.var('i')), Z(v.var('j'))
        p = v.inner('i64', c.pos)[0]
        return [('range', And(j >= 0, j <= c.r, i >= 0, i < OSZ[c.r])), ('position', p == c.p0 + i), *c.filled(v, p * NR + j), c.kept(v)]

    def cells_lem(v):
        c = Co(v.old)
        i, j = Z(v.var('i')), Z(v.var('j'))
        F, nn, q = co_facts(c, i)
        p = v.inner('i64', c.pos)[0]
        # the table: cell p * rank + j is coordinate j of position p
        return F + [CO(p * NR + j) == CRD(p, NR, j), CO(p * NR + c.r) == CRD(p, NR, c.r), z3.Implies(And(p >= 0, p < c.p0 + SUF(c.r)), And(p * NR >= 0, p * NR + NR <= NR * (c.p0 + SUF(c.r))))]
    loops = {'count': 2, 0: Loop(rows, variant=lambda v: OSZ[Co(v.old).r] - Z(v.var('i')), lemmas=rows_lem), 1: Loop(cells, variant=lambda v: Co(v.old).r - Z(v.var('j')), lemmas=cells_lem)}

    def post(v):
        c = Co(v.old)
        p = v.inner('i64', c.pos)[0]
        return [('position', p == c.p0 + SUF(c.r)), *c.filled(v, (c.p0 + SUF(c.r)) * NR), c.kept(v)]
    return Contract('coordinate_step', lambda v: Co(v).pre(), post, mods=lambda v: [(v.arg('allCoordinates'), ('i64',)), (v.arg('currentIter'), ('i64',)), (v.arg('currentPosition'), ('i64',))], frees=lambda v: [], allocs=False, loops=loops,
                    setup=lambda v: [v.eng.assume(v.st, x) for x in (suf_def(Co(v).r), suf_def(Co(v).r + 1))], opts={'overflow': 'assume'})


def c_gen():
    def pre(v):
        o, a = v.arg('output_size'), v.arg('allCoordinates')
        O = v.inner('i64', o)
        return [Z(v.arg('rank')) == NR, NR >= 1, NR < 64, v.valid(o, 8 * NR), v.valid(a, 8 * NR * SUF(0)), v.size(a) < (1 << 62), Z(a.obj) > 0, Z(o.obj) > 0, Z(a.obj) < Z(v.st.next), Z(o.obj) < Z(v.st.next), Z(o.off.expr()) == 0, Z(a.off.expr()) == 0, Z(o.obj) != Z(a.obj), sizes_ok(),
                forall(k_, z3.Implies(And(k_ >= 0, k_ < NR), O[k_] == OSZ[k_]), O[k_])]

    def post(v):
        A = v.inner('i64', v.old.arg('allCoordinates'))
        return [('every-position-in-order', forall(x_i, z3.Implies(And(x_i >= 0, x_i < SUF(0) * NR), A[x_i] == CO(x_i)), A[x_i]))]
    return Contract('generate_coordinates', pre, post, mods=lambda v: [(v.arg('allCoordinates'), ('i64',))], frees=lambda v: [], allocs=False, setup=lambda v: [v.eng.assume(v.st, x) for x in (suf_def(Z(0)), PFX(0, 0) == 0)], opts={'malloc_may_fail': False})


# ---- the whole tensor
XI = z3.Function('COORDINATES_OF', I, AIR)           # coordinates of output position i, as real numbers


class Top:
    def __init__(self, v, scales=None, size=None, f=None):
        self.v = v
        e = v.eng
        self.out, self.t = v.arg('output_OMT') if 'output_OMT' in v.args else v.arg('output'), v.arg('data')
        self.sh, self.d = v.fld(self.t, SH, 'ptr'), v.fld(self.t, AG, 'ptr')
        self.od = v.fld(self.out, AG, 'ptr')
        self.S, self.A, self.off = v.inner('i64', self.sh), v.inner('f32', self.d), ix(self.d)
        self.st, self.zt = scales, size

    def pre(self):
        v = self.v
        isnull = lambda p: Z(p.obj) == 0
        blk = lambda p, n: And(v.valid(p, n), Z(p.obj) > 0, Z(p.obj) < Z(v.st.next), Z(p.off.expr()) == 0)
        r = [blk(self.t, OMT_SIZE), blk(self.out, OMT_SIZE), blk(self.sh, 8 * NR), Z(self.d.obj) > 0, Z(self.d.obj) < Z(v.st.next), v.alive(self.d), Z(self.d.off.expr()) >= 0, Z(self.d.off.expr()) % 4 == 0, Z(self.d.off.expr()) + 4 * STRD(0) <= v.size(self.d),
             blk(self.od, 4 * SUF(0)), Z(self.od.obj) != Z(self.d.obj), NR >= 1, NR < 64, Z(v.fld(self.t, RK, 'i64')) == NR, Z(v.fld(self.t, DT, 'i32')) == 1, shape_ok(), sizes_ok(), SUF(0) < (1 << 31) - 1,
             forall(m_, z3.Implies(And(m_ >= 0, m_ < NR), self.S[m_] == SH0[m_]), self.S[m_])]
        for t, what in ((self.st, 'f32'), (self.zt, 'i64')):
            if t is None:
                continue
            p = v.fld(t, AG, 'ptr')
            X = v.inner(what, p)
            ok = [blk(t, OMT_SIZE), blk(p, (4 if what == 'f32' else 8) * NR), Z(p.obj) != Z(self.od.obj)]
            if what == 'f32':
                ok += [forall(m_, z3.Implies(And(m_ >= 0, m_ < NR), And(X[m_] == SC0[m_], X[m_] > 0, OSZ[m_] == z3.ToInt(RMUL(X[m_], z3.ToReal(SH0[m_]))), RMUL(X[m_], z3.ToReal(SH0[m_])) >= 1)), X[m_])]
            else:
                ok += [forall(m_, z3.Implies(And(m_ >= 0, m_ < NR), And(X[m_] == OSZ[m_], SC0[m_] == RDIV(z3.ToReal(OSZ[m_]), z3.ToReal(SH0[m_])), RMUL(SC0[m_], z3.ToReal(SH0[m_])) == z3.ToReal(OSZ[m_]), SC0[m_] > 0)), X[m_])]
            r += [z3.Implies(z3.Not(isnull(t)), x) for x in ok]
        r.append(forall(m_, z3.Implies(And(m_ >= 0, m_ < NR), And(SC0[m_] > 0, z3.ToReal(OSZ[m_]) <= RMUL(SC0[m_], z3.ToReal(SH0[m_])))), SC0[m_]))
        if self.st is not None and self.zt is not None:
            r.append(isnull(self.st) != isnull(self.zt))
        return r

    def value(self, f, i):
        return ND(f, self.A, self.off, XI(i), 0)

    def done(self, v, f, n):
        O = v.inner('f32', self.od)
        return forall(m_, z3.Implies(And(m_ >= 0, m_ < n), O[m_] == self.value(f, m_)), O[m_])


def c_top():
    T = lambda v: Top(v, v.arg('scale_factor_OMT'), v.arg('output_size_OMT'))

    def pre(v):
        f = v.arg('get_coeffs')
        return T(v).pre() + [z3.Or(NBF(Z(f.obj)) == 2, NBF(Z(f.obj)) == 4), Z(f.off.expr()) == 0, Z(v.arg('coeffs_n')) == nb(v.eng, f.obj), Z(v.arg('exclude_outside')) == 0, Z(v.arg('coordinate_transformation_mode')) == 0]

    def F(v):
        return Z(v.arg('get_coeffs').obj)

    def sc_inv(v):
        i = Z(v.var('i'))
        X = v.inner('f32', v.var('scale_factor'))
        return [('range', And(i >= 0, i <= NR)), ('scales', forall(m_, z3.Implies(And(m_ >= 0, m_ < i), X[m_] == SC0[m_]), X[m_]))]

    def sz_inv(v):
        i = Z(v.var('i'))
        X = v.inner('i64', v.var('output_size'))
        return [('range', And(i >= 0, i <= NR)), ('sizes', forall(m_, z3.Implies(And(m_ >= 0, m_ < i), X[m_] == OSZ[m_]), X[m_]))]

    def pr_inv(v):
        i, t = Z(v.var('i')), Z(v.var('outputSize'))
        return [('range', And(i >= 0, i <= NR)), ('product', And(t >= 1, t * SUF(i) == SUF(0), SUF(i) >= 1))]

    def pr_lem(v):
        i, t = Z(v.var('i')), Z(v.var('outputSize'))
        return [suf_def(i), suf_def(i + 1), t * (OSZ[i] * SUF(i + 1)) == (t * OSZ[i]) * SUF(i + 1), z3.Implies(And(t >= 1, OSZ[i] >= 1), t * OSZ[i] >= 1)]

    def known(v):
        """what the loops over the output keep"""
        o = v.old
        X, Q, C, W = v.var('scale_factor'), v.var('output_size'), v.var('allCoordinates'), v.var('coeffs_buffer')
        N = Z(o.st.next)
        st, zt = o.arg('scale_factor_OMT'), o.arg('output_size_OMT')
        mine = z3.If(Z(st.obj) == 0, Z(X.obj), Z(Q.obj))
        theirs = z3.If(Z(st.obj) == 0, Z(Q.obj), Z(X.obj))
        own = [mine, Z(C.obj), Z(W.obj)]
        other = lambda x: And(*[x != y for y in own])
        SX, CX = v.inner('f32', X), v.inner('i64', C)
        return own, [('count', Z(v.var('outputSize')) == SUF(0)),
                ('scales', And(Z(X.off.expr()) == 0, v.alive(X), v.size(X) >= 4 * NR, forall(m_, z3.Implies(And(m_ >= 0, m_ < NR), SX[m_] == SC0[m_]), SX[m_]))),
                ('table', And(Z(C.off.expr()) == 0, v.alive(C), v.size(C) == 8 * NR * SUF(0), forall(x_i, z3.Implies(And(x_i >= 0, x_i < SUF(0) * NR), CX[x_i] == CO(x_i)), CX[x_i]))),
                ('weights', And(Z(W.off.expr()) == 0, v.alive(W), v.size(W) == 4 * Z(o.arg('coeffs_n')))),
                ('own', And(*[And(x >= N, x < Z(v.st.next), v.st.alive[x]) for x in own], Z(C.obj) != mine, Z(W.obj) != mine, Z(W.obj) != Z(C.obj), Z(Q.off.expr()) == 0,
                            theirs == z3.If(Z(st.obj) == 0, Z(o.fld(zt, AG, 'ptr').obj), Z(o.fld(st, AG, 'ptr').obj)))),
                ('others-live', forall(o_, z3.Implies(And(o_ > -1000000, o_ < N), v.st.alive[o_] == o.st.alive[o_]), v.st.alive[o_]))], other

    def main(v):
        o = v.old
        t = T(o)
        i = Z(v.var('i'))
        own, K, other = known(v)
        return [('range', And(i >= 0, i <= SUF(0))), *K, ('nothing-else-new', forall(o_, z3.Implies(And(o_ >= Z(o.st.next), o_ < Z(v.st.next), other(o_)), z3.Not(v.st.alive[o_])), v.st.alive[o_])), ('interpolated', t.done(v, F(o), i))]

    def main_lem(v):
        i = Z(v.var('i'))
        return [z3.Implies(And(i >= 0, i < SUF(0)), And(i * NR >= 0, i * NR + NR <= SUF(0) * NR))]

    def xs(v):
        o = v.old
        t = T(o)
        i, j = Z(v.var('i')), Z(v.var('j'))
        P = v.var('Xs')
        X = v.inner('f32', P)
        own, K, other = known(v)
        return [('range', And(i >= 0, i < SUF(0), j >= 0, j <= NR)), *K, ('buffer', And(Z(P.obj) >= Z(o.st.next), Z(P.obj) < Z(v.st.next), other(Z(P.obj)), v.alive(P), Z(P.off.expr()) == 0, v.size(P) == 4 * NR)),
                ('nothing-else-new', forall(o_, z3.Implies(And(o_ >= Z(o.st.next), o_ < Z(v.st.next), other(o_), o_ != Z(P.obj)), z3.Not(v.st.alive[o_])), v.st.alive[o_])), ('interpolated', t.done(v, F(o), i)),
                ('coordinates', forall(m_, z3.Implies(And(m_ >= 0, m_ < j), And(X[m_] == XI(i)[m_], X[m_] >= 0, X[m_] <= z3.ToReal(OSZ[m_] - 1))), X[m_]))]

    def xs_lem(v):
        o = v.old
        t = T(o)
        i, j = Z(v.var('i')), Z(v.var('j'))
        X = v.inner('f32', v.var('Xs'))
        f = F(o)
        return main_lem(v) + [XI(i)[j] == z3.ToReal(CRD(i, NR, j)), CO(i * NR + j) == CRD(i, NR, j), z3.Implies(And(i >= 0, i < SUF(0), j >= 0, j < NR), And(CRD(i, NR, j) >= 0, CRD(i, NR, j) < OSZ[j])),
                # the interpolation depends on the coordinates 0 .. RANK-1 only
                z3.Implies(forall(m_, z3.Implies(And(m_ >= 0, m_ < NR), X[m_] == XI(i)[m_]), X[m_]), ND(f, t.A, t.off, X, 0) == ND(f, t.A, t.off, XI(i), 0)),
                # a position of the output lies inside the input (lemma position-inside)
                forall(m_, z3.Implies(And(m_ >= 0, m_ < NR, X[m_] >= 0, X[m_] <= z3.ToReal(OSZ[m_] - 1), SC0[m_] > 0, z3.ToReal(OSZ[m_]) <= RMUL(SC0[m_], z3.ToReal(SH0[m_]))), And(RDIV(X[m_] + HALF, SC0[m_]) > 0, RDIV(X[m_] + HALF, SC0[m_]) < z3.ToReal(SH0[m_]))), X[m_])]
    loops = {'count': 5, 0: Loop(sc_inv, variant=lambda v: NR - Z(v.var('i'))), 1: Loop(sz_inv, variant=lambda v: NR - Z(v.var('i'))), 2: Loop(pr_inv, variant=lambda v: NR - Z(v.var('i')), lemmas=pr_lem, writes=lambda v: []),
             3: Loop(main, variant=lambda v: SUF(0) - Z(v.var('i')), lemmas=main_lem), 4: Loop(xs, variant=lambda v: NR - Z(v.var('j')), lemmas=xs_lem)}
    return Contract('interpolate_nd_OMTensor', pre, lambda v: [('every-element-interpolated', T(v.old).done(v, F(v.old), SUF(0)))], mods=lambda v: [(T(v).od, ('f32',))], frees=lambda v: [], allocs=False, loops=loops,
                    setup=lambda v: [v.eng.assume(v.st, x) for x in (suf_def(Z(0)), STRD(NR) == 1)], opts={'fp': 'real', 'real_uf': ('mul', 'div'), 'malloc_may_fail': False, 'overflow': 'assume'})


MODES = (('nearest', 'eq:nearest', 'nearest_coeffs', 2), ('linear', 'prefix:linear', 'linear_coeffs', 2), ('cubic', 'eq:cubic', 'cubic_coeffs', 4))


def m_cmp(kind):
    def m(eng, st, fr, i, a):
        text = eng.cstring(a[1]) if hasattr(eng, 'cstring') else cstring(eng, a[1])
        if text is None:
            raise Unsupported('comparison with a text that is not constant')
        if kind == 'prefix':
            n = norm(Z(a[2]))
            if not isint(n) or n > len(text):
                raise Unsupported('strncmp length')
            text = text[:n]
        eng.oblige(st, 'call-pre', 'strcmp of the mode', And(Z(a[0].obj) == Z(eng.args['mode_str'].obj), Z(a[0].off.expr()) == 0), i.get('line'))
        r = fresh('cmp')
        eng.assume(st, And(r >= -255, r <= 255, (r == 0) == z3.Bool('mode:%s:%s' % (kind, text.decode() if isinstance(text, bytes) else text))))
        return r
    return m


def c_resize(nm, which):
    def T(v):
        t = v.arg(which)
        return Top(v, *((t, None) if which == 'scales' else (None, t)))

    def gid(v, n):
        return Z(v.eng.m.gid[n])

    def pre(v):
        b = [z3.Bool('mode:' + m[1]) for m in MODES]
        return T(v).pre() + [Z(v.arg(which).obj) > 0, z3.Or(*b), *[z3.Not(And(b[x], b[y])) for x in range(3) for y in range(x)]]

    def post(v):
        return [('every-element-interpolated (%s)' % m[0], z3.Implies(z3.Bool('mode:' + m[1]), T(v.old).done(v, gid(v, m[2]), SUF(0)))) for m in MODES]
    return Contract(nm, pre, post, mods=lambda v: [(T(v).od, ('f32',))], frees=lambda v: [], allocs=False, loops={'count': 0}, setup=lambda v: [v.eng.assume(v.st, NBF(gid(v, m[2])) == m[3]) for m in MODES],
                    opts={'fp': 'real', 'real_uf': ('mul', 'div'), 'malloc_may_fail': False})


def m_floor(eng, st, fr, i, a):
    return z3.ToReal(z3.ToInt(a[0]))


GET = {'omTensorGetShape': lambda eng, st, fr, i, a: View(eng, st, None, {}).fld(a[0], SH, 'ptr'), 'omTensorGetDataPtr': lambda eng, st, fr, i, a: View(eng, st, None, {}).fld(a[0], AG, 'ptr'),
       'omTensorGetRank': lambda eng, st, fr, i, a: View(eng, st, None, {}).fld(a[0], RK, 'i64'), 'omTensorGetDataType': lambda eng, st, fr, i, a: View(eng, st, None, {}).fld(a[0], DT, 'i32'),
       'strcmp': m_cmp('eq'), 'strncmp': m_cmp('prefix'), 'omTensorCreate': m_create, 'omTensorDestroy': m_destroy, 'floor': m_floor, 'llvm.floor.f64': m_floor, 'llvm.floor.f32': m_floor}


def groups(tier):
    S = [('src/Runtime/OMResize.c', ['.'])]
    return [Group('resize', S, [c_coeffs('linear_coeffs', 2, spec_linear), c_coeffs('nearest_coeffs', 2, spec_nearest), c_coeffs('cubic_coeffs', 4, spec_cubic), c_neighbor(), c_1d(), c_nd(), c_step(), c_gen(), c_top(), c_resize('Resize_Scales', 'scales'), c_resize('Resize_Size', 'size')], models=GET)]


def extra_obligations(tier, tmp, budget):
    ob = []

    def lem(nm, hyps, goal):
        s = z3.Solver()
        s.add(*hyps)
        s.add(z3.Not(goal))
        ob.append(('lemma:' + nm, s.to_smt2(), 60))
    x, sc, w, n, y, r, a, b = z3.Reals('x s w n y r a b')
    lem('position-inside', [sc > 0, x >= 0, x <= n - 1, n <= sc * w, y * sc == x + HALF], And(y > 0, y < w))
    lem('scale-of-a-given-size', [b > 0, y * b == a], y * b == a)
    lem('cubic-weights-sum-to-one', [r > 0, r <= 1], keys(1 + r) + keys(r) + keys(1 - r) + keys(2 - r) == 1)
    lem('cubic-weights-at-a-grid-point', [r == 1], And(keys(1 + r) == 0, keys(r) == 0, keys(1 - r) == 1, keys(2 - r) == 0))
    return [{'group': 'lemmas', 'fn': 'positions and weights', 'obls': [irbv.decide(j) for j in ob]}]


def natives(tier):
    S = ['native/resize.c', 'src/Runtime/OMResize.c', 'src/Runtime/OMTensor.c', 'src/Runtime/OnnxDataType.c', 'src/Support/SmallFPConversion.c']
    return [Native('resize', S, 'ranks 1 to 6, at most 90 elements per dimension (one-dimensional: 3000), three modes, scales 0.2 to 4 or sizes', flags=['-Dmalloc=mon_malloc', '-Dfree=mon_free'], libs=['-lm'],
                   quick=['n=20000'], thorough=['n=1500000'], deep=['n=60000'])]
