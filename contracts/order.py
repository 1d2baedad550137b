"""Contracts shared by C04 (sort) and C05 (TopK): element comparators, quick-sort partition, heap functions, qsort_r."""
import z3
import irvc, irbv
from irvc import *
from omt import *
x_, y_, p_, q_, s_ = z3.Ints('x y p q s')
# BEF(f, d, doff, x, y): the comparator f on the data at (d, doff) puts index x before index y
BEF = z3.Function('BEF', I, I, I, I, I, B)
H2F = z3.Function('HALF_TO_FLOAT', I, F32)
CMPF = z3.Function('COMPARATOR', I, I, I)       # (ascending, element type) -> function
TYPES = [('Bool', 9, 'i8', 'u', 1), ('Uint8', 2, 'i8', 'u', 1), ('Int8', 3, 'i8', 's', 1), ('Uint16', 4, 'i16', 'u', 2), ('Int16', 5, 'i16', 's', 2), ('Uint32', 12, 'i32', 'u', 4), ('Int32', 6, 'i32', 's', 4),
         ('Uint64', 13, 'i64', 'u', 8), ('Int64', 7, 'i64', 's', 8), ('Float', 1, 'f32', 'f', 4), ('Double', 11, 'f64', 'f', 8), ('Float16', 10, 'i16', 'h', 2)]


def c_compare(nm, dirn, kind, cls, size):
    w = 8 * size

    def key(v, n):
        o = v.old or v
        x = o.rd('i64', o.arg(n))
        e = o.rd(kind, o.arg('dataPtr'), x)
        if cls == 'u':
            e = z3.If(Z(e) < 0, Z(e) + (1 << w), Z(e))
        elif cls == 'h':
            e = H2F(Z(e))
        return x, e

    def pre(v):
        r = []
        for n in ('idx1p', 'idx2p'):
            r += [v.valid(v.arg(n), 8)]
            x, e = key(v, n)
            r += [And(Z(x) >= 0, Z(x) < 1 << 40), v.valid(v.arg('dataPtr'), size * (Z(x) + 1))]
            if nm == 'Bool':
                b = v.rd(kind, v.arg('dataPtr'), x)
                r.append(And(Z(b) >= 0, Z(b) <= 1))
        return r

    def post(v):
        (x, a), (y, b) = key(v, 'idx1p'), key(v, 'idx2p')
        if cls in 'fh':
            lt, eq = (z3.fpLT(a, b) if dirn == 'Ascending' else z3.fpLT(b, a)), z3.fpEQ(a, b)
        else:
            lt, eq = (a < b if dirn == 'Ascending' else a > b), a == b
        return [('value-order-then-index', Z(v.ret) == z3.If(z3.Or(lt, z3.And(eq, x < y)), -1, 1))]
    return Contract('compare%s%s' % (nm, dirn), pre, post, mods=lambda v: [], frees=lambda v: [])


def m_h2f(eng, st, fr, i, a):
    u = Z(a[0])
    return H2F(z3.If(u >= 1 << 15, u - (1 << 16), u))


def c_getcompare():
    def post(v):
        o = v.old
        asc, dt = Z(o.arg('ascending')), Z(o.arg('dataType'))
        r = [('not-null', Z(v.ret.obj) != 0)]
        g = v.eng.m.gid
        for nm, code, *_ in TYPES:
            for d, c in (('Ascending', asc != 0), ('Descending', asc == 0)):
                f = 'compare%s%s' % (nm, d)
                if f not in g:
                    raise Unsupported('no function ' + f)
                r.append(('%s-%s' % (nm, d), imp(And(dt == code, c), And(Z(v.ret.obj) == g[f], Z(v.ret.off.expr()) == 0))))
        return r
    return Contract('getCompareFunction', lambda v: [z3.Or(*[Z(v.arg('dataType')) == t[1] for t in TYPES])], post, mods=lambda v: [], frees=lambda v: [])


def c_getcompare_use():
    """at call sites: the comparator for (direction, element type)"""
    return Contract('getCompareFunction', lambda v: [z3.Or(*[Z(v.arg('dataType')) == t[1] for t in TYPES])],
                    lambda v: [('is', And(Z(v.ret.obj) == CMPF(z3.If(Z(v.old.arg('ascending')) != 0, 1, 0), Z(v.old.arg('dataType'))), Z(v.ret.obj) != 0, Z(v.ret.off.expr()) == 0))],
                    mods=lambda v: [], frees=lambda v: [], trusted=True, args=['ascending', 'dataType'])


# ---- the abstract order -------------------------------------------------------
def order_axioms(f, d, doff):
    b = lambda x, y: BEF(f, d, doff, x, y)
    return [z3.ForAll([x_], z3.Not(b(x_, x_)), patterns=[b(x_, x_)]),
            z3.ForAll([x_, y_], z3.Implies(x_ != y_, b(x_, y_) != b(y_, x_)), patterns=[b(x_, y_)]),
            z3.ForAll([x_, y_, s_], z3.Implies(And(b(x_, y_), b(y_, s_)), b(x_, s_)), patterns=[z3.MultiPattern(b(x_, y_), b(y_, s_))])]


def h_compare(eng, st, fr, i, p, a):
    """call of a comparator through a pointer: its contract (proved for every comparator of the table)"""
    v = View(eng, st, None, {})
    n = Z(st.ghost['len'])
    x, y = v.rd('i64', a[0]), v.rd('i64', a[1])
    for nm, q, e in (('first', a[0], x), ('second', a[1], y)):
        eng.oblige(st, 'call-pre', 'comparator.%s-index-readable' % nm, v.valid(q, 8), i.get('line'))
        eng.oblige(st, 'call-pre', 'comparator.%s-element-in-slice' % nm, And(Z(e) >= 0, Z(e) < n), i.get('line'))
    r = fresh('cmp')
    eng.assume(st, r == z3.If(BEF(Z(p.obj), Z(a[2].obj), Z(a[2].off.expr()), x, y), -1, 1))
    return r


def inj(A, lo, hi):
    return z3.ForAll([p_, q_], z3.Implies(And(lo <= p_, p_ < q_, q_ < hi), A[p_] != A[q_]), patterns=[z3.MultiPattern(A[p_], A[q_])])


def rng(A, lo, hi, n):
    return z3.ForAll([p_], z3.Implies(And(lo <= p_, p_ < hi), And(A[p_] >= 0, A[p_] < n)), patterns=[A[p_]])


def same_outside(A, B_, lo, hi):
    return z3.ForAll([p_], z3.Implies(z3.Or(p_ < lo, p_ >= hi), A[p_] == B_[p_]), patterns=[A[p_]])


def sub(A, B_, lo, hi):
    """every entry of A in the range is an entry of B in the range"""
    return z3.ForAll([p_], z3.Implies(And(lo <= p_, p_ < hi), z3.Exists([s_], And(lo <= s_, s_ < hi, A[p_] == B_[s_]), patterns=[B_[s_]])), patterns=[A[p_]])


def heap(b, A, base, lo, end, skip=None):
    """heap order of every parent p with base+lo <= p (child at most base+end): no child comes after its parent"""
    c = And(p_ >= base + lo, q_ <= base + end, z3.Or(q_ - base == 2 * (p_ - base) + 1, q_ - base == 2 * (p_ - base) + 2))
    if skip is not None:
        c = And(c, p_ != skip)
    return z3.ForAll([p_, q_], z3.Implies(c, z3.Not(b(A[p_], A[q_]))), patterns=[z3.MultiPattern(A[p_], A[q_])])


def ghost_len(v):
    v.st.ghost['len'] = z3.Int('slice_len')


class Ix:
    """the index vector seen by a heap/quick-sort function"""

    def __init__(self, v, idx, f, d):
        self.v, self.pi, self.pf, self.pd = v, v.arg(idx), v.arg(f), v.arg(d)
        self.base = Z(v.idx('i64', self.pi))
        self.n = Z(v.st.ghost['len'])

    def A(self, v):
        return v.inner('i64', self.pi)

    def b(self, x, y):
        return BEF(Z(self.pf.obj), Z(self.pd.obj), Z(self.pd.off.expr()), x, y)

    def axioms(self):
        return order_axioms(Z(self.pf.obj), Z(self.pd.obj), Z(self.pd.off.expr()))


def m_rand_plain(eng, st, fr, i, a):
    r = fresh('rand')
    eng.assume(st, And(r >= 0, r <= 2147483647))
    return r


# ---- quick sort partition -------------------------------------------------------
def c_partition():
    def X(v):
        return Ix(v, 'idx', 'compFunc', 'dataPtr')

    def pre(v):
        x = X(v)
        A, lo, hi = x.A(v), x.base + Z(v.arg('begin')), x.base + Z(v.arg('end'))
        return [And(Z(v.arg('begin')) >= 0, Z(v.arg('begin')) <= Z(v.arg('end')), Z(v.arg('end')) < x.n, x.n <= 1 << 40), v.valid(x.pi, 8 * x.n),
                rng(A, x.base, x.base + x.n, x.n), inj(A, x.base, x.base + x.n)] + x.axioms()

    def post(v):
        o = v.old
        x = X(o)
        A, O = x.A(v), x.A(o)
        lo, hi = x.base + Z(o.arg('begin')), x.base + Z(o.arg('end')) + 1
        r = x.base + Z(v.ret)
        return [('pivot-in-range', And(lo <= r, r < hi)),
                ('before-the-pivot', z3.ForAll([p_], z3.Implies(And(lo <= p_, p_ < r), x.b(A[p_], A[r])), patterns=[A[p_]])),
                ('after-the-pivot', z3.ForAll([p_], z3.Implies(And(r < p_, p_ < hi), x.b(A[r], A[p_])), patterns=[A[p_]])),
                ('same-entries', sub(A, O, lo, hi)), ('outside-unchanged', same_outside(A, O, lo, hi)),
                ('still-distinct', inj(A, x.base, x.base + x.n)), ('still-in-range', rng(A, x.base, x.base + x.n, x.n))]

    def inv(v):
        o = v.old
        x = X(o)
        A, O = x.A(v), x.A(o)
        lo, hi = x.base + Z(o.arg('begin')), x.base + Z(o.arg('end')) + 1
        i, j = x.base + Z(v.var('i')), x.base + Z(v.var('j'))
        pv = A[hi - 1]
        return [('range', And(lo <= i, i <= j, j < hi)),
                ('small', z3.ForAll([p_], z3.Implies(And(lo <= p_, p_ < i), x.b(A[p_], pv)), patterns=[A[p_]])),
                ('large', z3.ForAll([p_], z3.Implies(And(i <= p_, p_ < j), x.b(pv, A[p_])), patterns=[A[p_]])),
                ('entries', sub(A, O, lo, hi)), ('outside', same_outside(A, O, lo, hi)), ('distinct', inj(A, x.base, x.base + x.n)), ('in-range', rng(A, x.base, x.base + x.n, x.n))]
    return Contract('quick_sort_partition', pre, post, mods=lambda v: [(v.arg('idx'), ('i64',))], frees=lambda v: [], setup=ghost_len,
                    opts={'interior': ('idx', 'dataPtr'), 'aligned': {'idx': 8}, 'indirect': h_compare},
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.old.arg('end')) - Z(v.var('j')))})


# ---- heap -----------------------------------------------------------------------
def c_sift():
    def X(v):
        return Ix(v, 'heap', 'compare', 'data')

    def pre(v):
        x = X(v)
        A, s, e = x.A(v), Z(v.arg('start')), Z(v.arg('end'))
        return [And(s >= 0, s <= e, e < x.n, x.n <= 1 << 40), v.valid(x.pi, 8 * x.n), rng(A, x.base, x.base + x.n, x.n), inj(A, x.base, x.base + x.n),
                heap(x.b, A, x.base, s + 1, e)] + x.axioms()

    def post(v):
        o = v.old
        x = X(o)
        A, O, s, e = x.A(v), x.A(o), Z(o.arg('start')), Z(o.arg('end'))
        lo, hi = x.base + s, x.base + e + 1
        return [('heap-order', heap(x.b, A, x.base, s, e)), ('same-entries', sub(A, O, lo, hi)), ('outside-unchanged', same_outside(A, O, lo, hi)),
                ('still-distinct', inj(A, x.base, x.base + x.n)), ('still-in-range', rng(A, x.base, x.base + x.n, x.n))]

    def inv(v):
        o = v.old
        x = X(o)
        A, O, s, e = x.A(v), x.A(o), Z(o.arg('start')), Z(o.arg('end'))
        lo, hi = x.base + s, x.base + e + 1
        r = x.base + Z(v.var('root'))
        kid = lambda c, p: z3.Or(c - x.base == 2 * (p - x.base) + 1, c - x.base == 2 * (p - x.base) + 2)
        return [('range', And(lo <= r, r < hi)), ('heap-except-root', heap(x.b, A, x.base, s, e, skip=r)),
                ('grandparent', z3.ForAll([p_, q_], z3.Implies(And(p_ >= lo, q_ < hi, kid(r, p_), kid(q_, r)), z3.Not(x.b(A[p_], A[q_]))), patterns=[z3.MultiPattern(A[p_], A[q_])])),
                ('entries', sub(A, O, lo, hi)), ('outside', same_outside(A, O, lo, hi)), ('distinct', inj(A, x.base, x.base + x.n)), ('in-range', rng(A, x.base, x.base + x.n, x.n))]
    return Contract('heap_sift_down', pre, post, mods=lambda v: [(v.arg('heap'), ('i64',))], frees=lambda v: [], setup=ghost_len,
                    opts={'interior': ('heap', 'data'), 'aligned': {'heap': 8}, 'indirect': h_compare},
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.old.arg('end')) - Z(v.var('root')))})


def c_make():
    def X(v):
        return Ix(v, 'heap', 'compare', 'data')

    def pre(v):
        x = X(v)
        A, k = x.A(v), Z(v.arg('heap_size'))
        return [And(k >= 0, k <= x.n, x.n <= 1 << 40), v.valid(x.pi, 8 * x.n), rng(A, x.base, x.base + x.n, x.n), inj(A, x.base, x.base + x.n)] + x.axioms()

    def post(v):
        o = v.old
        x = X(o)
        A, O, k = x.A(v), x.A(o), Z(o.arg('heap_size'))
        lo, hi = x.base, x.base + k
        return [('heap-order', heap(x.b, A, x.base, 0, k - 1)), ('outside-unchanged', same_outside(A, O, lo, hi)), ('same-entries', sub(A, O, lo, hi)),
                ('still-distinct', inj(A, x.base, x.base + x.n)), ('still-in-range', rng(A, x.base, x.base + x.n, x.n))]

    def inv(v):
        o = v.old
        x = X(o)
        A, O, k = x.A(v), x.A(o), Z(o.arg('heap_size'))
        lo, hi = x.base, x.base + k
        s = Z(v.var('start'))
        return [('range', And(s >= -1, 2 * s + 2 <= k)), ('heap-above', heap(x.b, A, x.base, s + 1, k - 1)),
                ('outside', same_outside(A, O, lo, hi)), ('entries', sub(A, O, lo, hi)), ('distinct', inj(A, x.base, x.base + x.n)), ('in-range', rng(A, x.base, x.base + x.n, x.n))]
    return Contract('make_heap', pre, post, mods=lambda v: [(v.arg('heap'), ('i64',))], frees=lambda v: [], setup=ghost_len,
                    opts={'interior': ('heap', 'data'), 'aligned': {'heap': 8}, 'indirect': h_compare},
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.var('start')) + 1)})


def order_lemmas(tier):
    """'value order, then index' is a strict total order (integers; floats other than NaN)"""
    ob = []

    def lem(nm, hyps, goal):
        s = z3.Solver()
        s.add(*hyps)
        s.add(z3.Not(goal))
        ob.append(('lemma:' + nm, s.to_smt2(), 120))
    i, j, k = z3.Ints('i j k')
    for nm, sort in (('integer', I), ('float', F32), ('double', F64)):
        a, b, c = [z3.Const(n, sort) for n in 'abc']
        fp = sort != I
        for d in (0, 1):
            lt = (lambda x, y: z3.fpLT(x, y)) if fp else (lambda x, y: x < y)
            eq = (lambda x, y: z3.fpEQ(x, y)) if fp else (lambda x, y: x == y)
            bef = lambda x, m, y, n: z3.Or(lt(y, x) if d else lt(x, y), And(eq(x, y), m < n))
            h = [z3.Not(z3.fpIsNaN(t)) for t in (a, b, c)] if fp else []
            t = '%s-%s' % (nm, 'descending' if d else 'ascending')
            lem('irreflexive-' + t, h, z3.Not(bef(a, i, a, i)))
            lem('total-' + t, h + [i != j], bef(a, i, b, j) != bef(b, j, a, i))
            lem('transitive-' + t, h + [bef(a, i, b, j), bef(b, j, c, k)], bef(a, i, c, k))
    return ob


# ---- the slice walk of omTensorSort / omTensorTopK ---------------------------------
OFF = z3.Function('SLICE_OFFSET', I, I, I, I, I, I)
INS = z3.Function('IS_SLICE_OFFSET', I, B)
OUT = z3.Function('OUTSIDE_EVERY_SLICE', I, B)
T5 = z3.Ints('t0 t1 t2 t3 t4')


class Walk:
    def __init__(self, v, es):
        self.v, self.es = v, es
        self.t, self.o = v.arg('inputTensor'), v.arg('orderTensor')
        self.rank = Z(v.fld(self.t, RK, 'i64'))
        self.sh, self.st = v.fld(self.t, SH, 'ptr'), v.fld(self.t, ST, 'ptr')
        self.S, self.D = v.inner('i64', self.sh), v.inner('i64', self.st)
        self.dt = Z(v.fld(self.t, DT, 'i32'))
        self.data, self.ord = v.fld(self.t, AG, 'ptr'), v.fld(self.o, AG, 'ptr')
        self.n = self.S[self.rank - 1]
        self.f = v.st.ghost['cmp']

    def psh(self, j):
        return z3.If(j >= 6 - self.rank, self.S[j - 6 + self.rank], 1)

    def pst(self, j):
        return z3.If(j >= 6 - self.rank, self.D[j - 6 + self.rank], 0)

    def A(self, v):
        return v.inner('i64', self.ord)

    def bef(self, o, x, y):
        return BEF(self.f, Z(self.data.obj), Z(self.data.off.expr()) + self.es * o, x, y)

    def box(self, t):
        return And(*[And(t[j] >= 0, t[j] < self.psh(j)) for j in range(5)])

    def distinct(self, A):
        return [z3.ForAll([o_, p_], z3.Implies(And(INS(o_), o_ <= p_, p_ < o_ + self.n), And(A[p_] >= 0, A[p_] < self.n)), patterns=[z3.MultiPattern(INS(o_), A[p_])]),
                z3.ForAll([o_, p_, q_], z3.Implies(And(INS(o_), o_ <= p_, p_ < q_, q_ < o_ + self.n), A[p_] != A[q_]), patterns=[z3.MultiPattern(INS(o_), A[p_], A[q_])])]

    def pre(self):
        v = self.v
        d = z3.Int('doff')
        a = lambda x, y: BEF(self.f, Z(self.data.obj), d, x, y)
        objs = [self.t, self.o, self.sh, self.st, self.data, v.fld(self.o, SH, 'ptr'), v.fld(self.o, ST, 'ptr')]
        dims = [And(self.S[j] >= 0, self.S[j] < (1 << 31) - 1) for j in range(6)]
        return [wf(v, self.t), wf(v, self.o), And(self.rank >= 1, self.rank <= 6), Z(v.arg('axis')) == self.rank - 1, self.D[self.rank - 1] == 1,
                And(*[z3.Implies(j < self.rank, c) for j, c in enumerate(dims)]), z3.Or(*[self.dt == t[1] for t in TYPES if t[4] == self.es]),
                Z(self.ord.off.expr()) == 0, Z(self.data.off.expr()) >= 0, And(*[Z(self.ord.obj) != Z(x.obj) for x in objs]), v.st.ghost['len'] == self.n, self.f == CMPF(z3.If(Z(v.arg('ascending')) != 0, 1, 0), self.dt),
                Z(self.ord.obj) > 0, v.alive(self.ord), Z(self.data.obj) > 0, v.alive(self.data),
                z3.ForAll(T5, z3.Implies(self.box(T5), INS(OFF(*T5))), patterns=[OFF(*T5)]),
                z3.ForAll([o_], z3.Implies(INS(o_), And(o_ >= 0, 8 * (o_ + self.n) <= v.size(self.ord), Z(self.data.off.expr()) + self.es * (o_ + self.n) <= v.size(self.data))), patterns=[INS(o_)]),
                z3.ForAll([o_, p_], z3.Implies(And(INS(o_), INS(p_)), z3.Or(o_ == p_, o_ + self.n <= p_, p_ + self.n <= o_)), patterns=[z3.MultiPattern(INS(o_), INS(p_))]),
                z3.ForAll([o_, p_], z3.Implies(And(INS(o_), OUT(p_)), z3.Or(p_ < o_, p_ >= o_ + self.n)), patterns=[z3.MultiPattern(INS(o_), OUT(p_))]),
                z3.ForAll([d, x_], z3.Not(a(x_, x_)), patterns=[a(x_, x_)]), z3.ForAll([d, x_, y_], z3.Implies(x_ != y_, a(x_, y_) != a(y_, x_)), patterns=[a(x_, y_)]),
                z3.ForAll([d, x_, y_, s_], z3.Implies(And(a(x_, y_), a(y_, s_)), a(x_, s_)), patterns=[z3.MultiPattern(a(x_, y_), a(y_, s_))])] + self.distinct(self.A(v))

    def fill(self):
        """the loop that pads shape and strides to six axes"""
        def inv(v):
            w = Walk(v.old, self.es)
            i = Z(v.var('i'))
            S, D = v.inner('i64', v.var('shape')), v.inner('i64', v.var('strides'))
            return [('range', And(i >= 0, i <= w.rank)),
                    ('shape', And(*[S[j] == z3.If(And(j >= 6 - w.rank, j < 6 - w.rank + i), w.S[j - 6 + w.rank], 1) for j in range(6)])),
                    ('strides', And(*[D[j] == z3.If(And(j >= 6 - w.rank, j < 6 - w.rank + i), w.D[j - 6 + w.rank], 0) for j in range(6)]))]
        return Loop(inv, variant=lambda v: Walk(v.old, self.es).rank - Z(v.var('i')), writes=lambda v: [('i64', v.var('shape')), ('i64', v.var('strides'))])


def lexless(t, dims):
    r = z3.BoolVal(False)
    for j in reversed(range(len(dims))):
        r = z3.Or(t[j] < dims[j], And(t[j] == dims[j], r))
    return r


def done_sort(w, A, cond, hi=None):
    """every slice whose indices satisfy cond is in order"""
    o = OFF(*T5)
    return z3.ForAll(T5 + [p_, q_], z3.Implies(And(w.box(T5), cond, o <= p_, p_ < q_, q_ < o + (w.n if hi is None else hi)), w.bef(o, A[p_], A[q_])), patterns=[z3.MultiPattern(o, A[p_], A[q_])])


def done_topk(w, A, cond, k):
    """every slice whose indices satisfy cond has its k first entries before all others"""
    o = OFF(*T5)
    return z3.ForAll(T5 + [p_, q_], z3.Implies(And(w.box(T5), cond, o <= p_, p_ < o + k, o + k <= q_, q_ < o + w.n), w.bef(o, A[p_], A[q_])), patterns=[z3.MultiPattern(o, A[p_], A[q_])])


def m_qsort_r(eng, st, fr, i, a):
    base, n, sz, cmpf, data = a
    v = View(eng, st, None, {})
    eng.oblige(st, 'call-pre', 'qsort_r.element-size', Z(sz) == 8, i.get('line'))
    eng.oblige(st, 'call-pre', 'qsort_r.room', z3.Or(Z(n) == 0, v.valid(base, 8 * Z(n))), i.get('line'))
    b, n, L = Z(v.idx('i64', base)), Z(n), Z(st.ghost['len'])
    A = v.inner('i64', base)
    eng.oblige(st, 'call-pre', 'qsort_r.indices-in-slice', rng(A, b, b + n, L), i.get('line'))
    eng.oblige(st, 'call-pre', 'qsort_r.data-of-the-slice', And(Z(data.off.expr()) >= 0, Z(data.off.expr()) + st.ghost['es'] * L <= v.size(data), v.alive(data)), i.get('line'))
    F, Do, Dx = fresh('cmpf'), fresh('dobj'), fresh('doff')
    eng.assume(st, And(F == Z(cmpf.obj), Do == Z(data.obj), Dx == Z(data.off.expr())))
    for j, x in enumerate(order_axioms(F, Do, Dx)):
        eng.oblige(st, 'call-pre', 'qsort_r.strict-total-order.%d' % j, x, i.get('line'))
    eng.record(st, base, 'i64')
    N = eng.inner_havoc(st, 'i64', base.obj)
    for f in (same_outside(N, A, b, b + n), sub(N, A, b, b + n), z3.Implies(inj(A, b, b + n), inj(N, b, b + n)),
              z3.ForAll([p_, q_], z3.Implies(And(b <= p_, p_ < q_, q_ < b + n), z3.Not(BEF(F, Do, Dx, N[q_], N[p_]))), patterns=[z3.MultiPattern(N[p_], N[q_])])):
        st.pc.append(f)
    return None


def walk_models(es):
    def m_size(eng, st, fr, i, a):
        v = View(eng, st, None, {})
        eng.oblige(st, 'call-pre', 'getDataTypeSize.type', z3.Or(*[Z(a[0]) == t[1] for t in TYPES if t[4] == es]), i.get('line'))
        return es

    def get(off, ty):
        return lambda eng, st, fr, i, a: View(eng, st, None, {}).fld(a[0], off, ty)
    return {'getDataTypeSize': m_size, 'omTensorGetDataType': get(DT, 'i32'), 'omTensorGetRank': get(RK, 'i64'), 'omTensorGetShape': get(SH, 'ptr'), 'omTensorGetStrides': get(ST, 'ptr'), 'omTensorGetDataPtr': get(AG, 'ptr'),
            'qsort_r': m_qsort_r}


def walk_ghosts(es):
    def f(v):
        v.st.ghost['len'] = z3.Int('slice_len')
        v.st.ghost['es'] = es
        v.st.ghost['cmp'] = z3.Int('comparator')
    return f


def off_lemma(w, dims):
    return [OFF(*dims) == sum((dims[j] * w.pst(j) for j in range(1, 5)), dims[0] * w.pst(0))]


def slice_lemma(w, dims):
    """definition of the offset and the instance of the precondition for the current slice"""
    return off_lemma(w, dims) + [z3.Implies(w.box(dims), INS(OFF(*dims)))]


def walk_loops(es, done, extra=None):
    """invariants of the fill loop and of the five slice loops; done(v, w, A, cond) -> [(name, fact)]"""
    def dims(v, L):
        return [Z(v.var('dim%d' % j)) for j in range(L + 1)]

    def level(L):
        def inv(v):
            w = Walk(v.old, es)
            A, O = w.A(v), w.A(v.old)
            d = dims(v, L)
            r = [('range', And(*([And(d[j] >= 0, d[j] < w.psh(j)) for j in range(L)] + [And(d[L] >= 0, d[L] <= w.psh(L))]))),
                 ]
            r += done(v, w, A, lexless(T5, d))
            r += [('indices-in-range', w.distinct(A)[0]), ('indices-distinct', w.distinct(A)[1]), ('outside', z3.ForAll([p_], z3.Implies(OUT(p_), A[p_] == O[p_]), patterns=[A[p_]]))]
            return r

        def lem(v):
            w = Walk(v.old, es)
            return slice_lemma(w, dims(v, 4)) if L == 4 else []

        return Loop(inv, variant=lambda v: Walk(v.old, es).psh(L) - Z(v.var('dim%d' % L)), lemmas=lem, writes=lambda v: [('i64', Walk(v.old, es).ord)])
    return {j: level(j) for j in range(5)}


def c_sort(es, prove=True):
    W = lambda v: Walk(v, es)

    def post(v):
        w = W(v.old)
        A, O = w.A(v), w.A(v.old)
        return [('every-slice-in-stable-order', done_sort(w, A, z3.BoolVal(True))), ('permutation-in-range', w.distinct(A)[0]), ('permutation-distinct', w.distinct(A)[1]),
                ('outside-unchanged', z3.ForAll([p_], z3.Implies(OUT(p_), A[p_] == O[p_]), patterns=[A[p_]]))]
    lv = walk_loops(es, lambda v, w, A, cond: [('slices-so-far-in-order', done_sort(w, A, cond))])
    loops = {'count': 6, 0: Loop(lambda v: [])}
    if prove:
        loops = {'count': 6}
        loops[0] = Walk.fill(type('F', (), {'es': es})())
        for j in range(5):
            loops[1 + j] = lv[j]
    return Contract('omTensorSort', lambda v: W(v).pre(), post, mods=lambda v: [(W(v).ord, ('i64',))], frees=lambda v: [], setup=walk_ghosts(es), args=['orderTensor', 'inputTensor', 'axis', 'ascending'],
                    opts={'overflow': 'assume', 'unsigned_nowrap': True, 'name_products': True}, loops=loops, trusted=not prove)


def heap_root_lemma(b, A, base, k):
    """in a heap of distinct entries every other entry comes before the root (proved by induction in order_lemmas)"""
    return z3.Implies(And(heap(b, A, base, 0, k - 1), inj(A, base, base + k)),
                      z3.ForAll([p_], z3.Implies(And(base < p_, p_ < base + k), b(A[p_], A[base])), patterns=[A[p_]]))


def bound_vars(h):
    return h.num_vars() if z3.is_quantifier(h) else 0


def mentions(h, d):
    seen, w = set(), [h]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            w.append(x.body())
        elif z3.is_app(x):
            if x.decl().eq(d):
                return True
            w.extend(x.children())
    return False


def topk_focus(name, h):
    if ('loop6' in name and 'established' not in name or 'heap_sift_down' in name) and not bound_vars(h) and has_product(h):
        return False
    return topk_focus_(name, h)


def topk_focus_(name, h):
    """per-slice obligations do not need the facts about the other slices"""
    local = 'heap_sift_down' in name or 'make_heap' in name or 'loop6' in name or 'comparator' in name or name.startswith('cut:')
    if local and bound_vars(h) >= 5:
        return False
    if ('loop6' in name or 'cut:' in name) and 'established' not in name and bound_vars(h) and mentions(h, INS):
        return False
    if ('heap_sift_down.3' in name or 'heap_sift_down.4' in name or 'heap_sift_down.2' in name) and bound_vars(h) and (mentions(h, INS) or mentions(h, OUT)):
        return False
    return True


def c_topk(es):
    W = lambda v: Walk(v, es)
    K = lambda v: Z(v.arg('k_u64'))

    def facts(v, w, A, cond):
        k = K(v.old)
        return [('slices-so-far-selected', done_topk(w, A, cond, k)), ('slices-so-far-sorted', imp(Z(v.old.arg('sorted')) != 0, done_sort(w, A, cond, k)))]

    def pre(v):
        w = W(v)
        return w.pre() + [And(K(v) >= 0, K(v) <= w.n)]

    def post(v):
        w = W(v.old)
        A, O = w.A(v), w.A(v.old)
        k = K(v.old)
        return [('first-k-come-before-the-rest', imp(k > 0, done_topk(w, A, z3.BoolVal(True), k))), ('first-k-sorted', imp(And(k > 0, Z(v.old.arg('sorted')) != 0), done_sort(w, A, z3.BoolVal(True), k))),
                ('permutation-in-range', w.distinct(A)[0]), ('permutation-distinct', w.distinct(A)[1]),
                ('outside-unchanged', z3.ForAll([p_], z3.Implies(OUT(p_), A[p_] == O[p_]), patterns=[A[p_]]))]
    lv = walk_loops(es, facts)
    cur = lambda v: [Z(v.var('dim%d' % j)) for j in range(5)]

    def here(v):
        """offset of the current slice: the local of the code when it has one"""
        try:
            return Z(v.var('off'))
        except Unsupported:
            return OFF(*cur(v))

    def select_inv(v):
        w = W(v.old)
        A, E = w.A(v), w.A(v.entry)
        k, d, i, o = K(v.old), cur(v), Z(v.var('i')), here(v)
        b = lambda x, y: w.bef(o, x, y)
        return [('offset', o == OFF(*d)), ('room', And(o >= 0, 8 * (o + w.n) <= v.size(w.ord))), ('range', And(i >= k, i <= w.n)), ('heap', heap(b, A, o, 0, k - 1)),
                ('selected-so-far', z3.ForAll([p_, q_], z3.Implies(And(o <= p_, p_ < o + k, o + k <= q_, q_ < o + i), b(A[p_], A[q_])), patterns=[z3.MultiPattern(A[p_], A[q_])])),
                ('slice-in-range', rng(A, o, o + w.n, w.n)), ('slice-distinct', inj(A, o, o + w.n)), ('other-slices', same_outside(A, E, o, o + w.n))]

    def select_lem(v):
        w = W(v.old)
        o = here(v)
        return slice_lemma(w, cur(v)) + [heap_root_lemma(lambda x, y: w.bef(o, x, y), w.A(v), o, K(v.old))]

    def cuts(v):
        w = W(v.old)
        A, H = w.A(v), w.A(v.head)
        k, d = K(v.old), cur(v)
        d = d[:4] + [d[4] - 1]
        o = OFF(*d)
        b = lambda x, y: w.bef(o, x, y)
        return [('offset', off_lemma(w, d)[0]),
                ('other-slices-untouched', same_outside(A, H, o, o + w.n)), ('slice-in-range', rng(A, o, o + w.n, w.n)), ('slice-distinct', inj(A, o, o + w.n)),
                ('slice-selected', z3.ForAll([p_, q_], z3.Implies(And(o <= p_, p_ < o + k, o + k <= q_, q_ < o + w.n), b(A[p_], A[q_])), patterns=[z3.MultiPattern(A[p_], A[q_])])),
                ('slice-sorted', imp(Z(v.old.arg('sorted')) != 0, z3.ForAll([p_, q_], z3.Implies(And(o <= p_, p_ < q_, q_ < o + k), b(A[p_], A[q_])), patterns=[z3.MultiPattern(A[p_], A[q_])])))]
    lv[4].cuts = cuts
    loops = {'count': 7, 0: Walk.fill(type('F', (), {'es': es})()), 6: Loop(select_inv, variant=lambda v: W(v.old).n - Z(v.var('i')), lemmas=select_lem, writes=lambda v: [('i64', W(v.old).ord)])}
    for j in range(5):
        loops[1 + j] = lv[j]
    return Contract('omTensorTopK', pre, post, mods=lambda v: [(W(v).ord, ('i64',))], frees=lambda v: [], setup=walk_ghosts(es),
                    opts={'overflow': 'assume', 'unsigned_nowrap': True, 'name_products': True, 'indirect': h_compare, 'focus': topk_focus}, loops=loops)


def heap_lemmas(tier):
    A = z3.Const('A', AII)
    base, k, c = z3.Ints('base k c')
    b = lambda x, y: BEF(0, 0, 0, x, y)
    s = z3.Solver()
    s.add(*order_axioms(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)))
    s.add(heap(b, A, base, 0, k - 1), inj(A, base, base + k), c > 0, c < k)
    par = z3.Int('par')
    s.add(z3.Or(c == 2 * par + 1, c == 2 * par + 2))
    # induction hypothesis at the parent, a smaller position
    s.add(par >= 0, par < c, z3.Implies(par > 0, b(A[base + par], A[base])))
    s.add(z3.Not(b(A[base + c], A[base])))
    t = z3.Solver()
    t.add(c > 0, z3.Not(z3.Exists([par], And(z3.Or(c == 2 * par + 1, c == 2 * par + 2), par >= 0, par < c))))
    return [('lemma:heap-root-is-last:step', s.to_smt2(), 60), ('lemma:heap-root-is-last:parent-is-smaller', t.to_smt2(), 60)]
