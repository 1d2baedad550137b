import z3
import irvc, irbv
from irvc import *
from omt import *
from suite import Group, Native
PROP = 'C06'
EXPLAIN = ('isLessNum and isEqualNum are proved to be the order and equality of the element type, isLessSlice and isEqualSlice the lexicographic order and element-wise equality of two slices, for each width of element. '
           'sliceTableRegister is proved, for slices of any length, with and without each optional output, to keep the table strictly ascending (sorted) or in first-occurrence order (unsorted), to contain exactly the classes of the slices registered so far, '
           'indices = first occurrence, inverse indices = position of the class of each slice, counts = number of equal slices, and the return value = seen before. '
           'omTensorUnique (both the flattened and the axis form) is proved over that contract to report the number of distinct slices and to leave the outputs in that relation for the whole input, and to write no output that is not requested; omTensorUniqueCount passes its arguments on. '
           'getSliceData and produceY (six nested gather loops) are outside the contracts: bounded monitor.')
ASSUMPTIONS = ['no NaN among the data (for equality and order)', 'without axis the input is dense', 'less than 2^31-1 slices and elements per slice, byte sizes fit in 64 bits', 'allocation succeeds',
               'the outputs have room for the number of distinct slices (the caller sizes them with omTensorUniqueCount), inverse indices for all slices',
               'input, outputs and temporary buffers do not overlap',
               'a total preorder of finitely many slices is represented by integer ranks: RANK(a) < RANK(b) iff a is less than b, equal iff equal (the lexicographic order is proved to be such a preorder by induction)']
TRUSTED = ['memcmp is equality of the bytes compared', 'getSliceData fills its buffer with the given slice of the input and produceY writes only Y (both only monitored)']
KINDS = [('i8', 1, {2: 'u', 3: 's', 9: 'u'}), ('i16', 2, {4: 'u', 5: 's'}), ('i32', 4, {6: 's', 12: 'u'}), ('i64', 8, {7: 's', 13: 'u'}), ('f32', 4, {1: 'f'}), ('f64', 8, {11: 'f'})]
ALLT = [d for k in KINDS for d in k[2]]


def less(kind, size, types, dt, a, b):
    if 'f' in types.values():
        return z3.fpLT(a, b)
    w = 8 * size
    u = lambda x: z3.If(Z(x) < 0, Z(x) + (1 << w), Z(x))
    us = z3.Or(*([z3.BoolVal(False)] + [Z(dt) == d for d, c in types.items() if c == 'u']))
    return z3.If(us, u(a) < u(b), Z(a) < Z(b))


def equal(types, a, b):
    return z3.fpEQ(a, b) if 'f' in types.values() else Z(a) == Z(b)


def elem_ok(types, dt, e):
    """no NaN; a bool holds 0 or 1"""
    if 'f' in types.values():
        return z3.Not(z3.fpIsNaN(e))
    if 9 in types:
        return imp(Z(dt) == 9, And(Z(e) >= 0, Z(e) <= 1))
    return z3.BoolVal(True)


def m_memcmp(kind, size):
    def f(eng, st, fr, i, a):
        p, q, n = a
        v = View(eng, st, None, {})
        eng.oblige(st, 'call-pre', 'memcmp.one-element', Z(n) == size, i.get('line'))
        for x in (p, q):
            eng.oblige(st, 'bounds', 'memcmp', v.valid(x, size), i.get('line'))
        r = fresh('memcmp')
        eng.assume(st, And(r >= -(1 << 31), r < 1 << 31, (r == 0) == (v.rd(kind, p) == v.rd(kind, q))))
        return r
    return f


def m_dtsize(size):
    def f(eng, st, fr, i, a):
        eng.oblige(st, 'call-pre', 'getDataTypeSize.type', z3.Or(*[Z(a[0]) == d for k in KINDS if k[1] == size for d in k[2]]), i.get('line'))
        return size
    return f


def c_num(kind, size, types, name):
    dtp = lambda v: z3.Or(*[Z(v.arg('dataType')) == d for d in types])

    def pre(v):
        a, b = v.arg('arg1'), v.arg('arg2')
        x, y = v.rd(kind, a), v.rd(kind, b)
        return [dtp(v), v.valid(a, size), v.valid(b, size), elem_ok(types, v.arg('dataType'), x), elem_ok(types, v.arg('dataType'), y)] + ([Z(v.arg('dataSize')) == size] if name == 'isEqualNum' else [])

    def post(v):
        o = v.old
        x, y = o.rd(kind, o.arg('arg1')), o.rd(kind, o.arg('arg2'))
        c = less(kind, size, types, o.arg('dataType'), x, y) if name == 'isLessNum' else equal(types, x, y)
        return [('value-order' if name == 'isLessNum' else 'value-equality', (Z(v.ret) != 0) == c)]
    return Contract(name, pre, post, mods=lambda v: [], frees=lambda v: [], opts={'aligned': {'arg1': size, 'arg2': size}})


def c_slice(kind, size, types, name):
    def parts(v):
        o = v.old or v
        A, B_ = o.inner(kind, o.arg('elem1')), o.inner(kind, o.arg('elem2'))
        return o, A, Z(o.idx(kind, o.arg('elem1'))), B_, Z(o.idx(kind, o.arg('elem2'))), Z(o.arg('dataType'))
    n = z3.Int('slice_elements')

    def pre(v):
        o, A, a, B_, b, dt = parts(v)
        return [z3.Or(*[dt == d for d in types]), n >= 0, n < (1 << 31) - 1, Z(v.arg('elemSize')) == size * n, v.valid(v.arg('elem1'), size * n), v.valid(v.arg('elem2'), size * n),
                forall(k_, z3.Implies(And(k_ >= a, k_ < a + n), elem_ok(types, dt, A[k_])), A[k_]), forall(k_, z3.Implies(And(k_ >= b, k_ < b + n), elem_ok(types, dt, B_[k_])), B_[k_])]

    def eq_to(v, i):
        o, A, a, B_, b, dt = parts(v)
        return z3.ForAll([k_], z3.Implies(And(k_ >= a, k_ < a + i), equal(types, A[k_], B_[k_ - a + b])), patterns=[A[k_]])

    def post(v):
        o, A, a, B_, b, dt = parts(v)
        if name == 'isEqualSlice':
            return [('all-elements-equal', imp(Z(v.ret) != 0, eq_to(v, n))), ('some-element-differs', imp(Z(v.ret) == 0, z3.Not(eq_to(v, n))))]
        j = z3.Int('j!first')
        first = lambda lt: z3.Exists([j], And(j >= 0, j < n, eq_to(v, j), z3.Not(equal(types, A[a + j], B_[b + j])), lt(A[a + j], B_[b + j])))
        L = lambda x, y: less(kind, size, types, dt, x, y)
        return [('less-at-the-first-difference', imp(Z(v.ret) != 0, first(L))), ('otherwise-equal-or-greater-there', imp(Z(v.ret) == 0, z3.Or(eq_to(v, n), first(lambda x, y: z3.Not(L(x, y))))))]
    lp = Loop(lambda v: [('range', And(Z(v.var('i')) >= 0, Z(v.var('i')) <= n)), ('equal-so-far', eq_to(v, Z(v.var('i'))))], variant=lambda v: n - Z(v.var('i')), writes=lambda v: [])
    return Contract(name, pre, post, mods=lambda v: [], frees=lambda v: [], loops={'count': 1, 0: lp}, opts={'aligned': {'elem1': size, 'elem2': size}, 'overflow': 'assume'})


# ---- the table of unique slices, over slice ranks --------------------------------
T_DT, T_SORT, T_NE, T_N, T_MAX, T_DATA, T_IND, T_INV, T_CNT = 0, 8, 16, 24, 32, 40, 48, 56, 64
REG = z3.Function('REG', I, I)                  # rank of the o-th input slice
FST = z3.Function('FIRST', I, I)                # first input slice of that rank
DC = z3.Function('DISTINCT', I, I)              # number of distinct slices among the first o
CNT = z3.Function('OCCURRENCES', I, I, I)       # number of slices of that rank among the first o
ROOM = z3.Int('room')
DEN = z3.ArraySort(I, AII)                      # (object, byte offset) -> rank of the slice stored there
i_, j_ = z3.Ints('i j')


def rank_axioms():
    return [z3.ForAll([o_], z3.Implies(o_ >= 0, And(FST(REG(o_)) >= 0, FST(REG(o_)) <= o_, REG(FST(REG(o_))) == REG(o_))), patterns=[REG(o_)])]


def step_axioms(off):
    off = Z(off)
    r = REG(off)
    return [DC(0) == 0, imp(off >= 0, DC(off + 1) == DC(off) + z3.If(FST(r) == off, 1, 0)), imp(off >= 0, And(DC(off) >= 0, DC(off) <= off)),
            forall(k_, CNT(off + 1, k_) == CNT(off, k_) + z3.If(k_ == r, 1, 0), CNT(off + 1, k_)), imp(And(off >= 0, FST(r) == off), CNT(off, r) == 0), forall(k_, CNT(0, k_) == 0, CNT(0, k_))]


def count_lemmas():
    """the facts of step_axioms that need induction: each is proved from the definitions"""
    o, p = z3.Ints('o p')
    out = []
    s = z3.Solver()
    s.add(*rank_axioms())
    s.add(p >= 0, p < o, FST(REG(o)) == o, CNT(p, REG(o)) == 0, CNT(p + 1, REG(o)) == CNT(p, REG(o)) + z3.If(REG(o) == REG(p), 1, 0), CNT(p + 1, REG(o)) != 0)
    out.append(('lemma:a-new-slice-has-no-occurrence:step', s.to_smt2(), 60))
    s = z3.Solver()
    s.add(DC(o) >= 0, DC(o) <= o, DC(o + 1) == DC(o) + z3.If(FST(REG(o)) == o, 1, 0), z3.Not(And(DC(o + 1) >= 0, DC(o + 1) <= o + 1, DC(o + 1) >= DC(o))))
    out.append(('lemma:distinct-count-bounded-and-monotone:step', s.to_smt2(), 60))
    # the lexicographic order on slices is a total preorder whose equality is element-wise equality: induction on the length
    LE = z3.Function('LE', I, I, I, B)     # (length, slice, slice)
    EQ = z3.Function('EQ', I, I, I, B)
    hd = z3.Function('HEAD', I, I, I)      # first of the remaining elements
    tl = z3.Function('TAIL', I, I, I)
    n = z3.Int('n')
    a, b, c = z3.Ints('a b c')
    le = lambda x, y: z3.Or(hd(n + 1, x) < hd(n + 1, y), And(hd(n + 1, x) == hd(n + 1, y), LE(n, tl(n + 1, x), tl(n + 1, y))))
    eq = lambda x, y: And(hd(n + 1, x) == hd(n + 1, y), EQ(n, tl(n + 1, x), tl(n + 1, y)))
    hyp = [z3.ForAll([a, b, c], z3.Implies(And(LE(n, a, b), LE(n, b, c)), LE(n, a, c))), z3.ForAll([a, b], z3.Or(LE(n, a, b), LE(n, b, a))), z3.ForAll([a, b], EQ(n, a, b) == And(LE(n, a, b), LE(n, b, a)))]
    for nm, goal in (('transitive', z3.Implies(And(le(a, b), le(b, c)), le(a, c))), ('total', z3.Or(le(a, b), le(b, a))), ('equality', eq(a, b) == And(le(a, b), le(b, a)))):
        s = z3.Solver()
        s.add(n >= 0, *hyp)
        s.add(z3.Not(goal))
        out.append(('lemma:lexicographic-order-is-a-total-preorder:%s:step' % nm, s.to_smt2(), 60))
    return out


def table_state(v, N, sorted_, ind_, inv_, cnt_, off):
    """the table (N slices) and the requested outputs after the first `off` slices; an output not requested is null"""
    T = Z(v.st.ghost['T'])      # rank of each slice of the table
    P = Z(v.st.ghost['P'])      # position of a rank in the table
    off = Z(off)
    ind, inv, cnt = v.inner('i64', ind_), v.inner('i64', inv_), v.inner('i64', cnt_)
    return [('number-of-distinct-slices', And(N == DC(off), N >= 0)),
            ('sorted-ascending', imp(sorted_ != 0, z3.ForAll([i_, j_], z3.Implies(And(i_ >= 0, i_ < j_, j_ < N), T[i_] < T[j_]), patterns=[z3.MultiPattern(T[i_], T[j_])]))),
            ('unsorted-first-occurrence-order', imp(sorted_ == 0, z3.ForAll([i_, j_], z3.Implies(And(i_ >= 0, i_ < j_, j_ < N), FST(T[i_]) < FST(T[j_])), patterns=[z3.MultiPattern(T[i_], T[j_])]))),
            ('only-slices-seen', z3.ForAll([j_], z3.Implies(And(j_ >= 0, j_ < N), And(FST(T[j_]) >= 0, FST(T[j_]) < off, REG(FST(T[j_])) == T[j_])), patterns=[T[j_]])),
            ('every-slice-seen', z3.ForAll([o_], z3.Implies(And(o_ >= 0, o_ < off), And(P[REG(o_)] >= 0, P[REG(o_)] < N, T[P[REG(o_)]] == REG(o_))), patterns=[REG(o_)])),
            ('indices-are-first-occurrences', imp(Z(ind_.obj) != 0, z3.ForAll([j_], z3.Implies(And(j_ >= 0, j_ < N), ind[j_] == FST(T[j_])), patterns=[ind[j_]]))),
            ('inverse-indices', imp(Z(inv_.obj) != 0, z3.ForAll([o_], z3.Implies(And(o_ >= 0, o_ < off), And(inv[o_] >= 0, inv[o_] < N, T[inv[o_]] == REG(o_))), patterns=[inv[o_]]))),
            ('counts', imp(Z(cnt_.obj) != 0, z3.ForAll([j_], z3.Implies(And(j_ >= 0, j_ < N), cnt[j_] == CNT(off, T[j_])), patterns=[cnt[j_]])))]


class Table:
    def __init__(self, v, t):
        self.t = t
        f = lambda off, ty='i64': v.fld(t, off, ty)
        self.dt, self.sorted, self.ne, self.n, self.max = Z(f(T_DT, 'i32')), Z(f(T_SORT)), Z(f(T_NE)), Z(f(T_N)), Z(f(T_MAX))
        self.data, self.ind, self.inv, self.cnt = f(T_DATA, 'ptr'), f(T_IND, 'ptr'), f(T_INV, 'ptr'), f(T_CNT, 'ptr')
        self.T = Z(v.st.ghost['T'])
        self.arr = lambda p: v.inner('i64', p)
        self.v = v

    def objs(self):
        return [self.t, self.data, self.ind, self.inv, self.cnt]

    def state(self, off):
        return table_state(self.v, self.n, self.sorted, self.ind, self.inv, self.cnt, off)

    def shape(self, slices):
        """sizes and separation; `slices` are the pointers that slices are read from"""
        v = self.v
        o = self.objs()
        es = [Z(x.obj) for x in o]
        r = [v.valid(self.t, 72), z3.Or(*[self.dt == d for d in ALLT]), self.ne >= 0, self.ne < (1 << 31) - 1, self.max >= 0, self.max < (1 << 31) - 1, ROOM >= 0, ROOM <= self.max]
        B = v.st.ghost['B']
        r += [B == self.ne * DSZ(self.dt), B >= 0, v.alive(self.data), Z(self.data.obj) > 0, Z(self.data.off.expr()) >= 0, Z(self.data.off.expr()) + B * ROOM <= v.size(self.data)]
        for p, n in ((self.ind, ROOM), (self.inv, self.max), (self.cnt, ROOM)):
            r.append(z3.Or(And(Z(p.obj) == 0, Z(p.off.expr()) == 0), And(Z(p.off.expr()) == 0, v.valid(p, 8 * n), Z(p.obj) > 0)))
        for a in range(len(o)):
            for b in range(a):
                r.append(z3.Or(es[a] != es[b], es[a] == 0))
        for s in slices:
            r += [Z(s.obj) != e for e in es]
        return r


DSZ = z3.Function('DATA_TYPE_SIZE', I, I)


def m_dsz(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'getDataTypeSize.type', z3.Or(*[Z(a[0]) == d for d in ALLT]), i.get('line'))
    eng.assume(st, And(DSZ(Z(a[0])) >= 1, DSZ(Z(a[0])) <= 8))
    return DSZ(Z(a[0]))


def slot(eng, st, fr, p, what, line):
    """the table slot (or the slice parameter) that a pointer of sliceTableRegister addresses; None for the slice"""
    base, B = st.ghost['base'], Z(st.ghost['B'])
    if eng.prove(st, And(Z(p.obj) == st.ghost['slice'].obj, Z(p.off.expr()) == Z(st.ghost['slice'].off.expr()))):
        return None
    v = View(eng, st, None, {})
    cands = []
    for nm, d in (('insertIdx', 0), ('j', 0), ('j', -1), ('i', 0)):
        try:
            cands.append(Z(v.var(nm)) + d)
        except Exception:
            pass
    for c in cands:
        if eng.prove(st, And(Z(p.obj) == Z(base.obj), Z(p.off.expr()) == Z(base.off.expr()) + B * c)):
            eng.oblige(st, 'bounds', what + '.slot', And(c >= 0, c < ROOM), line)
            return c
    raise Unsupported('pointer of %s is no slot of the table' % what)


def at(st, s):
    return Z(st.ghost['X']) if s is None else Z(st.ghost['T'])[s]


def m_cmpslice(rel):
    def f(eng, st, fr, i, a):
        x, y = slot(eng, st, fr, a[0], 'comparison', i.get('line')), slot(eng, st, fr, a[1], 'comparison', i.get('line'))
        eng.oblige(st, 'call-pre', 'comparison.size', Z(a[2]) == Z(st.ghost['B']), i.get('line'))
        eng.oblige(st, 'call-pre', 'comparison.type', Z(a[3]) == Z(st.ghost['dt']), i.get('line'))
        return z3.If(rel(at(st, x), at(st, y)), z3.IntVal(1), z3.IntVal(0))
    return f


def m_memcpy(eng, st, fr, i, a):
    if 'slice' not in st.ghost or not eng.prove(st, Z(a[0].obj) == Z(st.ghost['base'].obj)):
        return irvc.b_memcpy(eng, st, fr, i, a)
    d, s = slot(eng, st, fr, a[0], 'copy', i.get('line')), slot(eng, st, fr, a[1], 'copy', i.get('line'))
    eng.oblige(st, 'call-pre', 'copy.size', Z(a[2]) == Z(st.ghost['B']), i.get('line'))
    for k in list(KSZ):
        eng.record(st, a[0], k)
    eng.note(st, ('ghost', 'T'))
    st.ghost['T'] = z3.Store(Z(st.ghost['T']), d, at(st, s))
    if s is None:
        # positions of the ranks once the new slice is at slot d and the later ones moved up by one
        P, N = Z(st.ghost['P']), fresh('positions', AII)
        st.pc.append(forall(k_, N[k_] == z3.If(k_ == at(st, s), d, z3.If(P[k_] >= d, P[k_] + 1, P[k_])), N[k_]))
        eng.note(st, ('ghost', 'P'))
        st.ghost['P'] = N
    return a[0]


def reg_setup(v):
    g = v.st.ghost
    g['T'] = z3.Const('table0', AII)
    g['P'] = z3.Const('positions0', AII)
    g['B'] = z3.Int('slice_bytes')
    g['den'] = z3.Const('slices_in_memory', DEN)
    try:
        t, s = v.arg('table'), v.arg('slice')
    except Unsupported:
        return
    g['slice'] = s
    g['base'] = v.fld(t, T_DATA, 'ptr')
    g['dt'] = Z(v.fld(t, T_DT, 'i32'))
    g['X'] = REG(Z(v.arg('off')))
    for l in rank_axioms() + step_axioms(v.arg('off')):
        v.eng.assume(v.st, l)


def c_register():
    tab = lambda v: Table(v, v.arg('table'))

    def pre(v):
        w, s, off = tab(v), v.arg('slice'), Z(v.arg('off'))
        return w.shape([s]) + [v.valid(s, v.st.ghost['B']), off >= 0, off < w.max, DC(off + 1) <= ROOM, Z(v.st.ghost['den'])[Z(s.obj)][Z(s.off.expr())] == REG(off)] + [c for n, c in w.state(off)]

    def post(v):
        o = v.old
        w, w0, off = Table(v, o.arg('table')), tab(o), Z(o.arg('off'))
        same = [Z(v.fld(o.arg('table'), f, ty)) == Z(o.fld(o.arg('table'), f, ty)) for f, ty in ((T_DT, 'i32'), (T_SORT, 'i64'), (T_NE, 'i64'), (T_MAX, 'i64'))]
        same += [same_ptr(v.fld(o.arg('table'), f, 'ptr'), o.fld(o.arg('table'), f, 'ptr')) for f in (T_DATA, T_IND, T_INV, T_CNT)]
        return [('seen-before', (Z(v.ret) == 0) == (FST(REG(off)) == off)), ('table-setup-unchanged', And(*same))] + w.state(off + 1)

    def mods(v):
        w = tab(v)
        return [(w.t, ('i64',)), (w.data, None), (w.ind, ('i64',)), (w.inv, ('i64',)), (w.cnt, ('i64',))]

    def kept(w, w0):
        return And(w.n == w0.n, w.dt == w0.dt, w.sorted == w0.sorted, w.ne == w0.ne, w.max == w0.max, same_ptr(w.data, w0.data), same_ptr(w.ind, w0.ind), same_ptr(w.inv, w0.inv), same_ptr(w.cnt, w0.cnt))

    def search(v):
        w, x, i = tab(v.old), REG(Z(v.old.arg('off'))), Z(v.var('insertIdx'))
        return [('range', And(i >= 0, i <= w.n)), ('not-found', Z(v.var('found')) == 0),
                ('earlier-differ', z3.ForAll([j_], z3.Implies(And(j_ >= 0, j_ < i), z3.If(w.sorted != 0, w.T[j_] < x, w.T[j_] != x)), patterns=[w.T[j_]]))]

    def shifted(A, A0, j, n):
        return z3.ForAll([k_], A[k_] == z3.If(And(k_ > j, k_ <= n), A0[k_ - 1], A0[k_]), patterns=[A[k_]])

    def shift(v):
        w, w0 = Table(v, v.old.arg('table')), tab(v.old)
        j, ins = Z(v.var('j')), Z(v.var('insertIdx'))
        r = [('range', And(j >= ins, j <= w0.n, ins >= 0)), ('slices', shifted(w.T, w0.T, j, w0.n))]
        for nm, p in (('counts', w0.cnt), ('indices', w0.ind)):
            r.append((nm, imp(Z(p.obj) != 0, shifted(v.inner('i64', p), v.old.inner('i64', p), j, w0.n))))
        return r

    def renumber(v):
        w0 = tab(v.old)
        j, ins = Z(v.var('j')), Z(v.var('insertIdx'))
        A, A0 = v.inner('i64', w0.inv), v.old.inner('i64', w0.inv)
        return [('range', And(j >= 0, j <= Z(v.old.arg('off')))), ('inverse', z3.ForAll([k_], A[k_] == z3.If(And(k_ >= 0, k_ < j, A0[k_] >= ins), A0[k_] + 1, A0[k_]), patterns=[A[k_]]))]
    return Contract('sliceTableRegister', pre, post, mods=mods, frees=lambda v: [], setup=reg_setup, ghosts=('T', 'P'),
                    opts={'overflow': 'assume', 'unsigned_nowrap': True, 'name_products': True, 'interior': ('slice',)},
                    loops={'count': 3, 0: Loop(search, variant=lambda v: tab(v.old).n - Z(v.var('insertIdx')), writes=lambda v: []),
                           1: Loop(shift, variant=lambda v: Z(v.var('j')), writes=lambda v: [('i64', tab(v.old).cnt), ('i64', tab(v.old).ind), ('ghost', 'T')] + [(k, tab(v.old).data) for k in KSZ]),
                           2: Loop(renumber, variant=lambda v: Z(v.old.arg('off')) - Z(v.var('j')), writes=lambda v: [('i64', tab(v.old).inv)])})


# ---- omTensorUnique ----------------------------------------------------------------
NS, NEL = z3.Ints('number_of_slices elements_per_slice')
NUMX = z3.Function('PRODUCT_WITHOUT', AII, I, I, I)     # product of the first n dimensions except one
NUMEL = z3.Function('NUMBER_OF_ELEMENTS', I, I)          # of a tensor object
ARGS = ['totalTensor', 'Y', 'indices', 'inverse_indices', 'counts', 'inputTensor', 'sliceAxis', 'sorted']


class Call:
    """the arguments of a call of omTensorUnique"""

    def __init__(self, v, count_only=False):
        self.v = v
        self.inp, self.tot = v.arg('inputTensor'), v.arg('totalTensor')
        self.axis, self.sorted = Z(v.arg('sliceAxis')), Z(v.arg('sorted'))
        g = lambda n: NULL if count_only else v.arg(n)
        self.Y, self.out = g('Y'), [g('indices'), g('inverse_indices'), g('counts')]
        f = lambda off, ty: v.fld(self.inp, off, ty)
        self.shp, self.rank, self.dt, self.data = f(SH, 'ptr'), Z(f(RK, 'i64')), Z(f(DT, 'i32')), f(AG, 'ptr')
        self.S = v.inner('i64', self.shp)
        self.tp = v.fld(self.tot, AG, 'ptr')
        self.Yp = v.fld(self.Y, AG, 'ptr')
        self.outp = [v.fld(t, AG, 'ptr') for t in self.out]
        self.req = [And(Z(t.obj) != 0, NUMEL(Z(t.obj)) != 0) for t in self.out]
        self.hasY = Z(self.Y.obj) != 0

    def where(self, k):
        """data of output k when it is requested, otherwise null"""
        if isint(self.out[k].obj) and self.out[k].obj == 0:
            return NULL
        return Ptr(z3.Int('requested_output_%d' % k), 0)

    def naming(self):
        return [w.obj == z3.If(c, Z(p.obj), 0) for w, c, p in [(self.where(k), self.req[k], self.outp[k]) for k in range(3)] + [(self.wY(), self.hasY, self.Yp)] if not isint(w.obj)]

    def wY(self):
        if isint(self.Y.obj) and self.Y.obj == 0:
            return NULL
        return Ptr(z3.Int('requested_Y'), 0)

    def pre(self):
        v = self.v
        B = Z(v.st.ghost['B'])
        den = Z(v.st.ghost['den'])
        flat = self.axis < 0
        objs = [(z3.BoolVal(True), self.tp), (self.hasY, self.Yp)] + [(self.req[k], self.outp[k]) for k in range(3)]
        ro = [self.inp, self.shp, self.data, self.tot, self.Y] + self.out + [v.fld(self.inp, ST, 'ptr')]
        r = [wf(v, self.inp), And(self.rank >= 0, self.rank <= 6), self.axis < self.rank, z3.Or(*[self.dt == d for d in ALLT]), DSZ(self.dt) >= 1, DSZ(self.dt) <= 8,
             v.valid(self.tot, OMT_SIZE), v.valid(self.tp, 8), Z(self.tp.off.expr()) == 0, forall(k_, z3.Implies(And(k_ >= 0, k_ < self.rank), self.S[k_] >= 0), self.S[k_]),
             z3.If(flat, And(NS == NUM(self.S, self.rank), NEL == 1), And(NS == self.S[self.axis], NEL == NUMX(self.S, self.axis, self.rank))),
             And(NS >= 0, NS < (1 << 31) - 1, NEL >= 0, NEL < (1 << 31) - 1), B == NEL * DSZ(self.dt), B >= 0, And(ROOM == DC(NS), ROOM >= 0, ROOM <= NS),
             Z(self.data.off.expr()) >= 0, Z(self.data.obj) > 0, v.alive(self.data), B * NS >= 0,
             imp(flat, And(Z(self.data.off.expr()) + DSZ(self.dt) * NS <= v.size(self.data),
                           z3.ForAll([o_], z3.Implies(And(o_ >= 0, o_ < NS), den[Z(self.data.obj)][Z(self.data.off.expr()) + DSZ(self.dt) * o_] == REG(o_)), patterns=[REG(o_)]))),
             imp(self.hasY, And(v.valid(self.Y, OMT_SIZE), Z(self.Yp.obj) > 0, v.alive(self.Yp), Z(self.Yp.off.expr()) == 0, B * ROOM <= v.size(self.Yp)))]
        for k, n in ((0, ROOM), (1, NS), (2, ROOM)):
            r += [imp(Z(self.out[k].obj) != 0, v.valid(self.out[k], OMT_SIZE)), NUMEL(Z(self.out[k].obj)) >= 0,
                  imp(self.req[k], And(v.valid(self.outp[k], 8 * n), Z(self.outp[k].off.expr()) == 0, Z(self.outp[k].obj) > 0))]
        for a in range(len(objs)):
            for b in range(a):
                r.append(imp(And(objs[a][0], objs[b][0]), Z(objs[a][1].obj) != Z(objs[b][1].obj)))
            for x in ro:
                r.append(imp(objs[a][0], Z(objs[a][1].obj) != Z(x.obj)))
        return r

    def post(self, v):
        st = table_state(v, DC(NS), self.sorted, self.where(0), self.where(1), self.where(2), NS)
        return [('total-is-the-number-of-distinct-slices', Z(v.rd('i64', self.tp)) == DC(NS))] + st[1:]


def uniq_setup(v):
    reg_setup(v)
    for l in rank_axioms() + (Call(v).naming() if 'indices' in v.args else []):
        v.eng.assume(v.st, l)
    # monotone in the number of slices (lemma)
    v.eng.assume(v.st, z3.ForAll([o_], z3.Implies(And(o_ >= 0, o_ <= NS), And(DC(o_) >= 0, DC(o_) <= o_, DC(o_) <= DC(NS))), patterns=[DC(o_)]))


def c_unique(prove=True):
    def setup_inv(v, c, w):
        """the table as sliceTableInit left it; an output not requested is null in it"""
        dat = v.var('sliceDataPtr')
        return [('table-kind', And(w.dt == c.dt, w.sorted == c.sorted, w.ne == NEL, w.max == NS)),
                ('table-of-slices', And(imp(c.hasY, same_ptr(w.data, c.Yp)), Z(w.data.off.expr()) == 0, imp(z3.Not(c.hasY), Z(w.data.obj) >= Z(v.old.st.next))))]

    def outs(v, c, w, axis):
        p = [w.ind, w.inv, w.cnt]
        r = []
        for k, nm in enumerate(('indices', 'inverse', 'counts')):
            same = And(Z(p[k].obj) == Z(c.where(k).obj), Z(p[k].off.expr()) == 0)
            if axis and k == 0:
                # a temporary index buffer when Y is requested and the indices are not
                same = z3.Or(same, And(c.hasY, z3.Not(c.req[0]), Z(p[k].obj) >= Z(v.old.st.next), Z(p[k].off.expr()) == 0))
            r.append((nm + '-or-null', same))
        return r

    def body(axis):
        def inv(v):
            c = Call(v.old)
            w = Table(v, v.var('sliceTable'))
            off = Z(v.anyvar('idxInSliceAxis', 'off') if axis else v.anyvar('off', 'idxInSliceAxis'))
            live = [z3.Or(Z(p.obj) == 0, v.alive(p)) for p in (w.data, w.ind, w.inv, w.cnt)]
            return [('range', And(off >= 0, off <= NS)), ('count', Z(v.var('count')) == DC(off))] + setup_inv(v, c, w) + outs(v, c, w, axis) + w.state(off) + [('live', And(*live))]

        def lem(v):
            off = Z(v.anyvar('idxInSliceAxis', 'off') if axis else v.anyvar('off', 'idxInSliceAxis'))
            return [DC(0) == 0, imp(off >= 0, DC(off + 1) == DC(off) + z3.If(FST(REG(off)) == off, 1, 0)), imp(off >= 1, DC(off) == DC(off - 1) + z3.If(FST(REG(off - 1)) == off - 1, 1, 0)), forall(k_, CNT(0, k_) == 0, CNT(0, k_))]
        return Loop(inv, variant=lambda v: NS - Z(v.anyvar('idxInSliceAxis', 'off') if axis else v.anyvar('off', 'idxInSliceAxis')), lemmas=lem)

    def product(res, F, defs):
        def inv(v):
            c = Call(v.old)
            i = Z(v.var('i'))
            return [('range', And(i >= 0, i <= c.rank)), ('product', Z(v.var(res)) == F(c, i))]
        return Loop(inv, variant=lambda v: Call(v.old).rank - Z(v.var('i')), lemmas=lambda v: defs(Call(v.old), Z(v.var('i'))) + defs(Call(v.old), Z(v.var('i')) - 1), writes=lambda v: [])
    loops = {'count': 4,
             0: product('elementNum', lambda c, i: NUM(c.S, i), lambda c, i: num_def(c.S, i)), 1: body(False),
             2: product('numOfElementsInSlice', lambda c, i: NUMX(c.S, c.axis, i), lambda c, i: [NUMX(c.S, c.axis, 0) == 1, imp(i >= 0, NUMX(c.S, c.axis, i + 1) == NUMX(c.S, c.axis, i) * z3.If(i == c.axis, 1, c.S[i]))]), 3: body(True)}

    def mods(v):
        c = Call(v)
        return [(p, k) for p, k in [(c.tp, ('i64',)), (c.wY(), None)] + [(c.where(k), ('i64',)) for k in range(3)] if not (isint(p.obj) and p.obj == 0)]
    return Contract('omTensorUnique', lambda v: Call(v).pre(), lambda v: Call(v.old).post(v), mods=mods, frees=lambda v: [], allocs=True, setup=uniq_setup, ghosts=('T', 'P', 'den'), args=ARGS,
                    opts={'overflow': 'assume', 'unsigned_nowrap': True, 'name_products': True, 'malloc_may_fail': False, 'merge': True}, loops=loops)


def c_count():
    return Contract('omTensorUniqueCount', lambda v: Call(v, True).pre(), lambda v: [('total-is-the-number-of-distinct-slices', Z(v.rd('i64', Call(v.old, True).tp)) == DC(NS))],
                    mods=lambda v: [(Call(v, True).tp, ('i64',))], frees=lambda v: [], allocs=True, setup=uniq_setup, ghosts=('T', 'P', 'den'), opts={'overflow': 'assume'})


def m_slicedata(eng, st, fr, i, a):
    """getSliceData(input, axis, index, buffer): the buffer then holds the given slice"""
    inp, axis, idx, buf = a
    v = View(eng, st, None, {})
    B = Z(st.ghost['B'])
    eng.oblige(st, 'call-pre', 'getSliceData.index', And(Z(idx) >= 0, Z(idx) < v.inner('i64', v.fld(inp, SH, 'ptr'))[Z(axis)]), i.get('line'))
    eng.oblige(st, 'bounds', 'getSliceData.buffer', z3.Or(B == 0, v.valid(buf, B)), i.get('line'))
    for k in list(KSZ):
        eng.record(st, buf, k)
        eng.inner_havoc(st, k, buf.obj)
    den = Z(st.ghost['den'])
    eng.note(st, ('ghost', 'den'))
    st.ghost['den'] = z3.Store(den, Z(buf.obj), z3.Store(den[Z(buf.obj)], Z(buf.off.expr()), REG(Z(idx))))
    return None


def m_producey(eng, st, fr, i, a):
    inp, ind, count, axis, Y = a
    v = View(eng, st, None, {})
    A = v.inner('i64', ind)
    T = Z(st.ghost['T'])
    eng.oblige(st, 'call-pre', 'produceY.count', Z(count) == DC(NS), i.get('line'))
    eng.oblige(st, 'call-pre', 'produceY.indices', And(v.valid(ind, 8 * Z(count)), Z(ind.off.expr()) == 0, forall(j_, z3.Implies(And(j_ >= 0, j_ < Z(count)), And(A[j_] == FST(T[j_]), A[j_] >= 0, A[j_] < NS)), A[j_])), i.get('line'))
    eng.oblige(st, 'bounds', 'produceY.room', And(Z(st.ghost['B']) * Z(count) <= v.size(v.fld(Y, AG, 'ptr'))), i.get('line'))
    y = v.fld(Y, AG, 'ptr')
    for k in list(KSZ):
        eng.record(st, y, k)
        eng.inner_havoc(st, k, y.obj)
    return None


def get(off, ty):
    return lambda eng, st, fr, i, a: View(eng, st, None, {}).fld(a[0], off, ty)


GETTERS = {'omTensorGetDataType': get(DT, 'i32'), 'omTensorGetRank': get(RK, 'i64'), 'omTensorGetShape': get(SH, 'ptr'), 'omTensorGetStrides': get(ST, 'ptr'), 'omTensorGetDataPtr': get(AG, 'ptr'),
           'omTensorGetNumElems': lambda eng, st, fr, i, a: NUMEL(Z(a[0].obj))}


def groups(tier):
    S = [('src/Runtime/OMUnique.c', ['.'])]
    r = [Group('elements of kind ' + k, S, [c_num(k, s, t, 'isLessNum'), c_num(k, s, t, 'isEqualNum'), c_slice(k, s, t, 'isLessSlice'), c_slice(k, s, t, 'isEqualSlice')],
               models={'memcmp': m_memcmp(k, s), 'bcmp': m_memcmp(k, s), 'getDataTypeSize': m_dtsize(s)}) for k, s, t in KINDS]
    r.append(Group('unique', S, [c_register(), c_unique(), c_count()], models=dict(GETTERS, isEqualSlice=m_cmpslice(lambda a, b: a == b), isLessSlice=m_cmpslice(lambda a, b: a < b), getSliceData=m_slicedata, produceY=m_producey, getDataTypeSize=m_dsz, **{'llvm.memcpy.*': m_memcpy})))
    return r


def extra_obligations(tier, tmp, budget):
    return [{'group': 'lemmas', 'fn': 'slice ranks and counts', 'obls': [irbv.decide(j) for j in count_lemmas()]}]


def natives(tier):
    S = ['native/unique.c', 'src/Runtime/OMUnique.c', 'src/Runtime/OMTensor.c', 'src/Runtime/OnnxDataType.c', 'src/Support/SmallFPConversion.c']
    return [Native('unique', S, 'ranks 1 to 6, at most 32 slices of at most 250 elements, two inputs of 12 million elements', libs=['-lm'], quick=['n=40000'], thorough=['n=1500000', 'max=14'], deep=['n=100000', 'huge=0'])]
