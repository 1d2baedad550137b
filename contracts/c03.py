import z3
import irvc
from irvc import *
from omt import *
from c09 import const_text
from c16 import VECM, dims, idx, region, temp, vdat, vec_begin, vec_end, vlen, vok, vw
from c18 import ghost
from suite import Group, Native
PROP = 'C03'
SRC = 'src/Runtime/OMTensor.c'
EXPLAIN = ('The C offset helper returns the dot product of index and strides, and the C++ one does the same through std::inner_product (its loop is under contract too), for every rank. computeStridesFromShape gives one stride per dimension, 1 for the last '
           'and each other the next stride times the next dimension, with std::partial_sum under contract; a scalar has none. isWithinTolerance is proved, for int32, int64, float and double, to say |a-b| <= rtol|b| + atol, and omTensorAreTwoOmtsClose to return true '
           'exactly when the shapes are equal and every pair of elements in row-major order is within the tolerance. printElement is proved for each of 13 types to print the element at the offset, once, in the format of the type; printData, for each rank up to 6 and every shape, '
           'to print every element exactly once in row-major order, each at the offset its multi-index and the strides give. The enumeration of indices (nested vectors) and the brackets printed are monitored, not proved.')
ASSUMPTIONS = ['floating-point comparison is exact arithmetic on real numbers (the code computes in long double; the monitor allows for its rounding and checks NaN)', 'the integer products and sums of offsets and strides do not overflow', 'tensors have well-formed shape and stride arrays and data for their elements',
               'the dot product with a copy of an array is the dot product with the array (induction, assumed in the model of the vector copy)', 'the number of elements depends on the shape only (omTensorGetNumElems is proved in C01)']
TRUSTED = ['std::vector<int64_t> construction, push_back, begin, end, rbegin, rend, != and destruction', 'output streams and fprintf', 'om_f16_to_f32 (C10)', 'omTensorComputeIndexSet when it only feeds the list of mismatches']
# number in OM_DATA_TYPE, name, kind of the cell, size, signed, format
ELEM = [(9, 'bool', 'i8', 1, False, '%d'), (2, 'uint8', 'i8', 1, False, '%hhu'), (3, 'int8', 'i8', 1, True, '%hhd'), (4, 'uint16', 'i16', 2, False, '%hu'), (5, 'int16', 'i16', 2, True, '%hd'), (12, 'uint32', 'i32', 4, False, '%u'), (6, 'int32', 'i32', 4, True, '%d'),
        (13, 'uint64', 'i64', 8, False, '%llu'), (7, 'int64', 'i64', 8, True, '%lld'), (10, 'float16', 'i16', 2, 'half', '%f'), (1, 'float', 'f32', 4, 'fp', '%f'), (11, 'double', 'f64', 8, 'fp', '%f'), (8, 'string', 'po', 8, 'ptr', '%s')]
OFFS = z3.Function('offset_of_the_nth', I, I)      # of the nth multi-index in row-major order
H2F = z3.Function('half_value', I, F32)


def nop(eng, st, fr, i, a):
    return eng.havoc_val(st, i['ty'], 'printed') if i['ty'] != 'void' else None


# ---- offsets
def c_inner():
    def pre(v):
        n, a, b = Z(v.arg('len')), v.arg('v'), v.arg('u')
        return [And(n >= 0, n <= MAXN), z3.Or(n == 0, And(v.valid(a, 8 * n), v.valid(b, 8 * n))), And(Z(a.off.expr()) == 0, Z(b.off.expr()) == 0)]

    def arrays(v):
        o = v.old or v
        return o.inner('i64', o.arg('v')), o.inner('i64', o.arg('u'))

    def inv(v):
        A, Bb = arrays(v)
        k = Z(v.var('i'))
        return [('range', And(k >= 0, k <= Z(v.arg('len')))), ('sum', Z(v.var('result')) == Z(v.arg('init')) + DOT(A, Bb, k))]

    def axioms(v):
        A, Bb = arrays(v)
        n = v.arg('len')
        return [x for k in range(6) for x in dot_def(A, Bb, k)]
    return Contract('inner_product', pre, lambda v: [('dot product', Z(v.ret) == Z(v.arg('init')) + DOT(*arrays(v), Z(v.arg('len'))))], mods=lambda v: [], frees=lambda v: [], axioms=axioms,
                    loops={'count': 1, 0: Loop(inv, lambda v: Z(v.arg('len')) - Z(v.var('i')), lemmas=lambda v: dot_def(*arrays(v), v.var('i')))}, opts={'overflow': 'assume'})


# ---- offsets, C++
CXX = 'src/Runtime/OMTensor.cpp'
CXXF = ['-fexceptions', '-frtti']
VL = 'St6vectorIlSaIlEE'
STD_INNER = '_ZSt13inner_productIN9__gnu_cxx17__normal_iteratorIPKlSt6vectorIlSaIlEEEENS1_IPlS6_EElET1_T_SB_T0_SA_'


def m_from_range(eng, st, fr, i, a):
    """vector(first, last): a new block with the cells of the range"""
    this, p, q = a[0], a[1], a[2]
    region(eng, st, i, 'vector', p, q, 8)
    lo, hi = idx(eng, st, p, 8), idx(eng, st, q, 8)
    d = eng.alloc(st, 8 * (hi - lo))
    eng.record(st, d, 'i64')
    M = eng.memk(st, 'i64')
    src, new = z3.Select(M, Z(p.obj)), fresh('copy', z3.ArraySort(I, I))
    st.mem['i64'] = z3.Store(M, Z(d.obj), new)
    j = z3.Int('j!v')
    eng.assume(st, z3.ForAll([j], z3.Implies(And(j >= 0, j < hi - lo), new[j] == src[lo + j]), patterns=[new[j]]))
    eng.raw_store(st, this, 'ptr', d)
    eng.raw_store(st, Ptr(this.obj, this.off + Lin.of(8)), 'i64', z3.simplify(hi - lo))
    A, n = z3.Array('A!v', I, I), z3.Int('n!v')      # induction on n: both sides start at 0 and add the same product at each step
    eng.assume(st, z3.Implies(lo == 0, z3.ForAll([A, n], z3.Implies(And(n >= 0, n <= hi), DOT(A, new, n) == DOT(A, src, n)), patterns=[DOT(A, new, n)])))


def m_gone(eng, st, fr, i, a):
    d = vdat(vw(eng, st), a[0])
    st.alive = z3.Store(st.alive, Z(d.obj), False)


CXXM = {**VECM, '_ZN%s5beginEv' % VL: vec_begin, '_ZN%sC2IPKlvEET_S5_RKS0_' % VL: m_from_range, '_ZN%sC2IPlvEET_S4_RKS0_' % VL: m_from_range, '_ZN%sD2Ev' % VL: m_gone}


def c_std_inner():
    def its(v):
        return v.arg('__first1.coerce'), v.arg('__last1.coerce'), v.arg('__first2.coerce')

    def count(v):
        return v.idx('i64', its(v)[1])

    def pre(v):
        a, e, b = its(v)
        n = count(v)
        return [Z(a.off.expr()) == 0, Z(b.off.expr()) == 0, Z(e.obj) == Z(a.obj), Z(e.off.expr()) == 8 * n, n >= 0, n <= MAXN, v.valid(a, 8 * n), v.valid(b, 8 * n), Z(a.obj) > 0, Z(b.obj) > 0]

    def arrays(v):
        o = v.old or v
        return o.inner('i64', its(o)[0]), o.inner('i64', its(o)[2])

    def cell(v, n):
        return v.fld(v.var(n), 0, 'ptr')

    def inv(v):
        o = v.old or v
        A, Bb = arrays(v)
        p, q, e = cell(v, '__first1'), cell(v, '__first2'), cell(v, '__last1')
        k = v.idx('i64', p)
        return [('range', And(k >= 0, k <= count(o), Z(p.off.expr()) == 8 * k, Z(q.off.expr()) == 8 * k)), ('blocks', And(Z(p.obj) == Z(its(o)[0].obj), Z(q.obj) == Z(its(o)[2].obj), same_ptr(e, its(o)[1]))),
                ('sum', Z(v.var('__init')) == Z(o.arg('__init')) + DOT(A, Bb, k))]

    def lem(v):
        return dot_def(*arrays(v), v.idx('i64', cell(v, '__first1')))
    return Contract(STD_INNER, pre, lambda v: [('dot product', Z(v.ret) == Z(v.arg('__init')) + DOT(*arrays(v), count(v)))], mods=lambda v: [], frees=lambda v: [],
                    axioms=lambda v: [DOT(*arrays(v), 0) == 0],
                    loops={'count': 1, 0: Loop(inv, lambda v: count(v.old or v) - v.idx('i64', cell(v, '__first1')), lemmas=lem,
                                               shape=lambda v: [(v.var('__first1'), its(v.old)[0], 8), (v.var('__first2'), its(v.old)[2], 8)])}, opts={'overflow': 'assume'})


def c_cxx_offset():
    def pre(v):
        n, T, x = Z(v.arg('rank')), v.arg('dataStrides'), v.arg('indexes')
        return [n >= 0, v.valid(T, 8 * n), Z(T.obj) > 0, Z(T.off.expr()) == 0, vok(v, x), vlen(v, x) == n]

    def post(v):
        o = v.old
        return [('offset', Z(v.ret) == DOT(dims(o, o.arg('indexes')), o.inner('i64', o.arg('dataStrides')), Z(o.arg('rank'))))]
    return Contract('_ZL17computeElemOffsetPKliRKSt6vectorIlSaIlEE', pre, post, mods=lambda v: [], frees=lambda v: [], opts={'overflow': 'assume'})


# ---- strides of a shape, C++
RIT = 'St16reverse_iteratorIN9__gnu_cxx17__normal_iteratorIPl%sEEE' % VL
PARTIAL = '_ZSt11partial_sumISt16reverse_iteratorIN9__gnu_cxx17__normal_iteratorIPlSt6vectorIlSaIlEEEEES8_St10multipliesIvEET0_T_SC_SB_T1_'


def cur(v, name):
    return v.fld(v.arg(name), 0, 'ptr')


def c_partial():
    def facts(v):
        o = v.old or v
        f, l, r = cur(o, '__first'), cur(o, '__last'), cur(o, '__result')
        return f, l, r, o.idx('i64', f)

    def pre(v):
        f, l, r, n = facts(v)
        cells = [v.arg(x) for x in ('__first', '__last', '__result')]
        objs = [Z(p.obj) for p in cells] + [Z(f.obj), Z(r.obj), Z(v.arg('agg.result').obj)]
        return [*[And(v.valid(p, 8), Z(p.off.expr()) == 0) for p in cells + [v.arg('agg.result')]], Z(f.obj) > 0, Z(r.obj) > 0, n >= 0, n <= MAXN, Z(l.obj) == Z(f.obj), Z(l.off.expr()) == 0,
                Z(f.off.expr()) == 8 * n, Z(r.off.expr()) == 8 * n, v.valid(Ptr(f.obj, 0), 8 * n), v.valid(Ptr(r.obj, 0), 8 * n), z3.Distinct(*objs)]

    def body(v, k):
        """the strides of the last k + 1 dimensions"""
        f, l, r, n = facts(v)
        S, D0, D = (v.old or v).inner('i64', f), (v.old or v).inner('i64', r), v.inner('i64', r)
        e = z3.Int('e!p')
        return [('last', D[n - 1] == S[n - 1]), ('step', z3.ForAll([e], z3.Implies(And(e >= n - 1 - k, e < n - 1), D[e] == D[e + 1] * S[e]), patterns=[D[e]])),
                ('rest', z3.ForAll([e], z3.Implies(z3.Or(e < n - 1 - k, e >= n), D[e] == D0[e]), patterns=[D[e]]))]

    def done(v):
        return facts(v)[3] - v.idx('i64', cur(v, '__first'))

    def inv(v):
        f, l, r, n = facts(v)
        p, q, k = cur(v, '__first'), cur(v, '__result'), done(v)
        return [('range', And(k >= 0, k <= n - 1, Z(p.off.expr()) == 8 * (n - k), Z(q.off.expr()) == 8 * (n - k))),
                ('blocks', And(Z(p.obj) == Z(f.obj), Z(q.obj) == Z(r.obj), same_ptr(cur(v, '__last'), l))), ('value', Z(v.fld(v.anyvar('__value'), 0, 'i64')) == v.inner('i64', r)[n - 1 - k]), *body(v, k)]

    def post(v):
        f, l, r, n = facts(v)
        return [(a, z3.Implies(n > 0, b)) for a, b in body(v, n - 1)] + [('nothing to do', z3.Implies(n == 0, v.inner('i64', r) == v.old.inner('i64', r)))]

    def setup(v):
        n, x, y = fresh('entries', I), fresh('from', I), fresh('to', I)
        st = v.st
        v.eng.assume(st, And(x < v.eng.N0, y < v.eng.N0))
        for q in v.eng.curfn['params']:
            at = {'__first': Ptr(x, Lin.of(n, 8)), '__last': Ptr(x, 0), '__result': Ptr(y, Lin.of(n, 8))}.get(q['name'])
            if at is not None:       # the iterators are objects of the caller nothing else points to
                p = temp(v.eng, st, 'ptr', at)
                v.eng.args[q['name']] = v.args[q['name']] = p
                st.frames[0].env[q['id']] = p

    def mods(v):
        r = cur(v, '__result')
        return [(v.arg('agg.result'), ['po', 'px']), (v.arg('__first'), ['po', 'px']), (v.arg('__result'), ['po', 'px']), (Ptr(r.obj, 0), ['i64'])]
    return Contract(PARTIAL, pre, post, mods=mods, setup=setup, frees=lambda v: [], opts={'overflow': 'assume'},
                    loops={'count': 1, 0: Loop(inv, lambda v: facts(v)[3] - done(v), shape=lambda v: [(v.arg('__first'), facts(v)[0], 8), (v.arg('__result'), facts(v)[2], 8), ])})


def m_push(eng, st, fr, i, a):
    v = vw(eng, st)
    d, n, x = vdat(v, a[0]), vlen(v, a[0]), Z(eng.raw_load(st, a[1], 'i64'))
    q = eng.alloc(st, 8 * (n + 1))
    eng.record(st, q, 'i64')
    M = eng.memk(st, 'i64')
    st.mem['i64'] = z3.Store(M, Z(q.obj), z3.Store(z3.Select(M, Z(d.obj)), n, x))
    st.alive = z3.Store(st.alive, Z(d.obj), False)
    eng.raw_store(st, a[0], 'ptr', q)
    eng.raw_store(st, Ptr(a[0].obj, a[0].off + Lin.of(8)), 'i64', n + 1)


def m_sized(eng, st, fr, i, a):
    n = Z(a[1])
    eng.oblige(st, 'call-pre', 'vector.length', And(n >= 0, n <= MAXN), i.get('line'))
    d = eng.alloc(st, 8 * n)
    eng.record(st, d, 'i64')
    st.mem['i64'] = z3.Store(eng.memk(st, 'i64'), Z(d.obj), z3.K(I, z3.IntVal(0)))
    eng.raw_store(st, a[0], 'ptr', d)
    eng.raw_store(st, Ptr(a[0].obj, a[0].off + Lin.of(8)), 'i64', n)


def m_empty(eng, st, fr, i, a):
    eng.raw_store(st, a[0], 'ptr', eng.alloc(st, 0))
    eng.raw_store(st, Ptr(a[0].obj, a[0].off + Lin.of(8)), 'i64', z3.IntVal(0))


def m_rbegin(eng, st, fr, i, a):
    eng.raw_store(st, a[0], 'ptr', vec_end(eng, st, fr, i, a[1:]))


def m_rend(eng, st, fr, i, a):
    eng.raw_store(st, a[0], 'ptr', vec_begin(eng, st, fr, i, a[1:]))


CXXM.update({'_ZN%s9push_backEOl' % VL: m_push, '_ZN%sC2EmRKS0_' % VL: m_sized, '_ZN%sC2Ev' % VL: m_empty, '_ZN%s6rbeginEv' % VL: m_rbegin, '_ZN%s4rendEv' % VL: m_rend})


def c_strides():
    def pre(v):
        n, S = Z(v.arg('rank')), v.arg('dataSizes')
        return [n >= 0, v.valid(S, 8 * n), Z(S.obj) > 0, Z(S.off.expr()) == 0, v.valid(v.arg('agg.result'), 24), Z(v.arg('agg.result').obj) != Z(S.obj), Z(v.arg('agg.result').off.expr()) == 0]

    def post(v):
        n, S, t = Z(v.arg('rank')), v.old.inner('i64', v.old.arg('dataSizes')), v.arg('agg.result')
        D, e = dims(v, t), z3.Int('e!q')
        return [('one stride per dimension', vlen(v, t) == n), ('last', z3.Implies(n > 0, D[n - 1] == 1)), ('row-major', z3.ForAll([e], z3.Implies(And(e >= 0, e < n - 1), D[e] == D[e + 1] * S[e + 1]), patterns=[D[e]]))]
    return Contract('_ZL23computeStridesFromShapePKli', pre, post, mods=lambda v: [v.arg('agg.result')], frees=lambda v: [], allocs=True, opts={'overflow': 'assume'})


# ---- closeness
CLOSE_T = [('i', 'i32', 4, 'i32'), ('l', 'i64', 8, 'i64'), ('f', 'f32', 4, 'float'), ('d', 'f64', 8, 'double')]


def real(x):
    return z3.ToReal(x) if x.sort() == I else x


def within(rtol, atol, x, y):
    x, y = real(x), real(y)
    mag = lambda r: z3.If(r < 0, -r, r)
    return rtol * mag(y) + atol >= mag(x - y)


def tolerance_fn(letter):
    return '_ZL17isWithinToleranceI%sEbT_S0_ff' % letter


def c_tolerance(t):
    def post(v):
        return [('within', v.ret == within(v.arg('rtol'), v.arg('atol'), Z(v.arg('a')), Z(v.arg('b'))))]
    return Contract(tolerance_fn(t[0]), lambda v: [], post, mods=lambda v: [], frees=lambda v: [], opts={'fp': 'real'})


def m_fabs(eng, st, fr, i, a):
    return z3.If(a[0] < 0, -a[0], a[0])


def m_differ(eng, st, fr, i, a):
    v = vw(eng, st)
    n, m, A, Bb = vlen(v, a[0]), vlen(v, a[1]), dims(v, a[0]), dims(v, a[1])
    k = z3.Int('k!d')
    return z3.Not(And(n == m, z3.ForAll([k], z3.Implies(And(k >= 0, k < n), A[k] == Bb[k]))))


def m_count(eng, st, fr, i, a):
    v = vw(eng, st)
    S, r = v.inner('i64', v.fld(a[0], SH, 'ptr')), Z(v.fld(a[0], RK, 'i64'))
    return NUM(S, r)


def m_indices(eng, st, fr, i, a):
    n = fresh('indices', I)
    eng.assume(st, And(n >= 0, n <= MAXN))
    d = eng.alloc(st, 24 * n)
    eng.raw_store(st, a[0], 'ptr', d)
    eng.raw_store(st, Ptr(a[0].obj, a[0].off + Lin.of(8)), 'i64', n)


def m_elem(kind, ir):
    def f(eng, st, fr, i, a):
        return temp(eng, st, ir, eng.havoc_val(st, ir, 'element'))
    return f


VV = 'St6vectorIS_IlSaIlEESaIS1_EE'


def vv_begin(eng, st, fr, i, a):
    return Ptr(vdat(vw(eng, st), a[0]).obj, 0)


def vv_end(eng, st, fr, i, a):
    v = vw(eng, st)
    return Ptr(vdat(v, a[0]).obj, Lin.of(vlen(v, a[0]), 24))


def close_models(t):
    letter, kind, esz, ir = t
    return {**CXXM, 'llvm.fabs.f80': m_fabs, '_ZStlsISt11char_traitsIcE*': nop, '_ZNSolsE*': nop, '_ZNSt7__cxx1112basic_string*': nop, '_ZL11printVector*': nop, '_ZStneIlSaIlEEbRKSt6vectorIT_T0_ES6_': m_differ, '_ZNSt15__new_allocator*': nop,
            'omTensorGetNumElems': m_count, '_Z23omTensorComputeIndexSetPK8OMTensor': m_indices, '_ZN%s5beginEv' % VV: vv_begin, '_ZN%s3endEv' % VV: vv_end, '_ZN%sD2Ev' % VV: nop,
            '_Z15omTensorGetElemI%sERT_PK8OMTensorRKSt6vectorIlSaIlEE' % letter: m_elem(kind, ir)}


def c_close(t):
    letter, kind, esz, ir = t

    def facts(v):
        o = v.old or v
        a, b = o.arg('a'), o.arg('b')
        x, y = o.fld(a, AG, 'ptr'), o.fld(b, AG, 'ptr')
        S, U = o.inner('i64', o.fld(a, SH, 'ptr')), o.inner('i64', o.fld(b, SH, 'ptr'))
        return a, b, o.inner(kind, x), o.inner(kind, y), S, U, Z(o.fld(a, RK, 'i64')), Z(o.fld(b, RK, 'i64'))

    def same_shape(v):
        a, b, X, Y, S, U, r, q = facts(v)
        k = z3.Int('k!d')
        return And(r == q, z3.ForAll([k], z3.Implies(And(k >= 0, k < r), S[k] == U[k])))

    def pre(v):
        a, b, X, Y, S, U, r, q = facts(v)
        out = [wf(v, a), wf(v, b), Z(a.obj) > 0, Z(b.obj) > 0, v.alive(a), v.alive(b)]
        for p, W, k in ((a, S, r), (b, U, q)):
            d, sh = v.fld(p, AG, 'ptr'), v.fld(p, SH, 'ptr')
            n = NUM(W, k)
            out += [n >= 0, n <= MAXN, Z(d.off.expr()) == 0, z3.Implies(n > 0, And(v.valid(d, esz * n), Z(d.obj) > 0)), Z(d.obj) < v.st.next, Z(sh.obj) < v.st.next, Z(sh.obj) > 0, v.valid(sh, 8 * k)]
        return out + [z3.Implies(same_shape(v), NUM(S, r) == NUM(U, q))]      # the number of elements is a function of the shape

    def truth(v):
        x = Z(v.var('satisfied'))
        return z3.BoolVal(True) if x.sort() == B else And(x >= 0, x <= 1)

    def upto(v, k):
        a, b, X, Y, S, U, r, q = facts(v)
        j = z3.Int('j!w')
        return z3.ForAll([j], z3.Implies(And(j >= 0, j < k), within(v.arg('rtol'), v.arg('atol'), X[j], Y[j])), patterns=[z3.MultiPattern(X[j], Y[j])])

    def inv(v):
        a, b, X, Y, S, U, r, q = facts(v)
        k, ok = Z(v.var('i')), v.var('satisfied')
        ok = Z(ok) if Z(ok).sort() == B else Z(ok) != 0
        return [('verdict', truth(v)), ('range', And(k >= 0, k <= NUM(S, r))), ('close so far', z3.Implies(ok, upto(v, k))), ('not close', z3.Implies(z3.Not(ok), And(k > 0, z3.Not(within(v.arg('rtol'), v.arg('atol'), X[k - 1], Y[k - 1])))))]

    def listing(v):
        p, e = [v.fld(v.anyvar(*['__%s%d' % (x, k) for k in range(9)]), 0, 'ptr') for x in ('begin', 'end')]
        ok = v.var('satisfied')
        ok = Z(ok) if Z(ok).sort() == B else Z(ok) != 0
        return [('range', And(Z(p.obj) == Z(e.obj), Z(p.off.expr()) >= 0, Z(p.off.expr()) <= Z(e.off.expr()))), ('verdict kept', z3.Not(ok))]

    def post(v):
        a, b, X, Y, S, U, r, q = facts(v)
        j = z3.Int('j!r')
        every = z3.ForAll([j], z3.Implies(And(j >= 0, j < NUM(S, r)), within(v.arg('rtol'), v.arg('atol'), X[j], Y[j])))
        return [('close', z3.Implies(Z(v.ret), And(same_shape(v), every))), ('not close', z3.Implies(z3.Not(Z(v.ret)), z3.Not(And(same_shape(v), every))))]
    return Contract('_Z23omTensorAreTwoOmtsCloseI%sEbPK8OMTensorS2_ff' % letter, pre, post, mods=lambda v: [], frees=lambda v: [], allocs=True,
                    loops={'count': 2, 0: Loop(inv, lambda v: NUM(facts(v)[4], facts(v)[6]) - Z(v.var('i'))), 1: Loop(listing, shape=lambda v: [(v.anyvar(*['__%s%d' % (x, k) for k in range(9)]), Ptr(v.fld(v.anyvar(*['__%s%d' % (x, k) for k in range(9)]), 0, 'ptr').obj, 0), 24) for x in ('begin', 'end')])},
                    opts={'fp': 'real', 'overflow': 'assume'})


# ---- printing
def c_element(t):
    ty, name, kind, esz, signed, fmt = t

    def cell(v):
        p, n = v.arg('dataPtr'), Z(v.arg('elemOffset'))
        return v.inner(kind, p)[n]

    def pre(v):
        p, n = v.arg('dataPtr'), Z(v.arg('elemOffset'))
        return [n >= 0, n <= MAXN, v.valid(p, esz * (n + 1)), Z(p.off.expr()) == 0, Z(p.obj) > 0]

    def setup(v):
        for q in v.eng.curfn['params']:
            if q['name'] == 'dataType':
                v.eng.args['dataType'] = v.args['dataType'] = ty
                v.st.frames[0].env[q['id']] = ty
        v.st.ghost['shown'] = z3.IntVal(0)
    return Contract('printElement', pre, lambda v: [('once', v.st.ghost['shown'] == 1)], mods=lambda v: [], frees=lambda v: [], setup=setup, ghosts=('shown',), opts={'overflow': 'assume'})


def m_show(t):
    ty, name, kind, esz, signed, fmt = t

    def f(eng, st, fr, i, a):
        o = eng.old
        p, n = o.arg('dataPtr'), Z(o.arg('elemOffset'))
        c = o.inner(kind, p)[n]
        x = a[2]
        if signed == 'ptr':
            same = And(Z(x.obj) == c, Z(x.off.expr()) == o.inner('px', p)[n])
        elif signed == 'fp':
            same = x == (c if kind == 'f64' else z3.fpFPToFP(z3.RNE(), c, F64))
        elif signed == 'half':
            same = x == z3.fpFPToFP(z3.RNE(), H2F(c), F64)
        elif signed is False and esz < 4:
            same = Z(x) == z3.If(c < 0, c + (1 << 8 * esz), c)
        else:
            same = Z(x) == c
        if name == 'bool':
            same = z3.Implies(And(c >= 0, c <= 1), same)
        eng.oblige(st, 'call-pre', 'the format of the type', z3.BoolVal(const_text(eng, a[1]).rstrip('\0') == fmt), i.get('line'))
        eng.oblige(st, 'call-pre', 'the value of the element', same, i.get('line'))
        ghost(eng, st, 'shown', st.ghost['shown'] + 1)
        return eng.havoc_val(st, i['ty'], 'printed')
    return f


def m_half(eng, st, fr, i, a):
    x = Z(a[0])
    return H2F(x)


def parts(v):
    o = v.old or v
    t = o.arg('tensor')
    return o.inner('i64', o.fld(t, SH, 'ptr')), o.inner('i64', o.fld(t, ST, 'ptr')), Z(o.fld(t, RK, 'i64'))


def m_element(eng, st, fr, i, a):
    """printElement: the contract proved for each type"""
    v = eng.old
    t = v.arg('tensor')
    n = st.ghost['n']
    eng.oblige(st, 'call-pre', 'the data of the tensor', And(same_ptr(a[1], v.fld(t, AG, 'ptr')), Z(a[3]) == Z(v.fld(t, DT, 'i32'))), i.get('line'))
    eng.oblige(st, 'call-pre', 'the next element in row-major order', Z(a[2]) == OFFS(n), i.get('line'))
    ghost(eng, st, 'n', n + 1)


VARS = 'ijklmn'


def c_data(R):
    def pre(v):
        S, T, r = parts(v)
        t = v.arg('tensor')
        d = v.fld(t, AG, 'ptr')
        return [wf(v, t), r == R, *[z3.Implies(r > k, S[k] >= 0) for k in range(6)], Z(t.obj) > 0, nonnull(v, d), OFFS(0) == z3.If(r == 0, 0, OFFS(0))]

    def setup(v):
        v.st.ghost['n'] = z3.IntVal(0)

    def horner(v, S, d):
        h = Z(v.var('i'))
        for e in range(1, d + 1):
            h = h * S[e] + Z(v.var(VARS[e]))
        return h

    def prod(S, a, b):
        p = z3.IntVal(1)
        for e in range(a, b):
            p = p * S[e]
        return p

    def spec(r, d):
        def inv(v):
            S, T, _ = parts(v)
            X = v.inner('i64', v.var('indexes'))
            x = Z(v.var(VARS[d]))
            return [('range', And(x >= 0, x <= S[d])), ('index', And(*[X[e] == Z(v.var(VARS[e])) for e in range(d)])), ('elements before', v.st.ghost['n'] == horner(v, S, d) * prod(S, d + 1, r))]

        def lem(v):
            if d != r - 1:
                return []
            S, T, _ = parts(v)
            xs = [Z(v.var(VARS[e])) for e in range(r)]
            return [z3.Implies(And(*[And(x >= 0, x < S[e]) for e, x in enumerate(xs)]), OFFS(horner(v, S, d)) == z3.Sum([T[e] * x for e, x in enumerate(xs)]))]
        return Loop(inv, lambda v: parts(v)[0][d] - Z(v.var(VARS[d])), lemmas=lem)
    loops = {'count': 21}
    k = 0
    for r in range(1, 7):
        for d in range(r):
            loops[k] = spec(r, d)
            k += 1

    def post(v):
        S, T, r = parts(v)
        return [('every element once (rank %d)' % q, z3.Implies(r == q, v.st.ghost['n'] == prod(S, 0, q))) for q in range(7)]
    return Contract('printData', pre, post, mods=lambda v: [], frees=lambda v: [], setup=setup, ghosts=('n',), loops=loops, opts={'overflow': 'assume', 'merge': True})


def groups(tier):
    g = [Group('offset', [(SRC, ['.'])], [c_inner()], {})]
    g.append(Group('offset (C++)', [(CXX, ['.'])], [c_std_inner(), c_cxx_offset()], CXXM, flags=CXXF))
    g.append(Group('strides (C++)', [(CXX, ['.'])], [c_partial(), c_strides()], CXXM, flags=CXXF))
    for t in CLOSE_T:
        g.append(Group('close ' + t[1], [(CXX, ['.'])], [c_tolerance(t), c_close(t)], close_models(t), flags=CXXF))
    for t in ELEM:
        g.append(Group('element ' + t[1], [(SRC, ['.'])], [c_element(t)], {'fprintf': m_show(t), 'om_f16_to_f32': m_half}))
    for R in range(7):
        g.append(Group('data of rank %d' % R, [(SRC, ['.'])], [c_inner(), c_data(R)], {'fprintf': nop, 'printElement': m_element}))
    return g


def natives(tier):
    return [Native('tensors', ['native/tensors.cpp'] + ['src/Runtime/' + x for x in ('OMTensor.cpp', 'OMTensorHelper.cpp', 'OnnxDataType.cpp')] + ['src/Support/SmallFPConversion.c'],
                   'tensors of rank at most 6 and at most 60 elements; offsets of rank at most 7 with strides and indices below 2^30', cxx=True, quick=['n=20000'], thorough=['n=60000'], parts=4, timeout=600)]
