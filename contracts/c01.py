import z3
from irvc import *
from omt import *
from suite import Group, Native
PROP = 'C01'
EXPLAIN = 'Every constructor, getter and setter of the C tensor and tensor-list API is verified against a contract stating the reported attributes, strides, counts and sizes.'
ASSUMPTIONS = ['machine integers in shape/stride/size products are treated as mathematical (no overflow of int64 for a tensor that fits memory)',
               'rank is between 0 and 2^40', 'a pointer argument addresses the start of its allocation']
TRUSTED = ['allocation model: malloc returns null or a fresh block of the requested size']


def simple(fn, post, pre=None, mods=None, **kw):
    return Contract(fn, pre, post, mods=mods or (lambda v: []), frees=lambda v: [], opts={'overflow': 'assume'}, **kw)


def p_wf(a='tensor'):
    return lambda v: [null_or(v, v.arg(a), wf(v, v.arg(a)))]


def getter(fn, off, ty, default=0, a='tensor'):
    def post(v):
        t = v.old.arg(a)
        f = v.old.fld(t, off, ty)
        if ty == 'ptr':
            return [('null-safe', imp(v.isnull(t), v.isnull(v.ret))), ('value', imp(nonnull(v, t), same_ptr(v.ret, f)))]
        return [('null-safe', imp(v.isnull(t), Z(v.ret) == default)), ('value', imp(nonnull(v, t), Z(v.ret) == Z(f)))]
    return simple(fn, post, p_wf(a) if a == 'tensor' else p_wfl(a))


def setter(fn, field, off, ty, arg):
    def post(v):
        t = v.old.arg('tensor')
        nn = nonnull(v, t)
        return [('sets-it', imp(nn, Z(v.fld(t, off, ty)) == Z(v.old.arg(arg)))),
                ('keeps-the-rest', imp(nn, same_fields(v, v.old, t, (field,))))]
    return simple(fn, post, p_wf(), mods=lambda v: [v.arg('tensor')])


def arr_setter(fn, src, off, f=lambda v, x: x, pre2=None, kind=None):
    def pre(v):
        t, s = v.arg('tensor'), v.arg(src)
        d = v.fld(t, off, 'ptr')
        return [null_or(v, t, wf(v, t)), z3.Or(Z(v.isnull(t)), Z(v.isnull(s)), Z(v.fld(t, RK, 'i64')) == 0, And(v.valid(s, 8 * Z(v.fld(t, RK, 'i64'))), Z(s.obj) != Z(d.obj), Z(s.obj) != Z(t.obj)))] + (pre2(v) if pre2 else [])

    def both(v):
        return z3.And(nonnull(v, v.old.arg('tensor')), nonnull(v, v.old.arg(src)))

    def content(v, n):
        o = v.old
        t, s = o.arg('tensor'), o.arg(src)
        D = v.inner('i64', o.fld(t, off, 'ptr'))
        S = o.inner('i64', s)
        return forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < Z(n)), D[k_] == f(v, S[k_])), D[k_])

    def post(v):
        o = v.old
        t = o.arg('tensor')
        d = o.fld(t, off, 'ptr')
        return [('sets-every-dimension', imp(both(v), content(v, o.fld(t, RK, 'i64')))),
                ('keeps-the-rest', imp(nonnull(v, t), same_fields(v, o, t))),
                ('null-source-is-ignored', imp(z3.And(nonnull(v, t), Z(v.isnull(o.arg(src)))), array_same(v, o, 'i64', d, o.fld(t, RK, 'i64'))))]

    def inv(v):
        i = Z(v.var('i'))
        t = v.old.arg('tensor')
        return [('range', And(i >= 0, i <= Z(v.old.fld(t, RK, 'i64')))), ('content', content(v, i)), ('fields', same_fields(v, v.old, t))]
    return Contract(fn, pre, post, mods=lambda v: [(Ptr(z3.If(Z(v.isnull(v.arg('tensor'))), z3.IntVal(0), Z(v.fld(v.arg('tensor'), off, 'ptr').obj)), 0), ['i64'])], frees=lambda v: [],
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: Z(v.old.fld(v.old.arg('tensor'), RK, 'i64')) - Z(v.var('i')))}, opts={'overflow': 'assume'})


# ---- element size by type
def dts(x):
    e = z3.IntVal(0)
    x = Z(x)
    sizes = {1: 4, 2: 1, 3: 1, 4: 2, 5: 2, 6: 4, 7: 8, 8: 8, 9: 1, 10: 2, 11: 8, 12: 4, 13: 8, 14: 8, 15: 16, 16: 2, 17: 1, 18: 1, 19: 1, 20: 1, 21: 1, 22: 1}
    for k, s in sizes.items():
        e = z3.If(x == k, z3.IntVal(s), e)
    return e


def c_dts():
    return simple('getDataTypeSize', lambda v: [('size-of-type', Z(v.ret) == dts(v.old.arg('dataType')))])


def size_post(v):
    o, t = v.old, v.old.arg('tensor')
    nn = nonnull(v, t)
    n = Z(o.fld(t, RK, 'i64'))
    sh = o.inner('i64', o.fld(t, SH, 'ptr'))
    return [('null-safe', imp(v.isnull(t), Z(v.ret) == 0)), ('product-times-element-size', imp(nn, Z(v.ret) == NUM(sh, n) * dts(o.fld(t, DT, 'i32'))))]


PR = z3.Function('PR', AII, I, I, I)    # PR(S,a,b) = S[a]*...*S[b-1]


def pr_def(S, a, b):
    return [PR(S, Z(a), Z(a)) == 1, z3.Implies(Z(b) >= Z(a), PR(S, Z(a), Z(b) + 1) == PR(S, Z(a), Z(b)) * S[Z(b)])]


def dense(v, t):
    n = Z(v.fld(t, RK, 'i64'))
    S, T = v.inner('i64', v.fld(t, SH, 'ptr')), v.inner('i64', v.fld(t, ST, 'ptr'))
    return forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < n), T[k_] == PR(S, k_ + 1, n)), T[k_])


def numelems():
    def pre(v):
        t = v.arg('tensor')
        return [null_or(v, t, wf(v, t)), null_or(v, t, dense(v, t))]

    def post(v):
        o, t = v.old, v.old.arg('tensor')
        return [('null-safe', imp(v.isnull(t), Z(v.ret) == 0)),
                ('product-of-dimensions', imp(nonnull(v, t), Z(v.ret) == NUM(o.inner('i64', o.fld(t, SH, 'ptr')), Z(o.fld(t, RK, 'i64')))))]

    def S(v):
        return v.old.inner('i64', v.old.fld(v.old.arg('tensor'), SH, 'ptr'))

    def n(v):
        return Z(v.old.fld(v.old.arg('tensor'), RK, 'i64'))

    def outer(v):
        i = Z(v.var('i'))
        return [('range', And(i >= -1, i < n(v) + 0))]

    def inner(v):
        i, j, p = Z(v.var('i')), Z(v.var('j')), Z(v.var('stridesIfNotSkipping'))
        return [('range', And(j >= i + 1, j <= n(v), i >= 0)), ('partial-product', p == PR(S(v), i + 1, j))]
    return Contract('omTensorGetNumElems', pre, post, mods=lambda v: [], frees=lambda v: [], opts={'overflow': 'assume'},
                    loops={'count': 2, 0: Loop(outer, variant=lambda v: Z(v.var('i')) + 1),
                           1: Loop(inner, variant=lambda v: n(v) - Z(v.var('j')), lemmas=lambda v: pr_def(S(v), Z(v.var('i')) + 1, v.var('j')) + pr_def(S(v), Z(v.var('i')) + 1, Z(v.var('j')) - 1))})


# ---- lists
LO, LN, LS = 0, 8, 16


def wfl(v, l):
    n = v.fld(l, LN, 'i64')
    a = v.fld(l, LO, 'ptr')
    return And(v.valid(l, 17), Z(n) >= 0, Z(n) <= MAXN, imp(Z(n) > 0, v.valid(a, 8 * Z(n))), Z(a.off.expr()) == 0, Z(a.obj) >= 0, Z(a.obj) != Z(l.obj))


def p_wfl(a):
    return lambda v: [null_or(v, v.arg(a), wfl(v, v.arg(a)))]


def list_create_post(v):
    o, l = v.old, v.ret
    n, src = Z(o.arg('n')), o.arg('tensors')
    nn = nonnull(v, l)
    a = v.fld(l, LO, 'ptr')
    A, B_ = v.inner('po', a), o.inner('po', src)
    AX, BX = v.inner('px', a), o.inner('px', src)
    r = [('size', imp(nn, Z(v.fld(l, LN, 'i64')) == n)),
         ('array', imp(z3.And(nn, n > 0), And(Z(a.obj) >= Z(o.st.next), Z(a.off.expr()) == 0, v.alive(a), Z(v.size(a)) == 8 * n, Z(a.obj) != Z(l.obj)))),
         ('no-array-when-empty', imp(z3.And(nn, n <= 0), v.isnull(a))),
         ('elements-in-order', imp(nn, forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < n), z3.And(A[k_] == B_[k_], AX[k_] == BX[k_])), A[k_]))),
         ('no-leak', leak_free(v, [l, a]))]
    return r


def get_by_index_post(v):
    o, l = v.old, v.old.arg('rlist')
    i = Z(o.arg('index'))
    a = o.fld(l, LO, 'ptr')
    inr = z3.And(nonnull(v, l), i >= 0, i < Z(o.fld(l, LN, 'i64')))
    e = Ptr(z3.Select(o.inner('po', a), i), Lin.of(z3.Select(o.inner('px', a), i)))
    return [('element', imp(inr, same_ptr(v.ret, e))), ('null-outside', imp(z3.Not(inr), v.isnull(v.ret)))]


def empty_pre(v):
    return create_pre(v) + [z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < Z(v.arg('rank'))), v.inner('i64', v.arg('shape'))[k_] >= 0)),
                            NUM(v.inner('i64', v.arg('shape')), Z(v.arg('rank'))) * 16 < (1 << 62),
                            NUM(v.inner('i64', v.arg('shape')), Z(v.arg('rank'))) >= 0]


def empty_post(v):
    o, t = v.old, v.ret
    n = Z(o.arg('rank'))
    nn = nonnull(v, t)
    d = v.fld(t, AL, 'ptr')
    base = [x for x in create_post(1, data=False)(v)]
    base += [('buffer-room', imp(nn, And(v.alive(d), Z(d.off.expr()) == 0, Z(d.obj) >= Z(o.st.next), Z(v.size(d)) == NUM(o.inner('i64', o.arg('shape')), n) * dts(o.arg('dtype'))))),
             ('aligned-is-allocated', imp(nn, same_ptr(d, v.fld(t, AG, 'ptr')))),
             ('unknown-type-refused', imp(dts(o.arg('dtype')) == 0, v.isnull(t))),
             ('no-leak', leak_free(v, [t, v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr'), d]))]
    return base


def contracts_tensor():
    cs = [c_create(), c_create_owning(), c_untyped(), c_numelems(), c_dts(),
          Contract('omTensorCreateEmpty', empty_pre, empty_post, mods=lambda v: [], frees=lambda v: [], allocs=True, opts={'overflow': 'assume'}),
          getter('omTensorGetDataPtr', AG, 'ptr'), getter('omTensorGetShape', SH, 'ptr'), getter('omTensorGetStrides', ST, 'ptr'),
          getter('omTensorGetDataType', DT, 'i32'), getter('omTensorGetRank', RK, 'i64'), getter('omTensorGetOwning', OW, 'i64'),
          setter('omTensorSetDataType', 'dtype', DT, 'i32', 'dataType'), setter('omTensorSetOwning', 'owning', OW, 'i64', 'owning'),
          arr_setter('omTensorSetShape', 'shape', SH), arr_setter('omTensorSetStrides', 'strides', ST),
          arr_setter('omTensorSetStridesWithPyArrayStrides', 'stridesInBytes', ST,
                     f=lambda v, x: tdiv(x, dts(v.old.fld(v.old.arg('tensor'), DT, 'i32'))),
                     pre2=lambda v: [z3.Or(Z(v.isnull(v.arg('tensor'))), Z(v.isnull(v.arg('stridesInBytes'))), dts(v.fld(v.arg('tensor'), DT, 'i32')) > 0)]),
          simple('omTensorGetBufferSize', size_post, p_wf()), numelems()]
    return cs


def tdiv(x, d):
    """C division for a positive divisor"""
    return z3.If(x >= 0, x / d, -((-x) / d))


def contracts_list():
    return [Contract('omTensorListCreate', lambda v: [Z(v.arg('n')) <= MAXN, z3.Or(Z(v.arg('n')) <= 0, v.valid(v.arg('tensors'), 8 * Z(v.arg('n'))))], list_create_post,
                     mods=lambda v: [], frees=lambda v: [], allocs=True, opts={'overflow': 'assume'}),
            getter('omTensorListGetOmtArray', LO, 'ptr', a='list'), getter('omTensorListGetSize', LN, 'i64', a='list'),
            Contract('omTensorListGetOmtByIndex', p_wfl('rlist'), get_by_index_post, mods=lambda v: [], frees=lambda v: [])]


def groups(tier):
    return [Group('OMTensor.c', [('src/Runtime/OMTensor.c', ['^omTensor', 'getDataTypeSize', 'getNumElems']), ('src/Runtime/OnnxDataType.c', ['@OM_DATA_TYPE'])], contracts_tensor()),
            Group('OMTensorList.c', [('src/Runtime/OMTensorList.c', ['^omTensorList'])], contracts_list())]


def monitor(mode, label):
    return Native(label, ['native/omtensor.c', 'src/Runtime/OMTensor.c', 'src/Runtime/OMTensorList.c', 'src/Runtime/OnnxDataType.c', 'src/Support/SmallFPConversion.c'],
                  'random histories of at most 12 operations, rank at most 6, dimensions at most 16, every element type, every single allocation failure of a creation',
                  flags=['-Dmalloc=mon_malloc', '-Dfree=mon_free', '-Dcalloc=mon_calloc'], libs=['-lm'],
                  quick=['n=20000', 'mode=%d' % mode], thorough=['n=1000000', 'mode=%d' % mode], deep=['n=300000', 'mode=%d' % mode])


def natives(tier):
    return [monitor(1, 'tensor-api')]
