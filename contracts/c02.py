import z3
from irvc import *
from omt import *
from suite import Group
import c01
from c01 import wfl, p_wf, LO, LN
PROP = 'C02'
EXPLAIN = 'Creation, destruction, buffer replacement and ownership changes are verified against contracts over the set of live blocks: every malloc may fail, every free must hit a live block, and on return exactly the specified blocks are live.'
ASSUMPTIONS = ['rank is between 0 and 2^40', 'tensors of one list are pairwise separate (their struct, shape, strides and owned data are different blocks)',
               'single-threaded use of a tensor', 'destruction of a tensor list of the C++ class (operator delete) is outside the contracts']
TRUSTED = ['allocation model: malloc returns null or a fresh block of the requested size; free releases exactly the block given']


def alive_in(v, obj):
    return z3.Select(v.st.alive, Z(obj))


def sep(v, t):
    """struct, shape, strides and owned data are separate heap blocks (or absent)"""
    sh, st, d = v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr'), v.fld(t, AL, 'ptr')
    own = Z(v.fld(t, OW, 'i64')) != 0
    blocks = [sh, st]
    r = [v.alive(t), Z(t.obj) > 0]
    for b in blocks:
        r += [Z(b.off.expr()) == 0, Z(b.obj) >= 0, Z(b.obj) != Z(t.obj), imp(Z(b.obj) != 0, v.alive(b))]
    r.append(z3.Or(Z(sh.obj) == 0, Z(sh.obj) != Z(st.obj)))
    dz = Z(d.obj)
    r.append(imp(own, And(Z(d.off.expr()) == 0, dz >= 0, imp(dz != 0, And(v.alive(d), dz != Z(t.obj), dz != Z(sh.obj), dz != Z(st.obj))))))
    return And(*r, Z(v.size(t)) >= OMT_SIZE)


def owned_data(v, t):
    d = v.fld(t, AL, 'ptr')
    return z3.If(Z(v.fld(t, OW, 'i64')) != 0, Z(d.obj), z3.IntVal(0))


def if_null(v, t, x):
    return z3.If(Z(v.isnull(t)), z3.IntVal(0), Z(x))


def destroy_frees(v):
    t = v.arg('tensor')
    return [if_null(v, t, x) for x in (t.obj, v.fld(t, SH, 'ptr').obj, v.fld(t, ST, 'ptr').obj, owned_data(v, t))]


def destroy_post(v):
    o, t = v.old, v.old.arg('tensor')
    nn = nonnull(v, t)
    d = o.fld(t, AL, 'ptr')
    own = Z(o.fld(t, OW, 'i64')) != 0
    return [('null-block-stays-dead', z3.Not(alive_in(v, 0))),
            ('struct-released', imp(nn, z3.Not(alive_in(v, t.obj)))),
            ('shape-released', imp(nn, z3.Not(alive_in(v, o.fld(t, SH, 'ptr').obj)))),
            ('strides-released', imp(nn, z3.Not(alive_in(v, o.fld(t, ST, 'ptr').obj)))),
            ('owned-data-released', imp(z3.And(nn, own), z3.Not(alive_in(v, d.obj))))]


def c_destroy():
    return Contract('omTensorDestroy', lambda v: [z3.Not(alive_in(v, 0)), null_or(v, v.arg('tensor'), sep(v, v.arg('tensor')))], destroy_post, mods=lambda v: [], frees=destroy_frees)


def setdata_post(v):
    o, t = v.old, v.old.arg('tensor')
    nn = nonnull(v, t)
    d = o.fld(t, AL, 'ptr')
    own = Z(o.fld(t, OW, 'i64')) != 0
    a, g = o.arg('allocatedPtr'), o.arg('alignedPtr')
    ng = v.fld(t, AG, 'ptr')
    return [('old-buffer-released-if-owned', imp(z3.And(nn, own), z3.Not(alive_in(v, d.obj)))),
            ('old-buffer-kept-if-not-owned', imp(z3.And(nn, z3.Not(own)), alive_in(v, d.obj) == alive_in(o, d.obj))),
            ('new-buffer', imp(nn, same_ptr(v.fld(t, AL, 'ptr'), a))),
            ('new-ownership', imp(nn, Z(v.fld(t, OW, 'i64')) == Z(o.arg('owning')))),
            ('aligned', imp(nn, z3.If(Z(v.isnull(g)), same_ptr(ng, a), same_ptr(ng, g)))),
            ('rest-kept', imp(nn, same_fields(v, o, t, ('allocated', 'aligned', 'owning'))))]


def c_setdata():
    return Contract('omTensorSetDataPtr', lambda v: [z3.Not(alive_in(v, 0)), null_or(v, v.arg('tensor'), sep(v, v.arg('tensor')))], setdata_post,
                    mods=lambda v: [v.arg('tensor')], frees=lambda v: [if_null(v, v.arg('tensor'), owned_data(v, v.arg('tensor')))], opts={'interior': ('alignedPtr',)})


# ---- list
IDX = z3.Function('element_of', I, I)     # ghost: which element a block belongs to


def el(v, l, i):
    a = v.fld(l, LO, 'ptr')
    return Ptr(z3.Select(v.inner('po', a), i), 0)


def el_is_start(v, l):
    a = v.fld(l, LO, 'ptr')
    n = Z(v.fld(l, LN, 'i64'))
    return forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < n), z3.Select(v.inner('px', a), k_) == 0), z3.Select(v.inner('px', a), k_))


def el_sep(v, o, l, lo):
    """elements from lo on are still live, separate, and tagged with their index (fields as in state o)"""
    a = o.fld(l, LO, 'ptr')
    n = Z(o.fld(l, LN, 'i64'))
    t = el(o, l, k_)

    def tag(x):
        return z3.Or(Z(x) == 0, IDX(Z(x)) == k_)
    sh, st, d = o.fld(t, SH, 'ptr'), o.fld(t, ST, 'ptr'), o.fld(t, AL, 'ptr')
    own = Z(o.fld(t, OW, 'i64')) != 0
    # sep in state v (contents unchanged, so fields may be read in o)
    r = [alive_in(v, t.obj), Z(t.obj) > 0, Z(o.size(t)) >= OMT_SIZE, tag(t.obj), tag(sh.obj), tag(st.obj), imp(own, tag(d.obj))]
    for b in (sh, st):
        r += [Z(b.off.expr()) == 0, Z(b.obj) >= 0, Z(b.obj) != Z(t.obj), imp(Z(b.obj) != 0, alive_in(v, b.obj))]
    r.append(z3.Or(Z(sh.obj) == 0, Z(sh.obj) != Z(st.obj)))
    dz = Z(d.obj)
    r.append(imp(own, And(Z(d.off.expr()) == 0, dz >= 0, imp(dz != 0, And(alive_in(v, dz), dz != Z(t.obj), dz != Z(sh.obj), dz != Z(st.obj))))))
    return forall(k_, z3.Implies(z3.And(k_ >= Z(lo), k_ < n, Z(t.obj) != 0), And(*r)), z3.Select(o.inner('po', a), k_))


def in_element(o, l, x, i):
    t = el(o, l, i)
    own = Z(o.fld(t, OW, 'i64')) != 0
    return z3.And(Z(t.obj) != 0, z3.Or(x == Z(t.obj), x == Z(o.fld(t, SH, 'ptr').obj), x == Z(o.fld(t, ST, 'ptr').obj), z3.And(own, x == Z(o.fld(t, AL, 'ptr').obj))))


def list_pre(v):
    l = v.arg('list')
    a = v.fld(l, LO, 'ptr')
    n = Z(v.fld(l, LN, 'i64'))
    return [z3.Not(alive_in(v, 0)), null_or(v, l, wfl(v, l)), null_or(v, l, el_is_start(v, l)), null_or(v, l, el_sep(v, v, l, 0)),
            imp(nonnull(v, l), And(IDX(Z(l.obj)) == -1, imp(Z(a.obj) != 0, And(IDX(Z(a.obj)) == -2, v.alive(a))), Z(l.obj) > 0))]


def list_inv(v):
    o, l = v.old, v.old.arg('list')
    i = Z(v.var('i'))
    n = Z(o.fld(l, LN, 'i64'))
    a = o.fld(l, LO, 'ptr')
    return [('range', And(i >= 0, z3.Or(i <= n))), ('null-dead', z3.Not(alive_in(v, 0))),
            ('rest-untouched', el_sep(v, o, l, i)),
            ('next-is-a-start', imp(i < n, z3.Select(o.inner('px', a), i) == 0)),
            ('list-itself-live', And(alive_in(v, l.obj), imp(Z(a.obj) != 0, alive_in(v, a.obj)))),
            ('only-elements-released', forall(o_, z3.Implies(alive_in(v, o_) != alive_in(o, o_), z3.And(IDX(o_) >= 0, IDX(o_) < i, in_element(o, l, o_, IDX(o_)))), alive_in(v, o_))),
            ('all-so-far-released', forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < i, Z(el(o, l, k_).obj) != 0), dead_element(v, o, l)), z3.Select(o.inner('po', a), k_)))]


def dead_element(v, o, l):
    t = el(o, l, k_)
    own = Z(o.fld(t, OW, 'i64')) != 0
    return z3.And(z3.Not(alive_in(v, t.obj)), z3.Not(alive_in(v, o.fld(t, SH, 'ptr').obj)), z3.Not(alive_in(v, o.fld(t, ST, 'ptr').obj)), imp(own, z3.Not(alive_in(v, o.fld(t, AL, 'ptr').obj))))


def list_post(deep):
    def post(v):
        o, l = v.old, v.old.arg('list')
        nn = nonnull(v, l)
        a = o.fld(l, LO, 'ptr')
        n = Z(o.fld(l, LN, 'i64'))
        r = [('list-released', imp(nn, z3.Not(alive_in(v, l.obj)))), ('array-released', imp(nn, z3.Not(alive_in(v, a.obj)))), ('null-dead', z3.Not(alive_in(v, 0)))]
        mine = z3.And(nn, z3.Or(o_ == Z(l.obj), o_ == Z(a.obj)))
        if deep:
            r.append(('every-element-released', imp(nn, forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < n, Z(el(o, l, k_).obj) != 0), dead_element(v, o, l)), z3.Select(o.inner('po', a), k_)))))
            mine = z3.Or(mine, z3.And(nn, IDX(o_) >= 0, IDX(o_) < n, in_element(o, l, o_, IDX(o_))))
        r.append(('nothing-else-released', forall(o_, z3.Implies(alive_in(v, o_) != alive_in(o, o_), mine), alive_in(v, o_))))
        return r
    return post


def c_list_destroy():
    return Contract('omTensorListDestroy', list_pre, list_post(True), mods=lambda v: [],
                    loops={'count': 1, 0: Loop(list_inv, variant=lambda v: Z(v.old.fld(v.old.arg('list'), LN, 'i64')) - Z(v.var('i')))})


def c_list_shallow():
    def pre(v):
        l = v.arg('list')
        a = v.fld(l, LO, 'ptr')
        return [z3.Not(alive_in(v, 0)), null_or(v, l, And(v.valid(l, 17), Z(l.obj) > 0, Z(a.off.expr()) == 0, Z(a.obj) >= 0, Z(a.obj) != Z(l.obj), imp(Z(a.obj) != 0, v.alive(a))))]
    return Contract('omTensorListDestroyShallow', pre, list_post(False), mods=lambda v: [], frees=lambda v: [if_null(v, v.arg('list'), v.arg('list').obj), if_null(v, v.arg('list'), v.fld(v.arg('list'), LO, 'ptr').obj)])


def groups(tier):
    names = ('omTensorCreate', 'omTensorCreateWithOwnership', 'omTensorCreateUntyped', 'omTensorCreateEmpty', 'getNumElems', 'getDataTypeSize', 'omTensorSetOwning')
    ct = [c for c in c01.contracts_tensor() if c.fn in names]
    cl = [c for c in c01.contracts_list() if c.fn == 'omTensorListCreate']
    ext = c_destroy()
    return [Group('OMTensor.c', [('src/Runtime/OMTensor.c', ['^omTensor', 'getDataTypeSize', 'getNumElems']), ('src/Runtime/OnnxDataType.c', ['@OM_DATA_TYPE'])], ct + [c_destroy(), c_setdata()]),
            Group('OMTensorList.c', [('src/Runtime/OMTensorList.c', ['^omTensorList']), ('src/Runtime/OMTensor.c', ['^omTensorDestroy'])], cl + [c_list_destroy(), c_list_shallow(), ext])]


def natives(tier):
    return [c01.monitor(2, 'tensor-lifetimes')]
