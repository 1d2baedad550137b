"""Shared vocabulary for contracts on OMTensor / OMTensorList."""
import z3
from irvc import *
AL, AG, OF, SH, ST, RK, DT, OW = 0, 8, 16, 24, 32, 40, 48, 56
OMT_SIZE = 64
MAXN = 1 << 40
k_ = z3.Int('k')
o_ = z3.Int('o')
AII = z3.ArraySort(I, I)
# number of elements: NUM(shape, n) = shape[0] * ... * shape[n-1]
NUM = z3.Function('NUM', AII, I, I)
# dot product: DOT(u, v, n) = sum u[i]*v[i], i < n
DOT = z3.Function('DOT', AII, AII, I, I)


def num_def(A, i):
    """definition of NUM instantiated at i"""
    return [NUM(A, 0) == 1, z3.Implies(Z(i) >= 0, NUM(A, Z(i) + 1) == NUM(A, Z(i)) * A[Z(i)])]


def dot_def(U, V, i):
    return [DOT(U, V, 0) == 0, z3.Implies(Z(i) >= 0, DOT(U, V, Z(i) + 1) == DOT(U, V, Z(i)) + U[Z(i)] * V[Z(i)])]


def imp(a, b):
    return z3.Implies(Z(a), Z(b) if not isinstance(b, bool) else z3.BoolVal(b))


def forall(k, body, pat=None):
    if pat is not None:
        try:
            return z3.ForAll([k], body, patterns=[pat])
        except z3.Z3Exception:
            pass
    return z3.ForAll([k], body)


def nonnull(v, p):
    return z3.Not(Z(v.isnull(p)))


def null_or(v, p, c):
    return z3.Or(Z(v.isnull(p)), Z(c))


def wf(v, t, n=None):
    """t is a well-formed tensor: live struct, live shape/stride arrays of rank elements, pairwise different objects"""
    sh, st = v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr')
    r = v.fld(t, RK, 'i64')
    return And(v.valid(t, OMT_SIZE), Z(r) >= 0, Z(r) <= MAXN,
               imp(Z(r) > 0, And(v.valid(sh, 8 * Z(r)), v.valid(st, 8 * Z(r)))),
               Z(sh.off.expr()) == 0, Z(st.off.expr()) == 0,
               z3.Or(Z(sh.obj) != Z(st.obj), Z(sh.obj) == 0), Z(sh.obj) != Z(t.obj), Z(st.obj) != Z(t.obj),
               Z(sh.obj) >= 0, Z(st.obj) >= 0)


def same_ptr(a, b):
    return z3.And(Z(a.obj) == Z(b.obj), Z(a.off.expr()) == Z(b.off.expr()))


def same_fields(v, o, t, except_=()):
    r = []
    for nm, off, ty in (('allocated', AL, 'ptr'), ('aligned', AG, 'ptr'), ('offset', OF, 'i64'), ('shape', SH, 'ptr'), ('strides', ST, 'ptr'), ('rank', RK, 'i64'), ('dtype', DT, 'i32'), ('owning', OW, 'i64')):
        if nm in except_:
            continue
        a, b = v.fld(t, off, ty), o.fld(t, off, ty)
        r.append(same_ptr(a, b) if ty == 'ptr' else Z(a) == Z(b))
    return And(*r)


def array_same(v, o, kind, p, n):
    A, B_ = v.inner(kind, p), o.inner(kind, p)
    return forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < Z(n)), A[k_] == B_[k_]), A[k_])


# ---- creation -------------------------------------------------------------
def create_pre(v):
    n, s = v.arg('rank'), v.arg('shape')
    return [Z(n) >= 0, Z(n) <= MAXN, z3.Or(Z(n) == 0, v.valid(s, 8 * Z(n)))]


def create_post(owning, data=True):
    def post(v):
        t, o = v.ret, v.old
        n, s = o.arg('rank'), o.arg('shape')
        nn = nonnull(v, t)
        sh, st = v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr')
        S, O, T = v.inner('i64', sh), o.inner('i64', s), v.inner('i64', st)
        new = Z(o.st.next)
        ow = v.old.arg('owning') if owning == 'arg' else owning
        r = [('rank', imp(nn, Z(v.fld(t, RK, 'i64')) == Z(n))),
             ('element-type', imp(nn, Z(v.fld(t, DT, 'i32')) == Z(o.arg('dtype')))),
             ('ownership', imp(nn, Z(v.fld(t, OW, 'i64')) == Z(ow))),
             ('offset-zero', imp(nn, Z(v.fld(t, OF, 'i64')) == 0)),
             ('fresh', imp(nn, And(Z(t.obj) >= new, Z(sh.obj) >= new, Z(st.obj) >= new, Z(t.obj) < Z(v.st.next)))),
             ('distinct', imp(nn, z3.Distinct(Z(t.obj), Z(sh.obj), Z(st.obj)))),
             ('starts', imp(nn, And(Z(t.off.expr()) == 0, Z(sh.off.expr()) == 0, Z(st.off.expr()) == 0))),
             ('room', imp(nn, And(v.alive(t), v.alive(sh), v.alive(st), Z(v.size(t)) >= OMT_SIZE, Z(v.size(sh)) >= 8 * Z(n), Z(v.size(st)) >= 8 * Z(n)))),
             ('shape', imp(nn, forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < Z(n)), S[k_] == O[k_]), S[k_]))),
             ('innermost-stride-1', imp(z3.And(nn, Z(n) > 0), T[Z(n) - 1] == 1)),
             ('row-major-strides', imp(nn, forall(k_, z3.Implies(z3.And(k_ >= 0, k_ < Z(n) - 1), T[k_] == T[k_ + 1] * O[k_ + 1]), T[k_])))]
        if data:
            d = o.arg('data_ptr')
            r += [('data', imp(nn, And(same_ptr(v.fld(t, AL, 'ptr'), d), same_ptr(v.fld(t, AG, 'ptr'), d))))]
            r += [('no-leak', leak_free(v, [t, sh, st]))]
        return r
    return post


def leak_free(v, objs):
    """of the blocks allocated by the call, exactly the given ones are still live (none when the result is null)"""
    o, t = v.old, v.ret
    nn = nonnull(v, t)
    new = z3.And(o_ >= Z(o.st.next), o_ < Z(v.st.next))
    return forall(o_, z3.Implies(z3.And(new, z3.Select(v.st.alive, o_)), z3.And(nn, z3.Or(*[o_ == Z(p.obj) for p in objs]))), z3.Select(v.st.alive, o_))


def create_inv(v):
    t, i, n, s = v.var('tensor'), v.var('i'), v.arg('rank'), v.arg('shape')
    sh, st = v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr')
    S, O, T = v.inner('i64', sh), v.old.inner('i64', s), v.inner('i64', st)
    i = Z(i)
    return [('range', And(i >= -1, i <= Z(n) - 1)),
            ('shape', forall(k_, z3.Implies(z3.And(k_ > i, k_ < Z(n)), S[k_] == O[k_]), S[k_])),
            ('last', imp(i < Z(n) - 1, T[Z(n) - 1] == 1)),
            ('strides', forall(k_, z3.Implies(z3.And(k_ > i, k_ < Z(n) - 1), T[k_] == T[k_ + 1] * O[k_ + 1]), T[k_]))]


def c_create():
    return Contract('omTensorCreate', create_pre, create_post(0), ret=ret_start, mods=lambda v: [], frees=lambda v: [], allocs=True,
                    loops={'count': 1, 0: Loop(create_inv, variant=lambda v: Z(v.var('i')) + 1)}, opts={'overflow': 'assume'})


def c_create_owning():
    return Contract('omTensorCreateWithOwnership', create_pre, create_post('arg'), ret=ret_start, mods=lambda v: [], frees=lambda v: [], allocs=True, opts={'overflow': 'assume'})


def untyped_post(v):
    t, o = v.ret, v.old
    n = o.arg('rank')
    nn = nonnull(v, t)
    sh, st = v.fld(t, SH, 'ptr'), v.fld(t, ST, 'ptr')
    new = Z(o.st.next)
    return [('rank', imp(nn, Z(v.fld(t, RK, 'i64')) == Z(n))),
            ('element-type-undefined', imp(nn, Z(v.fld(t, DT, 'i32')) == 0)),
            ('not-owning', imp(nn, Z(v.fld(t, OW, 'i64')) == 0)),
            ('offset-zero', imp(nn, Z(v.fld(t, OF, 'i64')) == 0)),
            ('no-data', imp(nn, And(v.isnull(v.fld(t, AL, 'ptr')), v.isnull(v.fld(t, AG, 'ptr'))))),
            ('fresh-distinct', imp(nn, And(Z(t.obj) >= new, Z(sh.obj) >= new, Z(st.obj) >= new, z3.Distinct(Z(t.obj), Z(sh.obj), Z(st.obj))))),
            ('room', imp(nn, And(v.alive(t), v.alive(sh), v.alive(st), Z(v.size(sh)) >= 8 * Z(n), Z(v.size(st)) >= 8 * Z(n)))),
            ('no-leak', leak_free(v, [t, sh, st]))]


def c_untyped():
    return Contract('omTensorCreateUntyped', lambda v: [Z(v.arg('rank')) >= 0, Z(v.arg('rank')) <= MAXN], untyped_post,
                    mods=lambda v: [], frees=lambda v: [], allocs=True, opts={'overflow': 'assume'})


# ---- element counts ---------------------------------------------------------
def numelems_loop(shape, rank, res='numElem', iv='i'):
    """for the loop of getNumElems(shape, rank)"""
    def inv(v):
        i, r = Z(v.var(iv)), Z(v.var(res))
        A = v.old.inner('i64', shape(v))
        n = Z(rank(v))
        return [('range', And(i >= 0, z3.Or(i <= n, i == 0))), ('product', r == NUM(A, i))]

    def lem(v):
        A = v.old.inner('i64', shape(v))
        i = Z(v.var(iv))
        return num_def(A, i) + num_def(A, i - 1)
    return Loop(inv, variant=lambda v: z3.If(Z(rank(v)) > Z(v.var(iv)), Z(rank(v)) - Z(v.var(iv)), z3.IntVal(0)), lemmas=lem)


def c_numelems():
    """static helper getNumElems(shape, rank)"""
    return Contract('getNumElems', lambda v: [Z(v.arg('rank')) <= MAXN, z3.Or(Z(v.arg('rank')) <= 0, v.valid(v.arg('shape'), 8 * Z(v.arg('rank'))))],
                    lambda v: [('is-the-product', imp(Z(v.old.arg('rank')) >= 0, Z(v.ret) == NUM(v.old.inner('i64', v.old.arg('shape')), Z(v.old.arg('rank')))))],
                    mods=lambda v: [], frees=lambda v: [], opts={'overflow': 'assume'},
                    loops={'count': 1, 0: numelems_loop(lambda v: v.arg('shape'), lambda v: v.arg('rank'))})


# sizes in bytes of the ONNX element types (ONNX TensorProto numbering)
DTYPE_BYTES = [0, 4, 1, 1, 2, 2, 4, 8, None, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1]
