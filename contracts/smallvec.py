"""Trusted models of llvm::SmallVector members (LLVM's library, outside the repository).  A vector is
{data pointer @0, 32-bit size @8}; its elements are held in a block of their own (the inline buffer is not
distinguished from a heap block), which is as large as needed and dies with the vector."""
from irvc import *
ROOM = 1 << 50
j_ = z3.Int('vj')


def begin(v, p):
    return v.fld(p, 0, 'ptr')


def count(v, p):
    return Z(v.fld(p, 8, 'i32'))


def vec(v, p, kind='i64', esz=8):
    """(content array, size, well-formedness) of the vector at p"""
    b = begin(v, p)
    n = count(v, p)
    return v.inner(kind, b), n, And(v.alive(b), Z(b.off.expr()) == 0, Z(b.obj) > 0, n >= 0, esz * n <= v.size(b), v.size(b) == ROOM)


def _new(eng, st, p, n):
    d = eng.alloc(st, ROOM)
    eng.raw_store(st, p, 'ptr', d)
    eng.raw_store(st, p.addoff(Lin(8)), 'i32', n)
    return d


def _small(eng, st, i, what, n):
    eng.oblige(st, 'call-pre', what + '.fits', And(Z(n) >= 0, Z(n) < (1 << 31)), i.get('line'))


def mk(kind, esz):
    """models for element kind of esz bytes"""
    def v0(eng, st):
        return View(eng, st, None, {})

    def contents(eng, st, d, X):
        eng.record(st, d, kind)
        st.mem[kind] = z3.Store(eng.memk(st, kind), Z(d.obj), X)

    def ctor(eng, st, fr, i, a):
        _new(eng, st, a[0], 0)
        return None

    def fill(eng, st, fr, i, a):
        p, n, val = a
        _small(eng, st, i, 'SmallVector', n)
        x = eng.raw_load(st, val, kind)
        d = _new(eng, st, p, n)
        X = fresh('filled', z3.ArraySort(I, KSORT[kind]))
        eng.assume(st, z3.ForAll([j_], z3.Implies(And(j_ >= 0, j_ < Z(n)), X[j_] == x), patterns=[X[j_]]))
        contents(eng, st, d, X)
        return None

    def dtor(eng, st, fr, i, a):
        b = begin(v0(eng, st), a[0])
        st.alive = z3.Store(st.alive, Z(b.obj), False)
        eng.note(st, ('free',))
        return None

    def nop(eng, st, fr, i, a):
        return None

    def resize(eng, st, fr, i, a):
        _small(eng, st, i, 'resize', a[1])
        eng.raw_store(st, a[0].addoff(Lin(8)), 'i32', a[1])
        return None

    def push(eng, st, fr, i, a):
        v = v0(eng, st)
        b, n = begin(v, a[0]), count(v, a[0])
        _small(eng, st, i, 'push_back', n + 1)
        A = v.inner(kind, b)
        contents(eng, st, b, z3.Store(A, n, Z(a[1])))
        eng.raw_store(st, a[0].addoff(Lin(8)), 'i32', n + 1)
        return None

    def append(eng, st, fr, i, a):
        v = v0(eng, st)
        p, f, l = a
        b, n = begin(v, p), count(v, p)
        m = (Z(l.off.expr()) - Z(f.off.expr())) / esz
        eng.oblige(st, 'call-pre', 'append.range', And(Z(f.obj) == Z(l.obj), Z(f.off.expr()) <= Z(l.off.expr()), z3.Implies(m > 0, And(v.alive(f), Z(f.off.expr()) >= 0, Z(l.off.expr()) <= v.size(f), Z(f.obj) != Z(b.obj)))), i.get('line'))
        _small(eng, st, i, 'append', n + m)
        A, F, fi = v.inner(kind, b), v.inner(kind, f), Z(v.idx(kind, f))
        X = fresh('appended', z3.ArraySort(I, KSORT[kind]))
        eng.assume(st, z3.ForAll([j_], z3.Implies(And(j_ >= 0, j_ < n + m), X[j_] == z3.If(j_ < n, A[j_], F[fi + j_ - n])), patterns=[X[j_]]))
        contents(eng, st, b, X)
        eng.raw_store(st, p.addoff(Lin(8)), 'i32', n + m)
        return None

    def move(eng, st, fr, i, a):
        v = v0(eng, st)
        b, n = begin(v, a[1]), count(v, a[1])
        eng.raw_store(st, a[0], 'ptr', b)
        eng.raw_store(st, a[0].addoff(Lin(8)), 'i32', n)
        _new(eng, st, a[1], 0)
        return None
    return dict(ctor=ctor, fill=fill, dtor=dtor, nop=nop, resize=resize, push=push, append=append, move=move)


def size(eng, st, fr, i, a):
    return count(View(eng, st, None, {}), a[0])


def models(ty, ns, kind, esz):
    m = mk(kind, esz)
    r = {'llvm::SmallVectorBase<unsigned int>::size() const': size, 'llvm::SmallVectorBase<unsigned int>::size': size}
    for n in ns:
        c = 'llvm::SmallVector<%s, %du>::' % (ty, n)
        r.update({c + 'SmallVector()': m['ctor'], c + 'SmallVector(unsigned long, %s const&)' % ty: m['fill'], c + '~SmallVector()': m['dtor'], c + '~SmallVector': m['dtor'],
                  c + 'SmallVector(llvm::SmallVector<%s, %du>&&)' % (ty, n): m['move']})
    I_ = 'llvm::SmallVectorImpl<%s>::' % ty
    r.update({I_ + 'reserve': m['nop'], I_ + 'resize_for_overwrite': m['resize'], 'llvm::SmallVectorTemplateBase<%s, true>::push_back' % ty: m['push'],
              'void ' + I_ + 'append<%s const*, void>' % ty: m['append']})
    return r


VEC = {**models('long', (4,), 'i64', 8), **models('unsigned long', (4, 6), 'i64', 8)}
