import z3
from irvc import *
from omt import forall, imp, k_, Z
from stdstr import STR
from suite import Group, Native
PROP = 'C07'
EXPLAIN = ('hash_string and the compiler-side Utilities::hash are verified against the same recursive 32-bit FNV definition over the key bytes, for every string and start value; '
           'hash_int64 and the compiler-side integer hash against that definition over the decimal text of the integer; the two lookups against "slot of the key under the tables", with every table access in bounds '
           'for arbitrary keys and an empty frame. The table builder createPerfectHash is only monitored: dictionaries are built with the compiler code and every key looked up with the runtime code.')
ASSUMPTIONS = ['strings are NUL terminated and shorter than 2^31-1 bytes', 'the tables have dictSize entries, G[j] >= -dictSize and 0 <= V[j] < dictSize (what createPerfectHash produces; checked by the monitor only)',
               'createPerfectHash (llvm::SmallVector, std::map, llvm::sort) is outside the contracts: bounded monitor']
TRUSTED = ['snprintf("%lld") and std::to_string write the decimal text of the value (length by magnitude) and a terminator', 'strlen returns the number of bytes before the first NUL']
AII = z3.ArraySort(I, I)
SLEN = z3.Function('SLEN', AII, I, I)
FNV = z3.Function('FNV', AII, I, I, I, I)
DEC = z3.Function('DECIMAL', I, AII)
PRIME = 0x01000193


def w32(v):
    r = Z(v) % (1 << 32)
    return z3.If(r >= (1 << 31), r - (1 << 32), r)


def step(h, c):
    return z3.BV2Int(z3.Int2BV(w32(Z(h) * PRIME), 32) ^ z3.Int2BV(Z(c), 32), is_signed=True)


def h0(h):
    return z3.If(Z(h) == 0, z3.IntVal(PRIME), Z(h))


def fnv_def(A, o, h, i):
    return [FNV(A, Z(o), Z(h), 0) == h0(h), imp(Z(i) >= 0, FNV(A, Z(o), Z(h), Z(i) + 1) == step(FNV(A, Z(o), Z(h), Z(i)), A[Z(o) + Z(i)]))]


def declen(x):
    """number of characters of the decimal text of a 64-bit value"""
    e = z3.IntVal(1)
    for d in range(1, 19):
        e = z3.If(x >= 10 ** d, z3.IntVal(d + 1), e)
    n = z3.IntVal(2)
    for d in range(1, 19):
        n = z3.If(x <= -10 ** d, z3.IntVal(d + 2), n)
    return z3.If(x >= 0, e, n)


def isstr(v, p):
    """p points at a NUL terminated string of length SLEN"""
    A, o = v.inner('i8', p), Z(p.off.expr())
    n = SLEN(A, o)
    return [And(n >= 0, n < (1 << 31) - 1), v.valid(p, n + 1), A[o + n] == 0, forall(k_, z3.Implies(And(k_ >= 0, k_ < n), A[o + k_] != 0))]


def c_strlen():
    return Contract('strlen', lambda v: isstr(v, v.arg('s')), lambda v: [('length', Z(v.ret) == SLEN(v.old.inner('i8', v.old.arg('s')), Z(v.old.arg('s').off.expr())))],
                    mods=lambda v: [], frees=lambda v: [], args=['s'], trusted=True)


def m_strlen(eng, st, fr, i, a):
    v = View(eng, st, None, {'s': a[0]})
    for n, g in enumerate(isstr(v, a[0])):
        eng.oblige(st, 'call-pre', 'strlen.%d' % n, g, i.get('line'))
    return SLEN(v.inner('i8', a[0]), Z(a[0].off.expr()))


def put_decimal(eng, st, p, val):
    """the object at p now holds the decimal text of val and a terminator"""
    eng.expose(st, p.obj)
    eng.record(st, p, 'i8')
    A = DEC(Z(val))
    m = eng.memk(st, 'i8')
    st.mem['i8'] = z3.Store(m, Z(p.obj), A)
    n = declen(Z(val))
    eng.assume(st, And(A[n] == 0, SLEN(A, 0) == n))
    st.pc.append(forall(k_, z3.Implies(And(k_ >= 0, k_ < n), And(A[k_] >= 45, A[k_] <= 57))))
    return n


def m_snprintf(eng, st, fr, i, a):
    s = cstring(eng, a[2])
    if s not in ('%lld', '%ld', '%li', '%lli'):
        raise Unsupported('snprintf format %r' % s)
    p, cap, val = a[0], a[1], a[3]
    n = declen(Z(val))
    eng.oblige(st, 'decimal-text-fits', 'snprintf', n + 1 <= Z(cap), i.get('line'))
    eng.assume(st, n + 1 <= Z(cap))
    v = View(eng, st, None, {})
    eng.oblige(st, 'bounds', 'snprintf', v.valid(p, n + 1), i.get('line'))
    if not eng.prove(st, Z(p.off.expr()) == 0):
        raise Unsupported('snprintf into the middle of a buffer')
    put_decimal(eng, st, p, val)
    return n


def m_to_string(eng, st, fr, i, a):
    sret, val = a[0], a[1]
    n = declen(Z(val))
    d = eng.alloc(st, n + 1)
    put_decimal(eng, st, d, val)
    eng.raw_store(st, sret, 'ptr', d)
    eng.raw_store(st, sret.addoff(Lin(8)), 'i64', n)
    return None


def hs_loop(A, o, n, h='hval', iv='i', h0_=None):
    def inv(v):
        i = Z(v.var(iv))
        return [('range', And(i >= 0, i <= n(v))), ('hash', Z(v.var(h)) == FNV(A(v), o(v), h0_(v), i)), ]

    def lem(v):
        i = Z(v.var(iv))
        return fnv_def(A(v), o(v), h0_(v), i) + fnv_def(A(v), o(v), h0_(v), i - 1)
    return Loop(inv, variant=lambda v: n(v) - Z(v.var(iv)), lemmas=lem)


def A_(v):
    return v.old.inner('i8', v.old.arg('str'))


def O_(v):
    return Z(v.old.arg('str').off.expr())


def c_hash_string():
    return Contract('hash_string', lambda v: isstr(v, v.arg('str')),
                    lambda v: [('is-fnv-of-the-bytes', Z(v.ret) == FNV(A_(v), O_(v), Z(v.old.arg('hval')), SLEN(A_(v), O_(v))))],
                    mods=lambda v: [], frees=lambda v: [],
                    loops={'count': 1, 0: hs_loop(A_, O_, lambda v: SLEN(A_(v), O_(v)), h0_=lambda v: Z(v.old.arg('hval')))})


def int_post(v):
    x = Z(v.old.arg('val'))
    return [('is-fnv-of-the-decimal-text', Z(v.ret) == FNV(DEC(x), 0, Z(v.old.arg('hval')), declen(x)))]


def c_hash_int64():
    return Contract('hash_int64', lambda v: [], int_post, mods=lambda v: [], frees=lambda v: [])


def umod(h, n):
    h = Z(h)
    return z3.If(h >= 0, h, h + (1 << 32)) % Z(n)


def slot_post(key):
    def post(v):
        o = v.old
        G, V, n = o.arg('G'), o.arg('V'), o.arg('dictSize')
        d = o.rd('i32', G, umod(key(o, z3.IntVal(0)), n))
        want = z3.If(d < 0, o.rd('i32', V, -d - 1), o.rd('i32', V, umod(key(o, d), n)))
        return [('index-of-the-key-slot', Z(v.ret) == want), ('in-dictionary', And(Z(v.ret) >= 0, Z(v.ret) < Z(n)))]
    return post


def tables(v):
    G, V, n = v.arg('G'), v.arg('V'), Z(v.arg('dictSize'))
    g, w = v.rd('i32', G, k_), v.rd('i32', V, k_)
    return [And(n > 0, n < 1 << 31), v.valid(G, 4 * n), v.valid(V, 4 * n), Z(G.off.expr()) % 4 == 0, Z(V.off.expr()) % 4 == 0,
            forall(k_, z3.Implies(And(k_ >= 0, k_ < n), And(g >= -n, g < 1 << 31))), forall(k_, z3.Implies(And(k_ >= 0, k_ < n), And(w >= 0, w < n)))]


def c_find_str():
    def key(o, h):
        p = o.arg('str')
        A, f = o.inner('i8', p), Z(p.off.expr())
        return FNV(A, f, h, SLEN(A, f))
    return Contract('find_index_str', lambda v: isstr(v, v.arg('str')) + tables(v), slot_post(key), mods=lambda v: [], frees=lambda v: [])


def c_find_i64():
    return Contract('find_index_i64', lambda v: tables(v), slot_post(lambda o, h: FNV(DEC(Z(o.arg('val'))), 0, h, declen(Z(o.arg('val'))))), mods=lambda v: [], frees=lambda v: [])


def RS(v):
    return v.old.inner('i8', v.old.arg('str.coerce0'))


def c_cpp_hash():
    def n(v):
        return Z((v.old or v).arg('str.coerce1'))

    def o(v):
        return Z(v.old.arg('str.coerce0').off.expr())

    def inv(v):
        d = v.anyvar('__begin1', '__begin2', '__begin3')
        i = Z(d.off.expr()) - o(v)
        return [('range', And(i >= 0, i <= n(v), Z(d.obj) == Z(v.old.arg('str.coerce0').obj))), ('hash', Z(v.var('hval')) == FNV(RS(v), o(v), Z(v.old.arg('hval')), i))]

    def lem(v):
        i = Z(v.anyvar('__begin1', '__begin2', '__begin3').off.expr()) - o(v)
        return fnv_def(RS(v), o(v), Z(v.old.arg('hval')), i) + fnv_def(RS(v), o(v), Z(v.old.arg('hval')), i - 1)
    return Contract('onnx_mlir::Utilities::hash(unsigned int, llvm::StringRef)', lambda v: [And(n(v) >= 0, n(v) < 1 << 31), v.valid(v.arg('str.coerce0'), n(v))],
                    lambda v: [('is-fnv-of-the-bytes', Z(v.ret) == FNV(RS(v), o(v), Z(v.old.arg('hval')), n(v)))],
                    mods=lambda v: [], frees=lambda v: [],
                    loops={'count': 1, 0: Loop(inv, variant=lambda v: n(v) + o(v) - Z(v.anyvar('__begin1', '__begin2', '__begin3').off.expr()), lemmas=lem)})


def c_cpp_hash_int():
    return Contract('onnx_mlir::Utilities::hash(unsigned int, long)', lambda v: [], int_post, mods=lambda v: [], frees=lambda v: [], allocs=True)


MODELS = {'snprintf': m_snprintf, 'strlen': m_strlen}


def groups(tier):
    return [Group('OMIndexLookup.c', [('src/Runtime/OMIndexLookup.c', ['.'])], [c_hash_string(), c_hash_int64(), c_find_str(), c_find_i64()], models=MODELS),
            Group('PerfectHash.cpp', [('src/Conversion/ONNXToKrnl/PerfectHash.cpp', ['Utilities::hash', 'StringRef', 'basic_string'])], [c_cpp_hash(), c_cpp_hash_int()],
                  models=dict(STR, **{'std::__cxx11::to_string': m_to_string}))]


def natives(tier):
    libs = ['-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-Wl,-rpath,/usr/lib/llvm-20/lib']
    return [Native('index-lookup', ['native/lookup.cpp'], 'arbitrary tables of at most 5000 entries; random dictionaries of an odd number of at most 201 keys built by the compiler-side PerfectHash.cpp', cxx=True,
                   libs=libs, quick=['n=3000'], thorough=['n=100000'], deep=['n=20000']),
            Native('table-builder', ['native/lookup.cpp'], 'six small dictionaries', cxx=True, libs=libs, quick=['build=1'], thorough=['build=1'], deep=['build=1'])]
