import z3
import irvc
from irvc import *
from omt import *
from suite import Group, Native
from c09 import const_text
PROP = 'C08'
EXPLAIN = ('Loading is specified over ghost state: which descriptors are open and for which path, how long each file is, and which part of which file a block maps or holds. Proved for every path text, environment, file size and outcome of every '
           'system call: omLoadConstantData leaves the pointer on a block that holds the first `size` bytes of the file named by the directory, a slash and the file name (by mapping it, or in the z/OS form by reading it in chunks) and reports '
           'success, or reports failure with the pointer unset; every descriptor it opened is closed, every buffer it allocated is released, nothing is mapped on failure; a second load and a byte order other than the host\'s do nothing. '
           'omUnloadConstantData releases the mapping and unsets the pointer; omGetExternalConstantAddr gives base plus offset once.')
ASSUMPTIONS = ['one thread loads or unloads a model at a time', 'the constant file is not shortened while it is mapped', 'path lengths below 2^40', 'the variables that hold the pointers are not part of the file name, path or buffers']
TRUSTED = ['open, close, fstat, mmap, munmap, read, posix_memalign, getenv, strlen and snprintf("%s%s%s") behave as POSIX says', 'fprintf, strerror and errno have no effect on the state described', 'x86-64 struct stat layout (st_size at 48)', 'the host is little endian']
STR = z3.DeclareSort('STR')
A8 = z3.ArraySort(I, I)
STRVAL = z3.Function('STRVAL', A8, I, STR)
LEN = z3.Function('LEN', STR, I)
JOIN = z3.Function('JOIN', STR, STR, STR, STR)
FSIZE = z3.Function('FILE_SIZE', STR, I)
FBYTE = z3.Function('FILE_BYTE', STR, I, I)
SEP = z3.Const('SLASH', STR)
SA = z3.ArraySort(I, STR)
GH = {'open': z3.ArraySort(I, B), 'path': SA, 'fpos': AII, 'mpath': SA, 'mlen': AII, 'opened': I}


def setup(v):
    for g, s in GH.items():
        v.st.ghost[g] = z3.Const('ghost0_' + g, s)
    e = v.eng
    # the module's own constant variables
    d = e.m.globals.get('DIR_SEPARATOR')
    if d is not None:
        p = v.fld(Ptr(e.m.gid['DIR_SEPARATOR'], 0), 0, 'ptr')
        q = e.constop(d['init']) if d.get('init') else None
        if isinstance(q, Ptr):
            e.assume(v.st, same_ptr(p, q))
            if cstring(e, q) == '/':
                e.assume(v.st, sval(v, q) == SEP)


def g(v, n):
    return v.st.ghost[n]


def gset(eng, st, **kw):
    for k, x in kw.items():
        st.ghost[k] = x
        eng.note(st, ('ghost', k))


def sval(v, p):
    return STRVAL(v.inner('i8', p), Z(p.off.expr()))


def m_strlen(eng, st, fr, i, a):
    n = LEN(sval(View(eng, st, None, {}), a[0]))
    eng.assume(st, And(n >= 0, n < 1 << 40))
    return n


def m_snprintf(eng, st, fr, i, a):
    fmt = const_text(eng, a[2])
    if fmt != '%s%s%s':
        raise Unsupported('snprintf format %r' % fmt)
    v = View(eng, st, None, {})
    x, y, z = [sval(v, p) for p in a[3:6]]
    n = Z(a[1])
    eng.oblige(st, 'memory-safety', 'snprintf destination', v.valid(a[0], n), i.get('line'))
    eng.oblige(st, 'call-pre', 'snprintf.whole-text', n > LEN(x) + LEN(y) + LEN(z), i.get('line'))
    eng.record(st, a[0], 'i8')
    X = fresh('text', A8)
    eng.assume(st, STRVAL(X, Z(a[0].off.expr())) == JOIN(x, y, z))
    st.mem['i8'] = z3.Store(eng.memk(st, 'i8'), Z(a[0].obj), X)
    return fresh('printed')


def m_getenv(eng, st, fr, i, a):
    nm = const_text(eng, a[0])
    p = Ptr(z3.Int('env_' + nm), 0)
    eng.assume(st, And(p.obj >= 0, p.obj < Z(st.next)))
    return p


def m_open(eng, st, fr, i, a):
    v = View(eng, st, None, {})
    eng.oblige(st, 'call-pre', 'open.for-reading', Z(a[1]) == 0, i.get('line'))
    fd = fresh('fd')
    eng.assume(st, And(fd >= -1, fd < 1 << 30, z3.Implies(fd >= 0, z3.Not(g(v, 'open')[fd]))))
    ok = fd >= 0
    p = sval(v, a[0])
    eng.assume(st, FSIZE(p) >= 0)
    gset(eng, st, open=z3.If(ok, z3.Store(g(v, 'open'), fd, True), g(v, 'open')), path=z3.If(ok, z3.Store(g(v, 'path'), fd, p), g(v, 'path')), fpos=z3.If(ok, z3.Store(g(v, 'fpos'), fd, 0), g(v, 'fpos')), opened=g(v, 'opened') + 1)
    return fd


def need_open(eng, st, fd, what, i):
    eng.oblige(st, 'call-pre', what + '.open-descriptor', And(Z(fd) >= 0, st.ghost['open'][Z(fd)]), i.get('line'))


def m_close(eng, st, fr, i, a):
    need_open(eng, st, a[0], 'close', i)
    gset(eng, st, open=z3.Store(st.ghost['open'], Z(a[0]), False))
    return fresh('closed')


def m_fstat(eng, st, fr, i, a):
    need_open(eng, st, a[0], 'fstat', i)
    r = fresh('fstat')
    eng.assume(st, z3.Or(r == 0, r == -1))
    n = fresh('st_size')
    eng.assume(st, z3.Implies(r == 0, n == FSIZE(st.ghost['path'][Z(a[0])])))
    eng.assume(st, And(n >= 0, n < 1 << 62))
    eng.raw_store(st, a[1].addoff(Lin(48)), 'i64', n)
    return r


def m_mmap(eng, st, fr, i, a):
    addr, n, prot, flags, fd, off = a
    need_open(eng, st, fd, 'mmap', i)
    p = st.ghost['path'][Z(fd)]
    ln = i.get('line')
    eng.oblige(st, 'call-pre', 'mmap.readable', Z(prot) % 2 == 1, ln)
    eng.oblige(st, 'call-pre', 'mmap.from-the-start-of-the-file', And(Z(off) == 0, z3.Or(Z(flags) == 1, Z(flags) == 2)), ln)
    eng.oblige(st, 'call-pre', 'mmap.within-the-file', And(Z(n) > 0, Z(n) <= FSIZE(p)), ln)
    q = eng.alloc(st, n)
    o = Z(q.obj)
    bad = fresh('mmap_fails', B)
    st.alive = z3.Store(st.alive, o, z3.Not(bad))
    gset(eng, st, mpath=z3.Store(st.ghost['mpath'], o, p), mlen=z3.Store(st.ghost['mlen'], o, Z(n)))
    return Ptr(z3.If(bad, 0, o), z3.If(bad, z3.IntVal(-1), z3.IntVal(0)))


def m_munmap(eng, st, fr, i, a):
    p, n = a
    eng.oblige(st, 'memory-safety', 'munmap of a mapped block', And(Z(p.obj) > 0, Z(p.off.expr()) == 0, z3.Select(st.alive, Z(p.obj)), st.ghost['mlen'][Z(p.obj)] == Z(n)), i.get('line'))
    st.alive = z3.Store(st.alive, Z(p.obj), False)
    eng.note(st, ('free',))
    return 0


def m_memalign(eng, st, fr, i, a):
    pp, al, n = a
    eng.oblige(st, 'call-pre', 'posix_memalign.alignment', z3.Or(*[Z(al) == 1 << k for k in range(3, 20)]), i.get('line'))
    s2 = st.clone()
    r = fresh('memalign_error')
    eng.assume(s2, And(r > 0, r < 200))
    s2.frames[-1].env[i['id']] = r
    eng.run(s2)
    q = eng.alloc(st, n)
    eng.raw_store(st, pp, 'ptr', q)
    eng.record(st, pp, 'po')
    eng.record(st, pp, 'px')
    return 0


def m_read(eng, st, fr, i, a):
    fd, buf, n = a
    need_open(eng, st, fd, 'read', i)
    v = View(eng, st, None, {})
    n = Z(n)
    eng.oblige(st, 'memory-safety', 'read destination', v.valid(buf, n), i.get('line'))
    eng.oblige(st, 'call-pre', 'read.something', n > 0, i.get('line'))
    fd = Z(fd)
    p, at = st.ghost['path'][fd], st.ghost['fpos'][fd]
    r = fresh('bytes_read')
    left = FSIZE(p) - at
    eng.assume(st, And(r >= -1, r <= n, z3.Implies(r > 0, r <= left)))
    eng.assume(st, z3.Implies(r == 0, left <= 0))
    eng.record(st, buf, 'i8')
    old = v.inner('i8', buf)
    X = fresh('readto', A8)
    b = Z(buf.off.expr())
    m = z3.If(r > 0, r, 0)
    eng.assume(st, forall(k_, X[k_] == z3.If(And(k_ >= b, k_ < b + m), FBYTE(p, at + k_ - b), old[k_]), X[k_]))
    st.mem['i8'] = z3.Store(eng.memk(st, 'i8'), Z(buf.obj), X)
    gset(eng, st, fpos=z3.Store(st.ghost['fpos'], fd, at + m))
    return r


def nothing(eng, st, fr, i, a):
    return fresh('status')


def m_ptr(eng, st, fr, i, a):
    p = eng.havoc_val(st, 'ptr', 'static')
    eng.assume(st, And(Z(p.obj) > 0, Z(p.obj) < Z(st.next)))
    return p


def m_errno(eng, st, fr, i, a):
    return Ptr(z3.Int('errno_object'), 0)


MODELS = {'strlen': m_strlen, 'snprintf': m_snprintf, 'getenv': m_getenv, 'open': m_open, 'close': m_close, 'fstat': m_fstat, 'mmap': m_mmap, 'munmap': m_munmap, 'posix_memalign': m_memalign, 'read': m_read,
          'fprintf': nothing, 'strerror': m_ptr, '__errno_location': m_errno}


def cell(v, n):
    p = v.arg(n)
    return v.fld(p, 0, 'ptr')


def cell_ok(v, n):
    p = v.arg(n)
    return And(v.valid(p, 8), Z(p.off.expr()) == 0)


def base(v):
    return [v.valid(Ptr(z3.Int('errno_object'), 0), 4), z3.Int('errno_object') > 0, z3.Int('errno_object') < Z(v.st.next)]


# ---- contracts. `form`: mapped (every platform but z/OS) or read (z/OS)
def holds(v, q, p, n, form):
    """block q holds the first n bytes of file p"""
    o = Z(q.obj)
    live = And(o > 0, Z(q.off.expr()) == 0, v.alive(q), Z(v.size(q)) >= Z(n), FSIZE(p) >= Z(n))
    if form == 'map':
        return And(live, g(v, 'mpath')[o] == p, g(v, 'mlen')[o] == Z(n))
    A = v.inner('i8', q)
    return And(live, forall(k_, z3.Implies(And(k_ >= 0, k_ < Z(n)), A[k_] == FBYTE(p, k_)), A[k_]))


def no_new(v, *but):
    """no block created since entry is still there, but the given ones"""
    return forall(o_, z3.Implies(And(o_ >= Z(v.old.st.next), o_ < Z(v.st.next), *[o_ != Z(b) for b in but]), z3.Not(v.st.alive[o_])), v.st.alive[o_])


def c_read(form):
    nm = 'mmapAndReadFile' if form == 'map' else 'mallocAndReadFile'

    def pre(v):
        fd = Z(v.arg('fd'))
        return base(v) + [cell_ok(v, 'constAddr'), fd >= 0, g(v, 'open')[fd], Z(v.arg('fileSize')) > 0, FSIZE(g(v, 'path')[fd]) >= 0, g(v, 'fpos')[fd] == 0, Z(cell(v, 'constAddr').obj) == 0]

    def post(v):
        o = v.old
        fd, n = Z(o.arg('fd')), o.arg('fileSize')
        q = cell(v, 'constAddr')
        ok = Z(v.ret) == 0
        return [('all-of-the-file-or-nothing', z3.If(ok, holds(v, q, g(o, 'path')[fd], n, form), Z(q.obj) == 0)), ('nothing-else-left-behind', z3.If(ok, no_new(v, q.obj), no_new(v))),
                ('a-new-block', imp(ok, Z(q.obj) >= Z(o.st.next))), ('other-mappings-kept', forall(o_, z3.Implies(o_ < Z(o.st.next), And(g(v, 'mpath')[o_] == g(o, 'mpath')[o_], g(v, 'mlen')[o_] == g(o, 'mlen')[o_])), g(v, 'mlen')[o_]))]
    loops = {}
    if form == 'read':
        def common(v, done):
            o = v.old
            p = g(o, 'path')[Z(o.arg('fd'))]
            q = cell(v, 'constAddr')
            A = v.inner('i8', q)
            N = Z(o.st.next)
            return [('buffer', And(Z(q.obj) >= N, Z(q.off.expr()) == 0, v.alive(q), Z(v.size(q)) == Z(o.arg('fileSize')), same_ptr(v.var('destAddr'), q), no_new(v, q.obj))),
                    ('position', g(v, 'fpos')[Z(o.arg('fd'))] == done), ('available', done <= FSIZE(p)), ('bytes', forall(k_, z3.Implies(And(k_ >= 0, k_ < done), A[k_] == FBYTE(p, k_)), A[k_])), ('descriptors', And(g(v, 'open') == g(o, 'open'), g(v, 'path') == g(o, 'path')))]
        loops = {'count': 2, 0: Loop(lambda v: [('progress', And(Z(v.var('offset')) >= 0, Z(v.var('remaining')) >= 0, Z(v.var('offset')) + Z(v.var('remaining')) == Z(v.old.arg('fileSize'))))] + common(v, Z(v.var('offset'))), variant=lambda v: Z(v.var('remaining'))),
                 1: Loop(lambda v: [('progress', And(Z(v.var('offset')) >= 0, Z(v.var('remaining')) > 0, Z(v.var('offset')) + Z(v.var('remaining')) == Z(v.old.arg('fileSize')), Z(v.var('totalRead')) >= 0, Z(v.var('totalRead')) <= Z(v.var('chunkSize')),
                                                     Z(v.var('chunkSize')) > 0, Z(v.var('chunkSize')) <= Z(v.var('remaining'))))] + common(v, Z(v.var('offset')) + Z(v.var('totalRead'))), variant=lambda v: Z(v.var('chunkSize')) - Z(v.var('totalRead')))}
    return Contract(nm, pre, post, mods=lambda v: [(v.arg('constAddr'), ('po', 'px')), (Ptr(z3.Int('errno_object'), 0), ('i32',))], frees=lambda v: [], allocs=True, setup=setup, ghosts=('mpath', 'mlen') if form == 'map' else ('fpos',), loops=loops,
                    opts={'overflow': 'assume'})


def endian(v, x):
    return Z(x) != 0


def c_endian():
    def one(v):
        # the first byte of the int variable i (little endian host)
        p = Ptr(v.eng.m.gid['i'], 0)
        v.eng.assume(v.st, v.inner('i8', p)[0] == v.inner('i32', p)[0] % 256)
        q = v.eng.m.globals['i'].get('init')
        if q and q.get('k') == 'int':
            v.eng.assume(v.st, v.inner('i32', p)[0] == int(q['v']))
    return Contract('checkEndianness', lambda v: [], lambda v: [('little-endian-packs-only', (Z(v.eng.b2i(v.ret)) != 0) == (Z(v.old.arg('constPackIsLE')) != 0))], mods=lambda v: [], frees=lambda v: [], setup=one)


def c_load(form):
    ENV = z3.Int('env_OM_CONSTANT_PATH')

    def file(v):
        o = v.old
        return z3.If(ENV != 0, JOIN(sval(o, Ptr(ENV, 0)), SEP, sval(o, o.arg('fname'))), sval(o, o.arg('fname')))

    def pre(v):
        a = v.arg('constAddr')
        q = v.fld(a, 0, 'ptr')
        return base(v) + [z3.Or(Z(v.isnull(a)), And(cell_ok(v, 'constAddr'), Z(a.obj) > 0, Z(q.obj) >= 0, Z(q.obj) < Z(v.st.next), z3.Implies(Z(q.obj) == 0, Z(q.off.expr()) == 0))), z3.Or(Z(v.arg('isLE')) == 0, Z(v.arg('isLE')) == 1), Z(v.arg('fname').obj) > 0, Z(v.arg('fname').obj) < Z(v.st.next)]

    def post(v):
        o = v.old
        a = o.arg('constAddr')
        ok = Z(v.eng.b2i(v.ret)) != 0
        q0, q = o.fld(a, 0, 'ptr'), v.fld(a, 0, 'ptr')
        isn = Z(v.isnull(a))
        was = Z(q0.obj) != 0
        n = Z(o.arg('size'))
        return [('nothing-for-a-null-pointer-or-size', imp(z3.Or(isn, n <= 0), z3.Not(ok))), ('a-second-load-changes-nothing', imp(And(z3.Not(isn), was), And(same_ptr(q, q0), imp(n > 0, ok), g(v, 'opened') == g(o, 'opened')))),
                ('whole-file-at-the-pointer-or-failure-and-none', imp(And(z3.Not(isn), z3.Not(was)), z3.If(ok, holds(v, q, file(v), n, form), Z(q.obj) == 0))),
                ('foreign-byte-order-is-refused', imp(And(z3.Not(isn), z3.Not(was), Z(o.arg('isLE')) == 0), z3.Not(ok))), ('every-descriptor-is-closed', forall(o_, g(v, 'open')[o_] == g(o, 'open')[o_], g(v, 'open')[o_])),
                ('opened-at-most-once', g(v, 'opened') <= g(o, 'opened') + 1), ('nothing-else-left-behind', z3.If(And(ok, z3.Not(was)), no_new(v, q.obj), no_new(v)))]
    return Contract('omLoadConstantData', pre, post, mods=lambda v: [(v.arg('constAddr'), ('po', 'px')), (Ptr(z3.Int('errno_object'), 0), ('i32',))], frees=lambda v: [], allocs=True, setup=setup, ghosts=tuple(GH), opts={'overflow': 'assume', 'interior': ('fname',)})


def c_addr():
    def pre(v):
        a, b = v.arg('outputAddr'), v.arg('baseAddr')
        return [z3.Or(Z(v.isnull(p)), And(v.valid(p, 8), Z(p.off.expr()) == 0)) for p in (a, b)]

    def post(v):
        o = v.old
        a, b = o.arg('outputAddr'), o.arg('baseAddr')
        nn = And(z3.Not(Z(v.isnull(a))), z3.Not(Z(v.isnull(b))))
        q0, q, bb = o.fld(a, 0, 'ptr'), v.fld(a, 0, 'ptr'), o.fld(b, 0, 'ptr')
        was = z3.Not(Z(v.isnull(q0)))
        return [('base-plus-offset', imp(And(nn, z3.Not(was)), And(Z(q.obj) == Z(bb.obj), Z(q.off.expr()) == Z(bb.off.expr()) + Z(o.arg('offset'))))), ('a-known-address-is-kept', imp(And(nn, was), same_ptr(q, q0)))]
    return Contract('omGetExternalConstantAddr', pre, post, mods=lambda v: [(v.arg('outputAddr'), ('po', 'px'))], frees=lambda v: [])


def c_unload(form):
    def pre(v):
        a = v.arg('constAddr')
        q = v.fld(a, 0, 'ptr')
        own = And(v.alive(q), Z(q.off.expr()) == 0, g(v, 'mlen')[Z(q.obj)] == Z(v.arg('size')), Z(q.obj) != Z(a.obj))
        return [z3.Or(Z(v.isnull(a)), And(cell_ok(v, 'constAddr'), Z(q.obj) >= 0, z3.Implies(Z(q.obj) == 0, Z(q.off.expr()) == 0), z3.Implies(Z(q.obj) != 0, own)))]

    def post(v):
        o = v.old
        a = o.arg('constAddr')
        q0, q = o.fld(a, 0, 'ptr'), v.fld(a, 0, 'ptr')
        had = And(z3.Not(Z(v.isnull(a))), Z(q0.obj) != 0)
        return [('released', imp(had, z3.Not(v.st.alive[Z(q0.obj)]))), ('pointer-unset', imp(had, Z(q.obj) == 0)), ('told', (Z(v.eng.b2i(v.ret)) != 0) == had)]
    return Contract('omUnloadConstantData', pre, post, mods=lambda v: [(v.arg('constAddr'), ('po', 'px'))], frees=lambda v: [z3.If(Z(v.isnull(v.arg('constAddr'))), 0, Z(v.fld(v.arg('constAddr'), 0, 'ptr').obj))], setup=setup)


def groups(tier):
    src = 'src/Runtime/OMExternalConstant.c'
    return [Group('mapped', [(src, ['.'])], [c_read('map'), c_endian(), c_load('map'), c_addr(), c_unload('map')], models=MODELS),
            Group('read (z/OS)', [(src, ['.'])], [c_read('read'), c_endian(), c_load('read'), c_unload('read')], models=MODELS, flags=['-D__MVS__', '-D__MAP_MEGA=0'])]


def natives(tier):
    W = '-Wl,' + ','.join('--wrap=' + x for x in ('open', 'close', 'mmap', 'munmap', 'fstat', 'read', 'posix_memalign'))
    q = dict(quick=['n=1500'], thorough=['n=60000'], deep=['n=8000'])
    return [Native('constants (mapped)', ['native/constants.c', 'src/Runtime/OMExternalConstant.c'], 'histories of at most 8 calls over 4 files, every single system call failing', flags=['-Dmalloc=mon_malloc', '-Dfree=mon_free'], libs=[W], workdir=True, **q),
            Native('constants (read)', ['native/constants.c', 'src/Runtime/OMExternalConstant.c'], 'as above, the z/OS form with short reads', flags=['-Dmalloc=mon_malloc', '-Dfree=mon_free', '-D__MVS__', '-D__MAP_MEGA=0'], libs=[W], workdir=True, **q)]
