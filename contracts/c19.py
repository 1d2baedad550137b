import os
import z3
import irvc
from irvc import *
from strval import *
import strval
from suite import Group, Native
from c18 import ghost
PROP = 'C19'
SRC = 'src/Runtime/ExecutionSession.cpp'
SARG = 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
NM = '_ZN9onnx_mlir16ExecutionSession'
NMK = '_ZNK9onnx_mlir16ExecutionSession'
F = dict(handler=NM + '13signalHandlerEi', ctor=NM + 'C2' + SARG + 'S8_b', load=NM + '9loadModel' + 'E' + SARG + 'S8_b', close=NM + '12closeLibraryEv', entry=NM + '13setEntryPointE' + SARG, dtor=NM + 'D2Ev',
         query=NMK + '16queryEntryPointsB5cxx11EPl', isig=NMK + '14inputSignatureB5cxx11Ev', osig=NMK + '15outputSignatureB5cxx11Ev', info=NMK + '15compilationInfoB5cxx11Ev', pinst=NM + '20printInstrumentationEv',
         impl=NM + '17runImplementationEP12OMTensorListb', wsig=NM + '20runWithSignalHandlerEP12OMTensorList', nosig=NM + '23runWithoutSignalHandlerEP12OMTensorList', run=NM + '3runEP12OMTensorList', dbg=NM + '8runDebugEP12OMTensorListb',
         low="_ZZN9onnx_mlir16ExecutionSession9loadModelERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_bENK3$_0clEh")
F['ctor'] = NM + 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_b'
F['load'] = NM + '9loadModelERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_b'
F['entry'] = NM + '13setEntryPointERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
EXPLAIN = ('A session is an object with ghost surroundings: the environment variable OM_CONSTANT_PATH, the set of open libraries, the action of every signal, the blocked signals and errno. Proved for every path, tag, library and outcome: loadModel opens the file it was given '
           'with the constants directory set only for that time, resolves each entry under its own name and tag, and on every exception leaves no library open, the environment as before and the session unloaded; setEntryPoint selects the named symbol or none; '
           'the run functions call the selected entry point once on the list they were given, return what it returned, and on return and on every exception, a crash included, all signal actions and the blocked signals are as before; the signatures are those of the selected '
           'entry point; the destructor closes the library. Exceptions between the functions follow exceptional postconditions. A monitor runs histories over real libraries compiled by the check, with crashes, missing symbols and repeated use.')
ASSUMPTIONS = ['dlopen, dlsym, dlclose, getenv, setenv, unsetenv, sigaction, sigsetjmp behave as POSIX says; a library and its entry point leave the session object and the signal actions alone', 'a signal arrives while the entry point runs, in the thread that called it',
               'memory is available; std::string operations throw nothing', 'std::transform applies the (verified) lambda to every character']
TRUSTED = ['std::string and std::filesystem::path as modelled in contracts/strval.py; dynamic loading, environment, signals and C++ exceptions as modelled in contracts/c19.py', 'reportErrnoError (its text is checked by the monitor)']
SIGS = dict(SIGSEGV=11, SIGBUS=7, SIGFPE=8, SIGILL=4, SIGABRT=6)
AI, AB = z3.ArraySort(I, I), z3.ArraySort(I, B)
SYM = z3.Function('symbol_of_library', I, S, I)
FILE = z3.Function('file_of_library', I, S)
TEXT = z3.Function('text_at', I, S)
LOWER = z3.Function('lower_case', S, S)
TOLOWER = z3.Function('tolower_of', I, I)
LASTSEP = z3.Function('last_separator', S, I)
VAR = 'OM_CONSTANT_PATH'
INIT, HANDLE, NAME, ENTRY, QN, Q, ISN, OSN, IS, OS, CIN, CI, PIN, SIL, PI, PATHM = 0, 8, 16, 48, 56, 88, 96, 128, 160, 168, 176, 208, 216, 248, 256, 264
NAMES = {QN: 'omQueryEntryPoints', ISN: 'omInputSignature', OSN: 'omOutputSignature', CIN: 'omCompilationInfo', PIN: 'omInstrumentPrint'}
GH = ('envset', 'envval', 'lib', 'act', 'mask', 'calls', 'out', 'caught', 'armed', 'answer')


def off(p, n):
    return p.addoff(Lin(n))


def err(eng, st):
    return st.ghost['errno_at']


def b_errno(eng, st, fr, i, a):
    return err(eng, st)


def errno(v):
    return Z(v.eng.raw_load(v.st, v.st.ghost['errno_at'], 'i32'))


def clobber(eng, st):
    e = fresh('errno')
    eng.assume(st, And(e >= -(1 << 31), e < (1 << 31)))
    eng.raw_store(st, err(eng, st), 'i32', e)


# ---- exceptions
def b_throw(eng, st, fr, i, a):
    return eng.throw(st, i)


def b_exc(eng, st, fr, i, a):
    return eng.alloc(st, a[0])


def b_typeid(eng, st, fr, i, a):
    """every exception thrown here is an ExecutionSessionException, which this clause names"""
    p = a[0]
    n = eng.m.byid.get(p.obj) if isinstance(p, Ptr) and isint(p.obj) else None
    if n not in ('_ZTIN9onnx_mlir25ExecutionSessionExceptionE', '_ZTISt13runtime_error', '_ZTISt9exception'):
        raise Unsupported('catch clause of another type')
    return 1


def b_begin(eng, st, fr, i, a):
    return a[0]


# ---- environment
def only(eng, p):
    if irvc.cstring(eng, p) != VAR:
        raise Unsupported('another environment variable')


def b_getenv(eng, st, fr, i, a):
    only(eng, a[0])
    r = eng.alloc(st, 1)
    o = fresh('env')
    eng.assume(st, And(o >= 0, (o != 0) == st.ghost['envset'], z3.Implies(o != 0, TEXT(o) == st.ghost['envval'])))
    return Ptr(o, 0)


def ctext(eng, st, p):
    """the characters at p: a constant, or those of the string at p (see m_cstr), or those of an answer"""
    t = irvc.cstring(eng, p)
    if t is not None:
        return LIT(t)
    return get(eng, st, p)


def b_setenv(eng, st, fr, i, a):
    only(eng, a[0])
    g = st.ghost
    keep = And(g['envset'], Z(a[2]) == 0)
    x = ctext(eng, st, a[1])
    ghost(eng, st, 'envval', z3.If(keep, g['envval'], x))
    ghost(eng, st, 'envset', z3.BoolVal(True))
    return 0


def b_unsetenv(eng, st, fr, i, a):
    only(eng, a[0])
    ghost(eng, st, 'envset', z3.BoolVal(False))
    return 0


# ---- libraries
def dir_of(path):
    return z3.SubString(path, 0, LASTSEP(path))


def b_dlopen(eng, st, fr, i, a):
    g, line = st.ghost, i.get('line')
    path = sval(eng.old, eng.old.arg('sharedLibPath'))
    eng.oblige(st, 'call-pre', 'dlopen.the-given-file', ctext(eng, st, a[0]) == path, line)
    g0 = eng.old.st.ghost
    eng.oblige(st, 'call-pre', 'dlopen.constants-directory', z3.If(g0['envset'], And(g['envset'], g['envval'] == g0['envval']), And(g['envset'] == (LASTSEP(path) >= 0), z3.Implies(g['envset'], g['envval'] == dir_of(path)))), line)
    h = fresh('library')
    eng.assume(st, And(h >= 0, z3.Not(g['lib'][h]), z3.Implies(h != 0, FILE(h) == path)))
    ghost(eng, st, 'lib', z3.Store(g['lib'], h, h != 0))
    clobber(eng, st)
    return Ptr(h, 0)


def b_dlsym(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'dlsym.open-library', st.ghost['lib'][Z(a[0].obj)], i.get('line'))
    r = SYM(Z(a[0].obj), ctext(eng, st, a[1]))
    eng.assume(st, r >= 0)
    clobber(eng, st)
    return Ptr(r, 0)


def b_dlclose(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'dlclose.open-library', st.ghost['lib'][Z(a[0].obj)], i.get('line'))
    ghost(eng, st, 'lib', z3.Store(st.ghost['lib'], Z(a[0].obj), False))
    return 0


# ---- texts
def m_cstr(eng, st, fr, i, a):
    return a[0]


def c_text(eng, st, fr, i, a):
    t = irvc.cstring(eng, a[1])
    put(eng, st, a[0], LIT(t) if t is not None else TEXT(Z(a[1].obj)))


def m_find_last_of(eng, st, fr, i, a):
    t = irvc.cstring(eng, a[1])
    if t is None or set(t) != set('/\\') or not (isint(a[2]) and a[2] == NPOS):
        raise Unsupported('find_last_of')
    s = get(eng, st, a[0])
    eng.assume(st, And(LASTSEP(s) >= -1, LASTSEP(s) < z3.Length(s)))
    return LASTSEP(s)


def b_strcasecmp(eng, st, fr, i, a):
    return zero_iff(eng, st, LOWER(ctext(eng, st, a[0])) == LOWER(ctext(eng, st, a[1])))


def b_transform(eng, st, fr, i, a):
    s = a[0]
    put(eng, st, s, LOWER(get(eng, st, s)))
    return a[0]


def b_tolower(eng, st, fr, i, a):
    return TOLOWER(Z(a[0]))


# ---- signals
def b_sigaction(eng, st, fr, i, a):
    s = Z(a[0])
    act = st.ghost['act']
    new = None if isint(a[1].obj) and a[1].obj == 0 else a[1]
    h = eng.raw_load(st, new, 'ptr') if new is not None else None
    if not (isint(a[2].obj) and a[2].obj == 0):
        o = act[s]
        eng.raw_store(st, a[2], 'ptr', Ptr(o, 0))
    if h is not None:
        ghost(eng, st, 'act', z3.Store(act, s, Z(h.obj)))
    return 0


def setjmp(save):
    def m(eng, st, fr, i, a):
        sv = save if save is not None else a[1]
        s2 = st.clone()
        n = fresh('signal')
        g = s2.ghost
        eng.assume(s2, And(n > 0, n < 65))
        ghost(eng, s2, 'caught', n)
        ghost(eng, s2, 'calls', Z(g['calls']) + 1)
        m2 = fresh('mask')
        ghost(eng, s2, 'mask', z3.If(Z(sv) != 0, g['mask'], m2))
        clobber(eng, s2)
        f2 = s2.frames[-1]
        f2.env[i['id']] = n
        if i['op'] == 'invoke':
            raise Unsupported('setjmp with a handler')
        jumpbuf(eng, st, a[0], i)
        eng.run(s2)
        ghost(eng, st, 'armed', z3.BoolVal(True))
        return 0
    return m


def jumpbuf(eng, st, p, i):
    g = isinstance(p, Ptr) and isint(p.obj) and eng.m.byid.get(p.obj)
    eng.oblige(st, 'call-pre', 'jump.the-shared-buffer', z3.BoolVal(g == '_ZN9onnx_mlir16ExecutionSession16signalJumpBufferE'), i.get('line'))


def b_longjmp(eng, st, fr, i, a):
    jumpbuf(eng, st, a[0], i)
    eng.oblige(st, 'call-pre', 'jump.with-the-signal', And(Z(a[1]) == Z(eng.args['signum'])), i.get('line'))
    ghost(eng, st, 'armed', z3.BoolVal(True))
    return False


def b_report(eng, st, fr, i, a):
    g = st.ghost
    fs = a[2] if z3.is_bool(Z(a[2])) else Z(a[2]) != 0
    eng.oblige(st, 'call-pre', 'report.a-signal-when-one-was-caught', fs == (Z(g['caught']) != 0), i.get('line'))
    eng.oblige(st, 'call-pre', 'report.the-signal', z3.Implies(Z(g['caught']) != 0, Z(eng.raw_load(st, err(eng, st), 'i32')) == Z(g['caught'])), i.get('line'))
    eng.oblige(st, 'call-pre', 'report.the-error-of-the-entry-point', z3.Implies(Z(g['caught']) == 0, Z(eng.raw_load(st, err(eng, st), 'i32')) == g['answer']), i.get('line'))
    put(eng, st, a[0], fresh('report', S))


def b_delegated(eng, st, fr, i, a):
    raise Unsupported('not reached')


MOD = {'__cxa_throw': b_throw, '__cxa_rethrow': b_throw, '__cxa_allocate_exception': b_exc, '__cxa_free_exception': nop, '__cxa_begin_catch': b_begin, '__cxa_end_catch': nop, 'llvm.eh.typeid.for*': b_typeid,
       '_ZN9onnx_mlir25ExecutionSessionExceptionC2' + 'ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': nop, '_ZNSt15__new_allocatorIcED2Ev': nop, '_ZNSaIcEC1Ev': nop, '_ZNSaIcED1Ev': nop, '_ZNSt15__new_allocatorIcEC2Ev': nop,
       '__errno_location': b_errno, 'getenv': b_getenv, 'setenv': b_setenv, 'unsetenv': b_unsetenv, 'dlopen': b_dlopen, 'dlsym': b_dlsym, 'dlclose': b_dlclose, 'sigaction': b_sigaction, 'sigemptyset': nop,
       '__sigsetjmp': setjmp(None), '_setjmp': setjmp(0), 'setjmp': setjmp(0), 'siglongjmp': b_longjmp, 'longjmp': b_longjmp, '_longjmp': b_longjmp, 'strcasecmp': b_strcasecmp, 'tolower': b_tolower,
       NK + '5c_strEv': m_cstr, NK + '4dataEv': m_cstr, NK + '12find_last_ofEPKcm': m_find_last_of, NS + '5beginEv': m_cstr, NS + '3endEv': m_cstr, '_ZSt9transform*': b_transform,
       NS + 'C2IS3_EEPKcRKS3_': c_text, NS + 'C1IS3_EEPKcRKS3_': c_text, NMK + '16reportErrnoErrorB5cxx11Eb': b_report,
       '_ZNSt10filesystem7__cxx114pathC2IA1_cS1_EERKT_NS1_6formatE': c_empty}
ALL = {**strval.MODELS, **MOD}


# ---- the session
def fp(v, o, p=None):
    return Z(v.fld(v.arg('this') if p is None else p, o, 'ptr').obj)


def flag(v, o):
    return Z(v.fld(v.arg('this'), o, 'i8')) != 0


def setup(v):
    eng, st = v.eng, v.st
    e = eng.alloc(st, 4)
    st.ghost['errno_at'] = e
    eng.assume(st, z3.BoolVal(True))
    clobber(eng, st)
    st.ghost.update(envset=fresh('envset', B), envval=fresh('envval', S), lib=fresh('open', AB), act=fresh('act', AI), mask=fresh('mask'), calls=z3.IntVal(0), out=z3.IntVal(0), caught=z3.IntVal(0), armed=z3.BoolVal(False), answer=z3.IntVal(0))
    eng.assume(st, z3.Not(st.ghost['lib'][0]))


def names(v):
    t = v.arg('this')
    return And(*[sval(v, off(t, o)) == LIT(n) for o, n in NAMES.items()], flag(v, SIL))


def inv(v):
    t = v.arg('this')
    h, e = fp(v, HANDLE), fp(v, ENTRY)
    return And(*[Or(Z(v.fld(t, o, 'i8')) == 0, Z(v.fld(t, o, 'i8')) == 1) for o in (INIT, SIL)], *[fp(v, o) >= 0 for o in (Q, IS, OS, CI, PI)], *[Z(v.fld(t, o, 'ptr').off.expr()) == 0 for o in (HANDLE, ENTRY, Q, IS, OS, CI, PI)], *[z3.Implies(flag(v, INIT), fp(v, o) != 0) for o in (Q, IS, OS)], z3.Not(v.st.ghost['lib'][0]), h >= 0, e >= 0, z3.Implies(h != 0, v.st.ghost['lib'][h]), z3.Implies(flag(v, INIT), h != 0), z3.Implies(And(flag(v, INIT), e != 0), e == SYM(h, sval(v, off(t, NAME)))))


def pre(v):
    t = v.arg('this')
    return [Z(t.obj) > 0, Z(t.obj) < Z(v.st.next), Z(t.off.expr()) == 0, v.valid(t, 296), v.alive(t), names(v), inv(v)]


def pre_s(*strs):
    return lambda v: pre(v) + [Z(v.arg(x).obj) != Z(v.arg('this').obj) for x in strs]


def same(v, *gs):
    """parts of the surroundings are as before"""
    return [('%s as before' % dict(env='environment', lib='open libraries', act='signal actions', mask='blocked signals')[g],
             And(v.st.ghost['envset'] == v.old.st.ghost['envset'], z3.Implies(v.st.ghost['envset'], v.st.ghost['envval'] == v.old.st.ghost['envval'])) if g == 'env' else v.st.ghost[g] == v.old.st.ghost[g]) for g in gs]


WORLD = ('env', 'lib', 'act', 'mask')


def keeps(v, fields=(HANDLE, ENTRY, Q, IS, OS, CI, PI), texts=(NAME,)):
    t = v.arg('this')
    return [('the session is as before', And(flag(v, INIT) == flag(v.old, INIT), *[fp(v, o) == fp(v.old, o) for o in fields], *[sval(v, off(t, o)) == sval(v.old, off(t, o)) for o in texts]))]


def this_mods(v):
    return [v.arg('this')]


# indirect calls
def m_indirect(eng, st, fr, i, p, args):
    old, line, g = eng.old, i.get('line'), st.ghost
    fn = eng.curc.fn
    def isf(o):
        return And(Z(p.obj) == fp(old, o), Z(p.obj) != 0)
    def fresh_errno():
        clobber(eng, st)
        return Z(eng.raw_load(st, err(eng, st), 'i32'))
    if fn in (F['wsig'], F['nosig']):
        eng.oblige(st, 'call-pre', 'call.the-selected-entry-point', isf(ENTRY), line)
        eng.oblige(st, 'call-pre', 'call.on-the-given-list', irvc.ptr_eq(args[0], eng.args['input']), line)
        eng.oblige(st, 'call-pre', 'call.once', Z(g['calls']) == 0, line)
        eng.oblige(st, 'call-pre', 'call.errno-clear', Z(eng.raw_load(st, err(eng, st), 'i32')) == 0, line)
        if fn == F['wsig']:
            eng.oblige(st, 'call-pre', 'call.return-point-set', g['armed'], line)
            h = eng.m.gid[F['handler']]
            for n, s in SIGS.items():
                eng.oblige(st, 'call-pre', 'call.%s-is-handled' % n, g['act'][s] == h, line)
        ghost(eng, st, 'calls', Z(g['calls']) + 1)
        r = fresh('outputs')
        eng.assume(st, r >= 0)
        ghost(eng, st, 'out', r)
        ghost(eng, st, 'answer', fresh_errno())
        return Ptr(r, 0)
    if fn in (F['isig'], F['osig']):
        eng.oblige(st, 'call-pre', 'call.the-signature-function', isf(IS if fn == F['isig'] else OS), line)
        eng.oblige(st, 'call-pre', 'call.for-the-selected-entry-point', irvc.ptr_eq(args[0], off(eng.args['this'], NAME)), line)
    elif fn == F['info']:
        eng.oblige(st, 'call-pre', 'call.the-information-function', isf(CI), line)
    elif fn == F['query']:
        eng.oblige(st, 'call-pre', 'call.the-query-function', And(isf(Q), irvc.ptr_eq(args[0], eng.args['numOfEntryPoints'])), line)
    elif fn in (F['impl'], F['pinst']):
        eng.oblige(st, 'call-pre', 'call.the-print-function', isf(PI), line)
        return None
    else:
        raise Unsupported('indirect call')
    r = fresh('answer')
    eng.assume(st, r > 0)
    ghost(eng, st, 'answer', r)
    return Ptr(r, 0)


OPT = {'indirect': m_indirect}


def con(key, pre_, post, mods=None, x=None, **k):
    m = (lambda v: list(mods(v)) + [(v.st.ghost['errno_at'], ['i32'])])
    return Contract(F[key], pre_, post, m, setup=setup, opts=dict(OPT, **k.pop('opts', {})), allocs=True, ghosts=k.pop('ghosts', GH), xpost=x, **k)


def c_handler():
    return Contract(F['handler'], None, lambda v: [('never returns', z3.BoolVal(False))], lambda v: statics(v), setup=setup, allocs=True, opts={}, noreturn=True)


def statics(v):
    return [(Ptr(v.eng.m.gid[n], 0), ['i32']) for n in ('_ZN9onnx_mlir16ExecutionSession12signalCaughtE', '_ZN9onnx_mlir16ExecutionSession12signalNumberE') if n in v.eng.m.gid]


def ran(v):
    g = v.st.ghost
    return [('the entry point ran once', Z(g['calls']) == Z(v.old.st.ghost['calls']) + 1), ('its result is returned', And(Z(v.ret.obj) == Z(g['out']), Z(v.ret.off.expr()) == 0)), ('only when there is one', Z(v.ret.obj) != 0)]


def run_pre(v):
    return pre(v) + [flag(v, INIT), fp(v, ENTRY) != 0, Z(v.st.ghost['calls']) == 0, Z(v.st.ghost['caught']) == 0, z3.Not(v.st.ghost['armed'])]


def c_run(key):
    def post(v):
        return ran(v) + [('no error is left', errno(v) == 0)] + same(v, *WORLD) + keeps(v)

    def x(v):
        g = v.st.ghost
        return [('only when the entry point crashed or returned nothing', Or(Z(g['caught']) != 0, And(Z(g['calls']) == 1, Z(g['out']) == 0))), ('the error code stays to be read', z3.Implies(Z(g['caught']) != 0, errno(v) == Z(g['caught'])))] + same(v, *WORLD) + keeps(v)
    return con(key, run_pre, post, statics, x)


def c_impl(key):
    """run, runDebug and what they share"""
    def p(v):
        return pre(v) + [Z(v.st.ghost['calls']) == 0, Z(v.st.ghost['caught']) == 0, z3.Not(v.st.ghost['armed'])]

    def post(v):
        return ran(v) + [('a session with an entry point', And(flag(v.old, INIT), fp(v.old, ENTRY) != 0))] + same(v, *WORLD) + keeps(v)

    def x(v):
        g = v.st.ghost
        return [('only without a model, an entry point or a result', Or(z3.Not(flag(v.old, INIT)), fp(v.old, ENTRY) == 0, Z(g['caught']) != 0, And(Z(g['calls']) == 1, Z(g['out']) == 0)))] + same(v, *WORLD) + keeps(v)
    return con(key, p, post, statics, x)


def c_entry():
    def post(v):
        t = v.arg('this')
        x = sval(v.old, v.old.arg('entryPointName'))
        return [('the entry point is the named one', And(fp(v, ENTRY) == SYM(fp(v, HANDLE), x), fp(v, ENTRY) != 0)), ('its name is kept', sval(v, off(t, NAME)) == x), ('no error is left', errno(v) == 0), ('loaded', flag(v.old, INIT)), ('invariant', And(inv(v), names(v)))] + same(v, *WORLD) + keeps(v, (HANDLE, Q, IS, OS, CI, PI), (PATHM,))

    def x(v):
        n = sval(v.old, v.old.arg('entryPointName'))
        return [('only without a model or the symbol', Or(z3.Not(flag(v.old, INIT)), SYM(fp(v.old, HANDLE), n) == 0)), ('no entry point that was not asked for', Or(z3.Not(flag(v.old, INIT)), fp(v, ENTRY) == 0)), ('invariant', And(inv(v), names(v)))] + same(v, *WORLD) + keeps(v, (HANDLE, Q, IS, OS, CI, PI), (PATHM,))
    return con('entry', pre_s('entryPointName'), post, this_mods, x)


def c_close():
    def post(v):
        h = fp(v.old, HANDLE)
        return [('the library is closed', v.st.ghost['lib'] == z3.Store(v.old.st.ghost['lib'], h, False)), ('no model is loaded', And(fp(v, HANDLE) == 0, z3.Not(flag(v, INIT)))), ('the names stay', And(names(v), *[sval(v, off(v.arg('this'), o)) == sval(v.old, off(v.arg('this'), o)) for o in (NAME, PATHM)])), ('invariant', inv(v))] + same(v, 'env', 'act', 'mask')
    return con('close', pre, post, this_mods)


def c_dtor():
    def post(v):
        return [('the library is closed', v.st.ghost['lib'] == z3.Store(v.old.st.ghost['lib'], fp(v.old, HANDLE), False))] + same(v, 'env', 'act', 'mask')
    return con('dtor', lambda v: pre(v) + [z3.Not(v.st.ghost['lib'][0])], post, this_mods)


def tag_of(v):
    m, p = sval(v, v.arg('modelTag' if 'modelTag' in v.args else 'tag')), sval(v, v.arg('sharedLibPath'))
    t = z3.If(m == EMPTY, LOWER(REPL(FNAME(p), EMPTY)), m)
    return z3.If(LOWER(t) == LOWER(LIT('NONE')), EMPTY, z3.Concat(LIT('_'), t))


def loaded(v):
    t, g = v.arg('this'), v.st.ghost
    h, T = fp(v, HANDLE), tag_of(v.old)
    d = v.old.arg('defaultEntryPoint')
    d = d if z3.is_bool(Z(d)) else Z(d) != 0
    n = z3.Concat(LIT('run_main_graph'), T)
    def is_(o, nm, must=True):
        c = fp(v, o) == SYM(h, z3.Concat(LIT(nm), T))
        return And(c, fp(v, o) != 0) if must else c
    return [('a model is loaded', And(flag(v, INIT), h != 0)), ('from the given file', FILE(h) == sval(v.old, v.old.arg('sharedLibPath'))), ('query function', is_(Q, NAMES[QN])), ('input signature', is_(IS, NAMES[ISN])), ('output signature', is_(OS, NAMES[OSN])),
            ('compilation information', is_(CI, NAMES[CIN], False)), ('instrumentation', fp(v, PI) == SYM(h, LIT(NAMES[PIN]))), ('default entry point', z3.Implies(d, And(fp(v, ENTRY) == SYM(h, n), fp(v, ENTRY) != 0, sval(v, off(t, NAME)) == n))),
            ('no other entry point', z3.Implies(z3.Not(d), fp(v, ENTRY) == fp(v.old, ENTRY) if 'modelTag' in v.args else fp(v, ENTRY) == 0)),
            ('path kept', sval(v, off(t, PATHM)) == (sval(v.old, off(t, PATHM)) if 'modelTag' in v.args else sval(v.old, v.old.arg('sharedLibPath')))), ('one library more', And(z3.Not(v.old.st.ghost['lib'][h]), g['lib'] == z3.Store(v.old.st.ghost['lib'], h, True))), ('no error is left', errno(v) == 0)] + same(v, 'env', 'act', 'mask')


def c_load():
    def p(v):
        return pre_s('sharedLibPath', 'modelTag')(v) + [z3.Implies(z3.Not(flag(v, INIT)), And(fp(v, HANDLE) == 0, fp(v, ENTRY) == 0)), z3.Not(v.st.ghost['lib'][0])]

    def post(v):
        return [('not loaded before', z3.Not(flag(v.old, INIT)))] + loaded(v) + [('invariant', And(inv(v), names(v)))]

    def x(v):
        return [('a loaded session stays, another one is left unloaded', z3.If(flag(v.old, INIT), And(flag(v, INIT), fp(v, HANDLE) == fp(v.old, HANDLE), fp(v, ENTRY) == fp(v.old, ENTRY)), And(z3.Not(flag(v, INIT)), fp(v, HANDLE) == 0))), ('invariant', And(inv(v), names(v)))] + same(v, *WORLD)
    return con('load', p, post, this_mods, x, opts={'merge': True})


def c_ctor():
    def p(v):
        t = v.arg('this')
        return [Z(t.obj) > 0, Z(t.obj) < Z(v.st.next), Z(t.off.expr()) == 0, v.valid(t, 296), v.alive(t), z3.Not(v.st.ghost['lib'][0])] + [And(Z(v.arg(x).obj) != Z(t.obj), Z(v.arg(x).obj) > 0) for x in ('sharedLibPath', 'tag')]

    def post(v):
        return loaded(v) + [('invariant', And(inv(v), names(v)))]
    return con('ctor', p, post, this_mods, lambda v: same(v, *WORLD))


def c_sig(key):
    def post(v):
        return [('the text of the signature', sval(v, v.arg('agg.result')) == TEXT(Z(v.st.ghost['answer']))), ('a session with an entry point', And(flag(v.old, INIT), fp(v.old, ENTRY) != 0))] + same(v, *WORLD) + keeps(v)
    return con(key, lambda v: pre(v) + [Z(v.arg('agg.result').obj) != Z(v.arg('this').obj)], post, lambda v: [(v.arg('agg.result'), ['str'])], lambda v: [('only without a model or an entry point', Or(z3.Not(flag(v.old, INIT)), fp(v.old, ENTRY) == 0))] + same(v, *WORLD) + keeps(v))


def c_info():
    def post(v):
        r = sval(v, v.arg('agg.result'))
        return [('the text, or the empty object', r == z3.If(fp(v.old, CI) == 0, LIT('{}'), TEXT(Z(v.st.ghost['answer'])))), ('a session with a model', flag(v.old, INIT))] + same(v, *WORLD) + keeps(v)
    return con('info', lambda v: pre(v) + [Z(v.arg('agg.result').obj) != Z(v.arg('this').obj)], post, lambda v: [(v.arg('agg.result'), ['str'])], lambda v: [('only without a model', z3.Not(flag(v.old, INIT)))] + same(v, *WORLD) + keeps(v))


def c_simple(key):
    def post(v):
        r = [('the answer of the library', Z(v.ret.obj) == Z(v.st.ghost['answer']))] if key == 'query' else []
        return r + [('a session with a model', flag(v.old, INIT))] + same(v, *WORLD) + keeps(v)
    return con(key, pre, post, lambda v: [], lambda v: [('only without a model', z3.Not(flag(v.old, INIT)))] + same(v, *WORLD) + keeps(v))


def c_low():
    return Contract(F['low'], None, lambda v: [('the lower-case character', Z(v.ret) == TOLOWER(z3.If(Z(v.arg('c')) < 0, Z(v.arg('c')) + 256, Z(v.arg('c')))))])


CONTRACTS = [c_handler(), c_run('wsig'), c_run('nosig'), c_impl('impl'), c_impl('run'), c_impl('dbg'), c_entry(), c_close(), c_dtor(), c_load(), c_ctor(), c_sig('isig'), c_sig('osig'), c_info(), c_simple('query'), c_simple('pinst'), c_low()]


def groups(tier):
    return [Group('ExecutionSession', [(SRC, ['.'])], CONTRACTS, dict(ALL), flags=['-fexceptions', '-frtti'], inc=[os.path.join(irvc_repo(), 'src/Runtime')])]


def irvc_repo():
    return os.environ.get('VERIF_REPO', '/repo')


RT = 'src/Runtime/'


def natives(tier):
    inc = os.path.join(irvc_repo(), 'include')
    return [Native('histories', ['native/session.cpp', SRC] + [RT + x for x in ('OMTensorListHelper.cpp', 'OMTensorHelper.cpp', 'OMTensor.cpp', 'OMTensorList.cpp', 'OnnxDataType.cpp')] + ['src/Support/SmallFPConversion.c'],
                   'histories of 60 steps on 3 sessions over 12 libraries; at most 4 inputs', cxx=True, workdir=True, flags=['-DINCLUDE="%s"' % inc, '-I' + os.path.join(irvc_repo(), RT)], libs=['-rdynamic', '-ldl'],
                   quick=['n=500'], thorough=['n=9000'], parts=8, timeout=800)]
