import os
import z3
import irvc
from irvc import *
from strval import *
import strval
from omt import forall, k_
from suite import Group, Native
import c17
PROP = 'C18'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/Compiler/Command.cpp'
SARG = 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
CN = '_ZN9onnx_mlir7Command'
F = dict(ctor=CN + 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEb', base=CN + '11getBasenameE' + SARG, app=CN + '9appendStrE' + SARG,
         lst=CN + '10appendListERKSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS7_EE', reset=CN + '9resetArgsEv', redir=CN + '19redirectExecStreamsE' + SARG,
         exec=CN + '4execE' + SARG)
EXPLAIN = ('A command is a program, a log file and a vector of arguments. Proved for every argument text, list and prior state: the constructor puts the program name first, appendStr and appendList add exactly the non-empty strings at the end and in order '
           'and change nothing else, resetArgs keeps the first only. exec is verified with a ghost process (directory, child, descriptors, wait status): the child is started once, in the requested directory; it runs the program with exactly the '
           'arguments followed by a null pointer, both streams going to the log when one is set; a child that cannot exec ends with a failure code; the parent waits for that child until it ended; it returns exit status only of a child that ended by itself, '
           'and throws otherwise; on every return and every throw the directory of the caller is restored. A monitor runs real children (exit codes, signals, missing programs, unwritable logs, ignored SIGCHLD, interrupted waits).')
ASSUMPTIONS = ['fork, chdir, open, dup2, execvp and waitpid behave as POSIX says, with the outcome of each arbitrary; chdir that fails throws (filesystem::current_path)', 'what a throw skips (destructors) touches none of the state specified', 'fewer than 2^31 arguments']
TRUSTED = ['std::string, std::vector, std::filesystem::path as modelled in contracts/strval.py; the process functions and C++ throw as modelled in contracts/c18.py', 'getAbsolutePathUsingCurrentDir (proved in C17)']
AS = z3.ArraySort(I, S)
ARGS = 72
CWD0 = z3.Const('directory_of_caller', S)
VP = 'St6vectorIPcSaIS0_EE'


def off(p, n):
    return p.addoff(Lin(n))


# ---- exceptions: a throw ends the path; what must hold then is an obligation
def b_throw(eng, st, fr, i, a):
    h = eng.opts.get('throw')
    for nm, c in (h(View(eng, st, 0, eng.args, old=eng.old)) if h else []):
        eng.oblige(st, 'on-exception', nm, c, i.get('line'))
    return False


def b_exc(eng, st, fr, i, a):
    return eng.alloc(st, a[0])


# ---- std::vector<char *>
def p_push(eng, st, fr, i, a):
    v = strval.v_view(eng, st)
    d, n = vdata(v, a[0]), vsize(v, a[0])
    eng.raw_store(st, Ptr(d.obj, Lin.of(n, 8)), 'ptr', eng.raw_load(st, a[1], 'ptr'))
    eng.raw_store(st, off(a[0], 8), 'i64', n + 1)


def p_data(eng, st, fr, i, a):
    return Ptr(vdata(strval.v_view(eng, st), a[0]).obj, 0)


def m_cstr(eng, st, fr, i, a):
    """the address of a string stands for the address of its characters"""
    return a[0]


# ---- the process
def ghost(eng, st, n, x):
    st.ghost[n] = x
    eng.note(st, ('ghost', n))


def b_getcwd(eng, st, fr, i, a):
    put(eng, st, a[0], st.ghost['cwd'])


def b_chdir(eng, st, fr, i, a):
    ghost(eng, st, 'cwd', get(eng, st, a[0]))


def b_fork(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'fork.in-the-requested-directory', st.ghost['cwd'] == wanted(eng), i.get('line'))
    eng.oblige(st, 'call-pre', 'fork.once', Z(st.ghost['pid']) == -2, i.get('line'))
    r = fresh('pid')
    eng.assume(st, And(r >= -1, r < (1 << 31)))
    ghost(eng, st, 'pid', r)
    return r


def wanted(eng):
    w = sval(eng.old, eng.old.arg('wdir'))
    return z3.If(w == EMPTY, CWD0, z3.If(ISREL(w), JOIN(CWD0, w), w))


def b_open(eng, st, fr, i, a):
    this = eng.args['this']
    eng.oblige(st, 'call-pre', 'open.the-log-file', strval_eq(a[0], off(this, 32)), i.get('line'))
    eng.oblige(st, 'call-pre', 'open.for-writing', z3.BoolVal(isint(a[1]) and a[1] & 3 == 1 and a[1] & 0o100 != 0), i.get('line'))
    r = fresh('fd')
    eng.assume(st, And(r >= -1, r < (1 << 31)))
    ghost(eng, st, 'fd', r)
    return r


def b_dup2(eng, st, fr, i, a):
    for k, n in ((1, 'out'), (2, 'err')):
        if isint(a[1]) and a[1] == k:
            ghost(eng, st, n, Z(a[0]))


def strval_eq(p, q):
    return irvc.ptr_eq(p, q)


def b_execvp(eng, st, fr, i, a):
    this = eng.args['this']
    v = View(eng, st, 0, eng.args, old=eng.old)
    line = i.get('line')
    A, n = vdata(eng.old, off(this, ARGS)), vsize(eng.old, off(this, ARGS))
    po, px = (z3.Select(eng.memk(st, k), Z(a[1].obj)) for k in ('po', 'px'))
    eng.oblige(st, 'call-pre', 'exec.in-the-child', Z(st.ghost['pid']) == 0, line)
    eng.oblige(st, 'call-pre', 'exec.the-program', irvc.ptr_eq(a[0], this), line)
    eng.oblige(st, 'call-pre', 'exec.arguments-from-the-start', Z(a[1].off.expr()) == 0, line)
    eng.oblige(st, 'call-pre', 'exec.each-argument', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < n), And(po[k_] == Z(A.obj), px[k_] == ELT * k_)), patterns=[po[k_]]), line)
    eng.oblige(st, 'call-pre', 'exec.ended-by-null', po[n] == 0, line)
    for f in ('out', 'err'):
        eng.oblige(st, 'call-pre', 'exec.std%s-to-the-log' % f, z3.Implies(sval(eng.old, off(this, 32)) != EMPTY, And(Z(st.ghost[f]) == Z(st.ghost['fd']), Z(st.ghost['fd']) >= -1)), line)
    return -1


def b_exit(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'exit.only-the-child', Z(st.ghost['pid']) == 0, i.get('line'))
    eng.oblige(st, 'call-pre', 'exit.with-a-failure-code', And(Z(a[0]) > 0, Z(a[0]) < 256), i.get('line'))
    return False


def b_waitpid(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'wait.for-the-child', And(Z(a[0]) == Z(st.ghost['pid']), Z(a[0]) > 0), i.get('line'))
    eng.oblige(st, 'call-pre', 'wait.until-it-ends', Z(a[2]) == 0, i.get('line'))
    eng.oblige(st, 'call-pre', 'wait.once', z3.Not(st.ghost['reaped']), i.get('line'))
    ok, ws = fresh('waited', B), fresh('wstatus')
    eng.assume(st, And(ws >= 0, ws < 65536, z3.Or(ws % 128 == 0, And(ws % 128 > 0, ws % 128 < 127, ws < 256))))
    old = eng.raw_load(st, a[1], 'i32')
    eng.raw_store(st, a[1], 'i32', z3.If(ok, ws, Z(old)))
    ghost(eng, st, 'reaped', ok)
    ghost(eng, st, 'ws', z3.If(ok, ws, st.ghost['ws']))
    return z3.If(ok, Z(a[0]), z3.IntVal(-1))


def b_errno(eng, st, fr, i, a):
    o = -1000000 - next(eng.stackid)
    st.size = z3.Store(st.size, Z(o), Z(4))
    st.alive = z3.Store(st.alive, Z(o), True)
    st.priv[o] = {}
    e = fresh('errno')
    eng.assume(st, And(e >= -(1 << 31), e < (1 << 31)))
    eng.raw_store(st, Ptr(o, 0), 'i32', e)
    return Ptr(o, 0)


def c_tostring(eng, st, fr, i, a):
    put(eng, st, a[0], fresh('number', S))


PROC = {'__cxa_throw': b_throw, '__cxa_allocate_exception': b_exc, '__cxa_free_exception': nop, '_ZN9onnx_mlir16CommandExceptionC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': nop,
        '_ZN9onnx_mlir16CommandExceptionC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': nop,
        '_ZNSt10filesystem12current_pathB5cxx11Ev': b_getcwd, '_ZNSt10filesystem12current_pathERKNS_7__cxx114pathE': b_chdir,
        'fork': b_fork, 'vfork': b_fork, 'open': b_open, 'dup2': b_dup2, 'close': nop, 'execvp': b_execvp, 'exit': b_exit, '_exit': b_exit, 'waitpid': b_waitpid, '__errno_location': b_errno, 'fflush': nop,
        '_ZN' + VP + 'C2Ev': strval.v_ctor, '_ZN' + VP + 'D2Ev': nop, '_ZN' + VP + '7reserveEm': nop, '_ZN' + VP + '9push_backEOS0_': p_push, '_ZN' + VP + '9push_backERKS0_': p_push, '_ZN' + VP + '4dataEv': p_data,
        NK + '5c_strEv': m_cstr, NK + '4dataEv': m_cstr, '_ZNSt7__cxx119to_stringEi': c_tostring,
        '_ZN9onnx_mlir7Command5printEP8_IO_FILERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': nop,
        '_ZN' + FS + 'aSEONSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': a_copy}
ALL = {**MODELS, **PROC}


def iter_(v, n):
    """the hidden iterator of a loop over a range: an object that holds a pointer"""
    return v.fld(v.anyvar(*['__%s%d' % (n, k) for k in range(9)]), 0, 'ptr')


def iter_shape(block):
    return lambda v: [(v.anyvar(*['__begin%d' % k for k in range(9)]), block(v), ELT), (v.anyvar(*['__end%d' % k for k in range(9)]), block(v), ELT)]


# ---- the arguments
def args_of(v, p=None):
    p = off(v.arg('this') if p is None else p, ARGS)
    return velems(v, p), vsize(v, p)


def cmd_pre(v, *strs):
    t = v.arg('this')
    a = off(t, ARGS)
    d = vdata(v, a)
    return [Z(t.obj) > 0, v.valid(t, 96), vok(v, a), Z(d.obj) != Z(t.obj)] + [And(Z(v.arg(x).obj) != Z(d.obj), Z(v.arg(x).obj) != Z(t.obj)) for x in strs]


def kept(v, lo, hi=None):
    """the arguments that were there stay"""
    A, n = args_of(v)
    A0, n0 = args_of(v.old)
    return z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < n0), A[k_] == A0[k_]), patterns=[A[k_]])


def same_rest(v):
    t = v.arg('this')
    return ('program and log file are kept', And(sval(v, t) == sval(v.old, t), sval(v, off(t, 32)) == sval(v.old, off(t, 32)), Z(v.fld(t, 64, 'i8')) == Z(v.old.fld(t, 64, 'i8')), Z(vdata(v, off(t, ARGS)).obj) == Z(vdata(v.old, off(t, ARGS)).obj), Z(vdata(v, off(t, ARGS)).off.expr()) == 0))


def arg_mods(v):
    t = v.arg('this')
    return [(t, ['i64']), (vdata(v, off(t, ARGS)), ['str'])]


def c_app():
    def post(v):
        x = sval(v.old, v.old.arg('arg'))
        A, n = args_of(v)
        A0, n0 = args_of(v.old)
        return [('an empty argument is skipped', z3.Implies(x == EMPTY, And(n == n0, A == A0))), ('the argument is put at the end', z3.Implies(x != EMPTY, And(n == n0 + 1, A[n0] == x))), ('the others are kept', kept(v, 0)), same_rest(v), ('returns itself', ptr_eq(v.ret, v.arg('this')))]
    return Contract(F['app'], lambda v: cmd_pre(v, 'arg'), post, arg_mods)


NONEMPTY = z3.Function('nonempty_among_first', AS, I, I)


def ne_facts(A, i):
    return [NONEMPTY(A, 0) == 0, NONEMPTY(A, i + 1) == NONEMPTY(A, i) + z3.If(A[i] != EMPTY, 1, 0)]


def c_list():
    def L(v):
        p = v.old.arg('argList')
        return velems(v.old, p), vsize(v.old, p)

    def pre(v):
        p = v.arg('argList')
        return cmd_pre(v, 'argList') + [vok(v, p), Z(vdata(v, p).obj) != Z(v.arg('this').obj), Z(vdata(v, p).obj) != Z(p.obj), Z(vdata(v, p).obj) != Z(vdata(v, off(v.arg('this'), ARGS)).obj)]

    def upto(v, i):
        A, n = args_of(v)
        A0, n0 = args_of(v.old)
        B_, m = L(v)
        return [('one for each non-empty string', n == n0 + NONEMPTY(B_, i)), ('in order', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < i, B_[k_] != EMPTY), A[n0 + NONEMPTY(B_, k_)] == B_[k_]), patterns=[B_[k_]])),
                ('places are used once', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < i, B_[k_] != EMPTY), And(NONEMPTY(B_, k_) >= 0, NONEMPTY(B_, k_) < NONEMPTY(B_, i))), patterns=[B_[k_]])),
                ('the others are kept', kept(v, 0))]

    def pos_(v):
        b = iter_(v, 'begin')
        return b, Z(v.eng.div_off(v.st, b, ELT))

    def inv(v):
        b, i = pos_(v)
        e = iter_(v, 'end')
        B_, m = L(v)
        A, n = args_of(v)
        return [('range', And(i >= 0, i <= m, Z(b.obj) == Z(vdata(v.old, v.old.arg('argList')).obj), irvc.ptr_eq(e, Ptr(vdata(v.old, v.old.arg('argList')).obj, Lin.of(m, ELT))))),
                ('counted', NONEMPTY(B_, i) >= 0), ('the list is kept', velems(v, v.arg('argList')) == B_), same_rest(v)] + upto(v, i)

    def lem(v):
        B_, m = L(v)
        return ne_facts(B_, pos_(v)[1])

    def post(v):
        return upto(v, L(v)[1]) + [same_rest(v), ('returns itself', ptr_eq(v.ret, v.arg('this')))]
    return Contract(F['lst'], pre, post, arg_mods, loops={'count': 1, 0: Loop(inv, lambda v: L(v)[1] - pos_(v)[1], lem, shape=iter_shape(lambda v: vdata(v.old, v.old.arg('argList'))))})


def c_reset():
    def post(v):
        A, n = args_of(v)
        A0, n0 = args_of(v.old)
        return [('only the program name is left', And(n == 1, A[0] == A0[0])), same_rest(v)]
    return Contract(F['reset'], cmd_pre, post, arg_mods, opts={'throw': lambda v: [('only without a program name', args_of(v.old)[1] == 0)]})


def c_base():
    return Contract(F['base'], None, lambda v: [('last part of the path', sval(v, v.arg('agg.result')) == FNAME(sval(v.old, v.old.arg('path'))))], lambda v: [(v.arg('agg.result'), ['str'])])


def c_ctor():
    def post(v):
        t, x = v.arg('this'), sval(v.old, v.old.arg('exePath'))
        A, n = args_of(v)
        return [('a program', x != EMPTY), ('program', sval(v, t) == x), ('no log file', sval(v, off(t, 32)) == EMPTY), ('verbosity', (Z(v.fld(t, 64, 'i8')) != 0) == (v.arg('isVerbose') if z3.is_bool(Z(v.arg('isVerbose'))) else Z(v.arg('isVerbose')) != 0)), ('the first argument is the name of the program', And(n == 1, A[0] == FNAME(x)))]
    return Contract(F['ctor'], lambda v: [Z(v.arg('this').obj) > 0, v.valid(v.arg('this'), 96), Z(v.arg('exePath').obj) != Z(v.arg('this').obj)], post, lambda v: [v.arg('this')], allocs=True,
                    opts={'throw': lambda v: [('only without a program', sval(v.old, v.old.arg('exePath')) == EMPTY)]})


def c_redir():
    def post(v):
        t = v.arg('this')
        return [('the log file is the given one', sval(v, off(t, 32)) == sval(v.old, v.old.arg('stdFilename'))), ('program kept', sval(v, t) == sval(v.old, t))]
    return Contract(F['redir'], lambda v: [Z(v.arg('this').obj) > 0, v.valid(v.arg('this'), 96), Z(v.arg('stdFilename').obj) != Z(v.arg('this').obj)], post, lambda v: [(v.arg('this'), ['str'])])


def c_exec():
    def setup(v):
        v.st.ghost.update(cwd=CWD0, pid=z3.IntVal(-2), reaped=z3.BoolVal(False), ws=z3.IntVal(-1), out=z3.IntVal(-2), err=z3.IntVal(-2), fd=z3.IntVal(-2))

    def begin(v):
        b = iter_(v, 'begin')
        return b, Z(v.eng.div_off(v.st, b, ELT))

    def inv(v):
        t = v.arg('this')
        A0, n0 = vdata(v.old, off(t, ARGS)), vsize(v.old, off(t, ARGS))
        b, i = begin(v)
        e = iter_(v, 'end')
        X = v.var('execArgs')
        d, n = vdata(v, X), vsize(v, X)
        po, px = (z3.Select(v.eng.memk(v.st, k), Z(d.obj)) for k in ('po', 'px'))
        return [('range', And(i >= 0, i <= n0, Z(b.obj) == Z(A0.obj), irvc.ptr_eq(e, Ptr(A0.obj, Lin.of(n0, ELT))))), ('taken', n == i), ('block', And(Z(d.off.expr()) == 0, Z(d.obj) > 0, v.alive(d))),
                ('one pointer for each argument', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < i), And(po[k_] == Z(A0.obj), px[k_] == ELT * k_)), patterns=[po[k_]]))]

    def wait_inv(v):
        return [('still to be waited for', And(z3.Not(v.st.ghost['reaped']), v.st.ghost['ws'] == -1))]

    def post(v):
        g = v.st.ghost
        return [('the child was started and waited for', And(Z(g['pid']) > 0, g['reaped'])), ('it ended by itself', g['ws'] % 128 == 0), ('its exit code is returned', Z(v.ret) == g['ws'] / 256), ('the directory of the caller is restored', g['cwd'] == CWD0)]

    def thrown(v):
        g = v.st.ghost
        return [('the directory of the caller is restored', g['cwd'] == CWD0), ('not after a normal end', z3.Not(And(g['reaped'], g['ws'] % 128 == 0)))]
    return Contract(F['exec'], lambda v: cmd_pre(v, 'wdir'), post, None, loops={'count': 2, 0: Loop(inv, lambda v: vsize(v.old, off(v.arg('this'), ARGS)) - begin(v)[1], shape=iter_shape(lambda v: vdata(v.old, off(v.old.arg('this'), ARGS)))), 1: Loop(wait_inv, None)},
                    setup=setup, opts={'throw': thrown}, allocs=True, ghosts=('cwd', 'pid', 'reaped', 'ws', 'out', 'err', 'fd'))


def c_abs():
    """proved in C17"""
    def post(v):
        x = sval(v.old, v.old.arg('a1'))
        return [('directory', sval(v, v.arg('a0')) == z3.If(z3.Or(x == EMPTY, z3.Not(ISREL(x))), x, JOIN(v.old.st.ghost['cwd'], x)))]
    return Contract(c17.F['abs'], None, post, lambda v: [(v.arg('a0'), ['str'])], trusted=True, args=['a0', 'a1'])


CONTRACTS = [c_base(), c_ctor(), c_app(), c_list(), c_reset(), c_redir(), c_exec(), c_abs()]


def groups(tier):
    return [Group('Command', [(SRC, ['.'])], CONTRACTS, dict(ALL), flags=['-fexceptions', '-frtti'])]


def natives(tier):
    return [c17.command('children', 'lists of at most 12 arguments; exit codes, signals, missing programs and directories, logs, ignored SIGCHLD, interrupted waits', ['exec=200'], ['exec=3000'])]
