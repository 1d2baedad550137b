import os
import z3
import irvc
from irvc import *
from strval import *
import strval
import irbv
from omt import forall, k_
from suite import Group, Native
PROP = 'C17'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/Compiler/CommandUtils.cpp'
STRS = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
F = dict(
    parse='_ZN9onnx_mlir10parseFlagsERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
    target='_ZN9onnx_mlir17getTargetFilenameERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_18EmissionTargetTypeE',
    input='_ZN9onnx_mlir16getInputFilenameERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKSt6vectorIS5_SaIS5_EE',
    emit='_ZN9onnx_mlirL26getEmissionTargetFromFlagsERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKSt6vectorIS5_SaIS5_EE',
    base='_ZN9onnx_mlirL26getOutputBasenameFromFlagsERKSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS6_EE',
    out='_ZN9onnx_mlir17getOutputFilenameERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKSt6vectorIS5_SaIS5_EE',
    tag='_ZN9onnx_mlir11getModelTagERKSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS6_EE',
    apply='_ZN9onnx_mlir15applyOutputPathERSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS6_EERKS6_SB_',
    abs='_ZN9onnx_mlir30getAbsolutePathUsingCurrentDirERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
)
EXPLAIN = ('parseFlags is proved against the automaton of a command line over every text: what is escaped, inside double and inside single quotes and pending after a prefix, and which arguments were completed; the vector returned holds exactly '
           'those arguments, in order, the last one also without a separator after it. For every flag vector (any length, any texts) the scans are proved: the value of -o (glued or separate), the tag, the input (the last resort when the first argument '
           'is not a model), the emission kind; getTargetFilename for every kind; getOutputFilename is the explicit name or the input name with its extension removed, then the extension of the kind; applyOutputPath touches the name only, and only '
           'when it has no directory; getAbsolutePathUsingCurrentDir. A monitor runs the same functions, OMCompile\'s file names and a stand-in compiler on random texts.')
ASSUMPTIONS = ['vectors of flags have fewer than 2^31 entries', 'std::filesystem operations are uninterpreted functions of the texts (the monitor runs the real ones)', 'the strings given to one call are separate objects, and not elements of the vector given to it']
TRUSTED = ['std::string, std::vector<std::string>, std::filesystem::path members as modelled in contracts/strval.py; isspace in the C locale']
AS = z3.ArraySort(I, S)


# ---- parseFlags: what is pending after a prefix of the text
ESC, DQ, SQ = (z3.Function('flags_' + n, S, I, B) for n in ('escaped', 'in_double', 'in_single'))
CUR = z3.Function('flags_pending', S, I, S)
CNT = z3.Function('flags_count', S, I, I)
TOK = z3.Function('flags_token', S, I, S)


def start_facts(s):
    return [z3.Not(ESC(s, 0)), z3.Not(DQ(s, 0)), z3.Not(SQ(s, 0)), CUR(s, 0) == EMPTY, CNT(s, 0) == 0]


def step_facts(s, n):
    ch = z3.SubString(s, n, 1)
    c = z3.StrToCode(ch)
    e, d, q, cur = ESC(s, n), DQ(s, n), SQ(s, n), CUR(s, n)
    esc = And(z3.Not(e), c == 92)
    dq = And(z3.Not(e), c == 34, z3.Not(q))
    sq = And(z3.Not(e), c == 39, z3.Not(d))
    sep = And(z3.Not(e), isspace_of(c), z3.Not(d), z3.Not(q))
    lit = z3.Not(Or(esc, dq, sq, sep))
    done = And(sep, cur != EMPTY)
    return [ESC(s, n + 1) == esc, DQ(s, n + 1) == z3.If(dq, z3.Not(d), d), SQ(s, n + 1) == z3.If(sq, z3.Not(q), q),
            CUR(s, n + 1) == z3.If(lit, z3.Concat(cur, ch), z3.If(sep, EMPTY, cur)),
            CNT(s, n + 1) == CNT(s, n) + z3.If(done, 1, 0), z3.Implies(done, TOK(s, CNT(s, n)) == cur)]


def c_parse():
    def pre(v):
        return []

    def inv(v):
        s = sval(v.old, v.old.arg('flags'))
        i = Z(v.var('i'))
        r = v.arg('agg.result')
        N = vsize(v, r)
        A = velems(v, r)
        d = vdata(v, r)
        return [('text', sval(v, v.arg('flags')) == s), ('i', And(i >= 0, i <= z3.Length(s))), ('escape', Z(v.var('escapeNext')) == ESC(s, i) if z3.is_bool(Z(v.var('escapeNext'))) else (Z(v.var('escapeNext')) != 0) == ESC(s, i)),
                ('double', (Z(v.var('inDoubleQuote')) != 0) == DQ(s, i)), ('single', (Z(v.var('inSingleQuote')) != 0) == SQ(s, i)),
                ('bits', And(*[And(Z(v.var(n)) >= 0, Z(v.var(n)) <= 1) for n in ('escapeNext', 'inDoubleQuote', 'inSingleQuote')])),
                ('pending', sval(v, v.var('current')) == CUR(s, i)), ('count', And(N == CNT(s, i), N >= 0)),
                ('vector', And(Z(d.obj) > 0, Z(d.off.expr()) == 0, v.alive(d))),
                ('tokens', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < N), A[k_] == TOK(s, k_)), patterns=[TOK(s, k_)]))]

    def lem(v):
        s = sval(v.old, v.old.arg('flags'))
        return start_facts(s) + step_facts(s, Z(v.var('i')))

    def post(v):
        s = sval(v.old, v.old.arg('flags'))
        n = z3.Length(s)
        r = v.arg('agg.result')
        N, A = vsize(v, r), velems(v, r)
        rest = CUR(s, n) != EMPTY
        return [('as many strings as the text has arguments', N == CNT(s, n) + z3.If(rest, 1, 0)),
                ('each string is the argument written', z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < CNT(s, n)), A[k_] == TOK(s, k_)), patterns=[TOK(s, k_)])),
                ('the last argument needs no separator after it', z3.Implies(rest, A[CNT(s, n)] == CUR(s, n)))]
    return Contract(F['parse'], pre, post, lambda v: [v.arg('agg.result')], loops={'count': 1, 0: Loop(inv, lambda v: z3.Length(sval(v, v.arg('flags'))) - Z(v.var('i')), lem)}, allocs=True)


# ---- scanning the flags of a command line: the value found from flag i on
BASE, INP, TAG = (z3.Function('scan_' + n, AS, I, I, S) for n in ('output', 'input', 'tag'))
FEM, FOUT = (z3.Function('scan_' + n, AS, I, I, I) for n in ('emit', 'output_at'))
num = lambda t: z3.StringVal(t)


def starts(x, t):
    return z3.PrefixOf(LIT(t), x)


def rest(x, n):
    return z3.SubString(x, n, z3.Length(x) - n)


def u_base(A, n, i):
    x, nx = A[i], BASE(A, n, i + 1)
    return BASE(A, n, i) == z3.If(i >= n, EMPTY, z3.If(starts(x, '-o='), z3.If(z3.Length(x) > 3, rest(x, 3), nx), z3.If(And(x == LIT('-o'), i < n - 1), A[i + 1], nx)))


def u_inp(A, n, i):
    x = A[i]
    model = And(z3.Not(starts(x, '-')), Or(*[z3.SuffixOf(LIT(t), x) for t in ('.mlir', '.onnx', '.onnxtext')]))
    return INP(A, n, i) == z3.If(i >= n, EMPTY, z3.If(model, x, INP(A, n, i + 1)))


def u_tag(A, n, i):
    x = A[i]
    return TAG(A, n, i) == z3.If(i >= n, EMPTY, z3.If(starts(x, '--tag='), rest(x, 6), z3.If(starts(x, '-tag='), rest(x, 5), TAG(A, n, i + 1))))


def u_emit(A, n, i):
    return FEM(A, n, i) == z3.If(i >= n, n, z3.If(Or(starts(A[i], '-Emit'), starts(A[i], '--Emit')), i, FEM(A, n, i + 1)))


def names_output(x):
    return And(starts(x, '-o='), z3.Length(x) > 3)


def u_fout(A, n, i):
    return FOUT(A, n, i) == z3.If(i >= n, n, z3.If(Or(names_output(A[i]), And(A[i] == LIT('-o'), i < n - 1)), i, FOUT(A, n, i + 1)))


LIB, JNI, OBJ, MLIR = 'lib', 'jni', 'obj', 'mlir'
ENUM = {}


def kind_of(x):
    """output kind of an emit flag; None in the last place where the name says nothing (no such option exists)"""
    def is_(t):
        return Or(starts(x, '-Emit' + t), starts(x, '--Emit' + t))
    return is_('Lib'), is_('JNI'), is_('Obj'), And(*[Or(z3.IndexOf(x, LIT(t), 0) < 0, z3.IndexOf(x, LIT(t), 0) > 6) for t in ('Lib', 'JNI', 'Obj')])


def flags_pre(v, name, *strs):
    p = v.arg(name)
    return [vok(v, p), Z(vdata(v, p).obj) != Z(p.obj)] + [Z(v.arg(x).obj) != Z(vdata(v, p).obj) for x in strs]


def scan(v, name='flagVect'):
    """flags as they were on entry"""
    o = v.old
    p = o.arg(name)
    return velems(o, p), vsize(o, p)


def same_flags(v, name='flagVect'):
    p = v.arg(name)
    A, n = scan(v, name)
    return ('the flags are as given', And(velems(v, p) == A, vsize(v, p) == n, Z(vdata(v, p).obj) == Z(vdata(v.old, v.old.arg(name)).obj), Z(vdata(v, p).off.expr()) == 0))


def c_scan(key, R, unfold, name, post, strs=(), more_inv=None, mods=True, idx='i', fresh_alloc=False):
    def inv(v):
        A, n = scan(v, name)
        i = Z(v.var(idx))
        return [same_flags(v, name), ('range', And(i >= 0, i <= n)), ('nothing found before', R(A, n, z3.IntVal(0)) == R(A, n, i))] + (more_inv(v) if more_inv else [])

    def lem(v):
        A, n = scan(v, name)
        i = Z(v.var(idx))
        return [unfold(A, n, i), unfold(A, n, n), n >= 0]
    return Contract(F[key], lambda v: flags_pre(v, name, *strs), post, (lambda v: [(v.arg('agg.result'), ['str'])]) if mods else None,
                    loops={'count': 1, 0: Loop(inv, lambda v: scan(v, name)[1] - Z(v.var(idx)), lem)})


def result(v):
    return sval(v, v.arg('agg.result'))


def unchanged(v, name):
    return (name + ' is as given', sval(v, v.arg(name)) == sval(v.old, v.old.arg(name)))


def base_post(v):
    A, n = scan(v)
    return [('the value of the first -o option that has one', result(v) == BASE(A, n, z3.IntVal(0)))]


def tag_post(v):
    A, n = scan(v)
    return [('the value of the first tag option', result(v) == TAG(A, n, z3.IntVal(0)))]


def tag_inv(v):
    return [('no tag so far', sval(v, v.anyvar('modelTag')) == EMPTY)]


def input_post(v):
    A, n = scan(v, 'flags')
    x = sval(v.old, v.old.arg('inputFilename'))
    return [('the given name, else the first model file among the arguments', result(v) == z3.If(x != EMPTY, x, INP(A, n, z3.IntVal(0))))]


def emit_post(v):
    A, n = scan(v)
    f = FEM(A, n, z3.IntVal(0))
    lib, jni, obj, mlir = kind_of(A[f])
    r = Z(v.ret)
    E = enums()
    return [('a library unless an emit option says otherwise', z3.Implies(f >= n, r == E['EmitLib'])), ('EmitLib', z3.Implies(And(f < n, lib), r == E['EmitLib'])),
            ('EmitJNI', z3.Implies(And(f < n, jni), r == E['EmitJNI'])), ('EmitObj', z3.Implies(And(f < n, obj), r == E['EmitObj'])), ('any other kind is a form of MLIR', z3.Implies(And(f < n, mlir), r == E['EmitMLIR']))]


def enums():
    """values of EmissionTargetType, from its definition"""
    if not ENUM:
        import re
        t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open('/repo/include/onnx-mlir/Compiler/OMCompilerTypes.h').read(), flags=re.S)
        body = re.search(r'enum\s+(?:class\s+)?(?:EmissionTargetType\s*)?\{([^}]*)\}\s*(?:EmissionTargetType\s*)?;', t[t.rindex('enum', 0, t.index('EmitLib')):]).group(1)
        k = 0
        for e in body.split(','):
            e = e.strip()
            if e:
                n, _, x = e.partition('=')
                k = int(x, 0) if x.strip() else k
                ENUM[n.strip()] = k
                k += 1
    return ENUM


def with_extension(base, kind):
    E = enums()
    ext = lambda t: z3.Concat(base, LIT(t))
    return z3.If(kind == E['EmitLib'], ext('.so'), z3.If(kind == E['EmitJNI'], ext('.jar'), z3.If(kind == E['EmitObj'], ext('.o'), ext('.onnx.mlir'))))


def target_post(v):
    return [('the name with the extension of the kind', result(v) == with_extension(sval(v.old, v.old.arg('outputBasename')), Z(v.arg('target'))))]


def stripped(x):
    """without the extension: up to the last dot"""
    d = LAST(x, LIT('.'))
    return z3.If(d < 0, x, z3.SubString(x, 0, d))


def out_post(v):
    A, n = scan(v)
    x = sval(v.old, v.old.arg('inputFilename'))
    b = BASE(A, n, z3.IntVal(0))
    m = z3.If(x != EMPTY, x, INP(A, n, z3.IntVal(0)))
    name = z3.If(b != EMPTY, b, stripped(m))
    f = FEM(A, n, z3.IntVal(0))
    E = enums()
    lib, jni, obj, mlir = kind_of(A[f])
    r = result(v)
    return [('a library unless an emit option says otherwise', z3.Implies(Or(f >= n, lib), r == z3.Concat(name, LIT('.so')))), ('an archive', z3.Implies(And(f < n, jni), r == z3.Concat(name, LIT('.jar')))),
            ('an object', z3.Implies(And(f < n, obj), r == z3.Concat(name, LIT('.o')))), ('MLIR', z3.Implies(And(f < n, mlir), r == z3.Concat(name, LIT('.onnx.mlir'))))]


def abs_post(v):
    x = sval(v.old, v.old.arg('filename'))
    return [('empty and absolute names are kept, others start at the current directory', result(v) == z3.If(Or(x == EMPTY, z3.Not(ISREL(x))), x, JOIN(CWD, x)))]


def apply_pre(v):
    return flags_pre(v, 'flagVect', 'outputPath', 'inputFilename') + [Z(v.arg('flagVect').obj) != Z(v.arg('outputPath').obj), Z(v.arg('flagVect').obj) != Z(v.arg('inputFilename').obj)]


def apply_post(v):
    A, n = scan(v)
    p = v.arg('flagVect')
    B_, m = velems(v, p), vsize(v, p)
    path, inp = sval(v.old, v.old.arg('outputPath')), sval(v.old, v.old.arg('inputFilename'))
    f = FOUT(A, n, z3.IntVal(0))
    glued = names_output(A[f])
    at_ = z3.If(glued, f, f + 1)
    name = z3.If(glued, rest(A[f], 3), A[f + 1])
    new = JOIN(path, FNAME(name))
    named, bare = And(path != EMPTY, f < n), PARENT(name) == EMPTY
    upto = lambda lim, skip: z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < lim, k_ != skip), B_[k_] == A[k_]), patterns=[B_[k_]] if z3.is_const(B_) else [A[k_]])
    return [('no path: nothing changes', z3.Implies(path == EMPTY, And(m == n, B_ == A))),
            ('a name with a directory is kept', z3.Implies(And(named, z3.Not(bare)), And(m == n, B_ == A))),
            ('a bare name is put into the path', z3.Implies(And(named, bare), And(m == n, B_[at_] == z3.If(glued, z3.Concat(LIT('-o='), new), new)))),
            ('the other arguments are kept', z3.Implies(And(named, bare), upto(n, at_))),
            ('without a name the model name is put into the path', z3.Implies(And(path != EMPTY, f >= n), And(m == n + 2, B_[n] == LIT('-o'), B_[n + 1] == JOIN(path, STEM(inp))))),
            ('the arguments before it are kept', z3.Implies(And(path != EMPTY, f >= n), upto(n, z3.IntVal(-1))))]


def c_apply():
    c = c_scan('apply', FOUT, u_fout, 'flagVect', apply_post)
    c.pre = apply_pre
    c.mods = lambda v: [(v.arg('flagVect'), ['i64']), (vdata(v, v.arg('flagVect')), ['str'])]
    inv = c.loops[0].inv
    c.loops[0].inv = lambda v: inv(v) + [unchanged(v, 'outputPath'), unchanged(v, 'inputFilename')]
    c.lemmas = None
    return c


def c_out():
    return Contract(F['out'], lambda v: flags_pre(v, 'flagVect', 'inputFilename'), out_post, lambda v: [(v.arg('agg.result'), ['str'])])


CONTRACTS = [c_parse(), c_scan('base', BASE, u_base, 'flagVect', base_post), c_scan('tag', TAG, u_tag, 'flagVect', tag_post, more_inv=tag_inv),
             c_scan('input', INP, u_inp, 'flags', input_post, strs=('inputFilename',), more_inv=lambda v: [unchanged(v, 'inputFilename'), ('not given', sval(v, v.arg('inputFilename')) == EMPTY)]),
             c_scan('emit', FEM, u_emit, 'flagVect', emit_post, mods=False),
             Contract(F['target'], None, target_post, lambda v: [(v.arg('agg.result'), ['str'])]), c_out(),
             Contract(F['abs'], None, abs_post, lambda v: [(v.arg('agg.result'), ['str'])]), c_apply()]


def groups(tier):
    return [Group('CommandUtils', [(SRC, ['.'])], CONTRACTS, dict(MODELS))]


def natives(tier):
    return [command('names', 'texts of at most 40 characters, at most 6 flags, paths of at most 3 parts; every emission kind; a stand-in compiler that records its arguments', ['flags=20000'], ['flags=300000'])]


def command(label, bound, quick, thorough):
    return Native(label, ['native/command.cpp', 'src/Compiler/Command.cpp', 'src/Compiler/CommandUtils.cpp', 'src/Compiler/OMCompile.cpp'], bound, cxx=True, workdir=True, quick=quick, thorough=thorough, timeout=600)
