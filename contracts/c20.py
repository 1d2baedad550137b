import os
import z3
import irvc
from irvc import *
from strval import *
import strval
from omt import forall, k_
from suite import Group, Native
PROP = 'C20'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/Compiler/OptionUtils.cpp'
CN = '_ZN9onnx_mlir19EnableByRegexOption'
STRT = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
F = dict(ctor=CN + 'C2Eb' + STRT, set=CN + '14setRegexStringE' + STRT, is_=CN + '9isEnabledERK' + STRT)
EXPLAIN = ('An option is {empty means none, all, none, list of patterns, cache}. Proved for every text: setRegexString gives "all" exactly for an empty text when that means all or when ALL is one of the names, "none" likewise with NONE, and otherwise the list '
           'of the parts of the text, after "." and "*" were turned into the wildcard form unless the text is a regular expression already. Proved for every list, cache and name: isEnabled answers all / none / whether one of the patterns matches the whole name, '
           'and keeps the invariant that every cached answer is that answer, so that a query gives the same result in any history. A monitor compares both with a wildcard matcher of its own, over random patterns, names and query orders.')
ASSUMPTIONS = ['what std::regex_match decides for one pattern and one name is taken from the library (an uninterpreted relation in the proofs; the monitor runs it)', 'the patterns given are well-formed regular expressions (a malformed one throws)', 'the texts given are separate objects from the option']
TRUSTED = ['std::string, std::set<std::string>, std::map<std::string, bool>, std::basic_regex, std::regex_replace of a literal, std::istream_iterator<std::string> as modelled in contracts/strval.py and contracts/c20.py']
SB = z3.ArraySort(S, B)
irvc.KSORT['keys'] = SB
irvc.KSZ['keys'] = 8
AS = z3.ArraySort(I, S)
SETO, MAPO, SIZE = 8, 56, 104
KEY = z3.Function('cache_slot', S, I)
NAME = z3.Function('cache_name', I, S)
RM = z3.Function('regex_matches_whole', S, S, B)
REPLALL = z3.Function('replaced_everywhere', S, S, S, S)
TOKN = z3.Function('parts_count', S, I)
TOKS = z3.Function('parts', S, AS)
MATCHN = z3.Function('matches_one_of_first', AS, I, S, B)
END = LIT('<end>')
HAS = z3.Function('contains', S, S, B)
s_ = z3.Const('s', S)
NODE = 40


def off(p, n):
    return p.addoff(Lin(n))


# ---- models
def keys(eng, st, p):
    o, i = Z(p.obj), Z(eng.div_off(st, p, 8))
    return sel(sel(eng.memk(st, 'keys'), o), i)


def put_keys(eng, st, p, x):
    o, i = Z(p.obj), Z(eng.div_off(st, p, 8))
    eng.record(st, p, 'keys')
    M = eng.memk(st, 'keys')
    st.mem['keys'] = z3.Store(M, o, z3.Store(z3.Select(M, o), i, x))


def key_facts(eng, st, x):
    eng.assume(st, And(KEY(x) >= 0, KEY(x) < (1 << 50), NAME(KEY(x)) == x))


def map_ctor(eng, st, fr, i, a):
    eng.raw_store(st, a[0], 'ptr', eng.alloc(st, 1 << 60))
    put_keys(eng, st, a[0], z3.K(S, z3.BoolVal(False)))


def map_empty(eng, st, fr, i, a):
    return keys(eng, st, a[0]) == z3.K(S, z3.BoolVal(False))


def map_find(eng, st, fr, i, a):
    x = get(eng, st, a[1])
    key_facts(eng, st, x)
    d = eng.raw_load(st, a[0], 'ptr')
    return Ptr(d.obj, Lin.of(z3.If(z3.Select(keys(eng, st, a[0]), x), KEY(x), z3.IntVal(-1)), NODE))


def map_end(eng, st, fr, i, a):
    return Ptr(eng.raw_load(st, a[0], 'ptr').obj, Lin(-NODE))


def map_count(eng, st, fr, i, a):
    x = get(eng, st, a[1])
    return z3.If(z3.Select(keys(eng, st, a[0]), x), z3.IntVal(1), z3.IntVal(0))


def map_index(eng, st, fr, i, a):
    x = get(eng, st, a[1])
    key_facts(eng, st, x)
    K = keys(eng, st, a[0])
    d = eng.raw_load(st, a[0], 'ptr')
    q = Ptr(d.obj, Lin.of(KEY(x), NODE) + Lin(32))
    eng.raw_store(st, q, 'i8', z3.If(z3.Select(K, x), Z(eng.raw_load(st, q, 'i8')), z3.IntVal(0)))
    put_keys(eng, st, a[0], z3.Store(K, x, True))
    return q


def it_value(eng, st, p):
    return eng.raw_load(st, p, 'ptr')


def it_ne(eng, st, fr, i, a):
    return z3.Not(irvc.ptr_eq(it_value(eng, st, a[0]), it_value(eng, st, a[1])))


def it_eq(eng, st, fr, i, a):
    return irvc.ptr_eq(it_value(eng, st, a[0]), it_value(eng, st, a[1]))


def it_deref(eng, st, fr, i, a):
    return it_value(eng, st, a[0])


def it_next(eng, st, fr, i, a):
    eng.raw_store(st, a[0], 'ptr', off(it_value(eng, st, a[0]), ELT))
    return a[0]


def set_ctor(eng, st, fr, i, a):
    strval._new(eng, st, a[0], 0)


def set_range(eng, st, fr, i, a):
    eng.oblige(st, 'call-pre', 'set.to-the-end-of-the-text', get(eng, st, a[2]) == END, i.get('line'))
    t = get(eng, st, a[1])
    eng.assume(st, And(TOKN(t) >= 0, TOKN(t) < (1 << 31)))
    d = strval._new(eng, st, a[0], TOKN(t))
    strval._contents(eng, st, d, TOKS(t))


def set_move(eng, st, fr, i, a):
    v = strval.v_view(eng, st)
    d, n = vdata(v, a[1]), vsize(v, a[1])
    eng.raw_store(st, a[0], 'ptr', d)
    eng.raw_store(st, off(a[0], 8), 'i64', n)
    return a[0]


def re_flags(x):
    if not isint(x) or x & ~6 != 16:
        raise Unsupported('grammar of a regular expression')


def has(eng, st, fr, i, a):
    t = irvc.cstring(eng, a[1])
    if t is None or not isint(a[2]) or a[2] != 0:
        raise Unsupported('find')
    r = fresh('found')
    eng.assume(st, And(r >= -1, r < (1 << 62), (r >= 0) == HAS(get(eng, st, a[0]), slash(t))))
    return r


def re_text(eng, st, fr, i, a):
    re_flags(a[2])
    put(eng, st, a[0], text(eng, a[1]))


def re_string(eng, st, fr, i, a):
    re_flags(a[2])
    put(eng, st, a[0], get(eng, st, a[1]))


def re_match(eng, st, fr, i, a):
    if not isint(a[2]) or a[2] != 0:
        raise Unsupported('flags of regex_match')
    return RM(get(eng, st, a[0]), get(eng, st, a[1]))


def re_replace(eng, st, fr, i, a):
    """replacement of one literal character everywhere"""
    pat, fmt = get(eng, st, a[2]), irvc.cstring(eng, a[3])
    pat = pat.as_string() if z3.is_string_value(pat) else None
    pat = None if pat is None else pat.replace('\\u{5c}', '\\')
    if pat is None or fmt is None or '$' in fmt or not isint(a[4]) or a[4] != 0:
        raise Unsupported('regex_replace')
    if len(pat) == 2 and pat[0] == '\\' and not pat[1].isalnum():
        pat = pat[1]
    elif len(pat) != 1 or pat in '^$\\.*+?()[]{}|':
        raise Unsupported('regex_replace of a pattern')
    put(eng, st, a[0], REPLALL(get(eng, st, a[1]), LIT(pat), slash(fmt)))


def slash(t):
    return LIT(t.replace('\\', '\\u{5c}'))


def is_stream(eng, st, fr, i, a):
    put(eng, st, a[0], get(eng, st, a[1]))


def is_end(eng, st, fr, i, a):
    put(eng, st, a[0], END)


def fail(eng, st, fr, i, a):
    eng.oblige(st, 'assertion', 'holds', z3.BoolVal(False), i.get('line'))
    return False


MP = 'St3mapI%sbSt4lessIS5_ESaISt4pairIKS5_bEEE' % STRN.join(['', 'E'])
ST_ = 'St3setI%sSt4lessIS5_ESaIS5_EE' % STRN.join(['', 'E'])
MIT, SIT = 'St17_Rb_tree_iteratorI*', 'St23_Rb_tree_const_iteratorI*'
RX = 'NSt7__cxx1111basic_regexIcNS_12regex_traitsIcEEE'
RXN = '_ZNSt7__cxx1111basic_regexIcNS_12regex_traitsIcEEE'
II = '_ZNSt16istream_iteratorI%sEcS3_lE' % STRN
SSN = '_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
IT1, IT2 = '_ZNKSt17_Rb_tree_iteratorISt4pairIK%sEbEE' % STRN, '_ZNKSt23_Rb_tree_const_iteratorI%sEE' % STRN
M20 = {
    NK + '4findEPKcm': has,
    '_ZN' + MP + 'C2Ev': map_ctor, '_ZN' + MP + 'C1Ev': map_ctor, '_ZN' + MP + 'D2Ev': nop, '_ZNK' + MP + '5emptyEv': map_empty, '_ZN' + MP + '4findERS9_': map_find, '_ZNK' + MP + '4findERS9_': map_find, '_ZN' + MP + '3endEv': map_end, '_ZNK' + MP + '3endEv': map_end,
    '_ZN' + MP + 'ixERS9_': map_index, '_ZNK' + MP + '5countERS9_': map_count,
    '_ZStneRKSt17_Rb_tree_iteratorI*': it_ne, '_ZStneRKSt23_Rb_tree_const_iteratorI*': it_ne, '_ZSteqRKSt17_Rb_tree_iteratorI*': it_eq, '_ZSteqRKSt23_Rb_tree_const_iteratorI*': it_eq,
    IT1 + 'ptEv': it_deref, IT1 + 'deEv': it_deref, IT2 + 'deEv': it_deref, IT2 + 'ptEv': it_deref, IT2.replace('_ZNK', '_ZN') + 'ppEv': it_next,
    '_ZN' + ST_ + 'C2Ev': set_ctor, '_ZN' + ST_ + 'C1Ev': set_ctor, '_ZN' + ST_ + 'D2Ev': nop, '_ZN' + ST_ + 'C2ISt16istream_iteratorIS5_cS3_lEEET_SD_': set_range, '_ZN' + ST_ + 'aSEOS9_': set_move,
    '_ZNK' + ST_ + '5beginEv': strval.v_begin, '_ZNK' + ST_ + '3endEv': strval.v_end, '_ZN' + ST_ + '5clearEv': strval.v_clear, '_ZNK' + ST_ + '4sizeEv': strval.v_size, '_ZNK' + ST_ + '5emptyEv': strval.v_empty,
    RXN + 'C2EPKcNSt15regex_constants18syntax_option_typeE': re_text, RXN + 'D2Ev': nop, RXN + 'C2ISt11char_traitsIcESaIcEEERKNS_12basic_string*': re_string,
    '_ZSt11regex_matchISt11char_traitsIcESaIcEcNSt7__cxx1112regex_traitsIcEEEbRK*': re_match, '_ZSt13regex_replaceI*': re_replace,
    '_ZStorSt13_Ios_OpenmodeS_': lambda eng, st, fr, i, a: fresh('mode'), SSN + 'C1ERKNS_12basic_string*': is_stream, SSN + 'D1Ev': nop, SSN + 'C1E*': is_stream,
    II + 'C2ERSi': is_stream, II + 'C2Ev': is_end, II + 'C2ERKS6_': c_copy, II + 'D2Ev': nop, '__assert_fail': fail,
}
ALL = {**MODELS, **M20}


# ---- the option
def T(v):
    p = off(v.arg('this'), SETO)
    return velems(v, p), vsize(v, p)


def cache(v):
    p = off(v.arg('this'), MAPO)
    return keys(v.eng, v.st, p), v.fld(p, 0, 'ptr')


def flag(v, n):
    return Z(v.fld(v.arg('this'), n, 'i8')) != 0


def m_facts(A, k, s):
    return [z3.Not(MATCHN(A, 0, s)), MATCHN(A, k + 1, s) == z3.Or(MATCHN(A, k, s), RM(s, A[k]))]


def obj_ok(v, *strs, flags=(0, 1, 2)):
    t = v.arg('this')
    d, c = vdata(v, off(t, SETO)), cache(v)[1]
    bits = [And(Z(v.fld(t, n, 'i8')) >= 0, Z(v.fld(t, n, 'i8')) <= 1) for n in flags]
    return [Z(t.obj) > 0, v.valid(t, SIZE), vok(v, off(t, SETO)), Z(d.obj) != Z(t.obj), Z(c.obj) > 0, Z(c.obj) < Z(v.st.next), Z(c.off.expr()) == 0, Z(c.obj) != Z(t.obj), Z(c.obj) != Z(d.obj), v.alive(c), v.valid(c, 1 << 60)] + bits + \
        [And(Z(v.arg(x).obj) != Z(o.obj)) for x in strs for o in (t, d, c)]


def answers(v, A, n):
    K, c = cache(v)
    val = z3.Select(z3.Select(v.eng.memk(v.st, 'i8'), Z(c.obj)), KEY(s_) * NODE + 32)
    return z3.ForAll([s_], z3.Implies(z3.Select(K, s_), And(val >= 0, val <= 1, (val == 1) == MATCHN(A, n, s_))), patterns=[z3.Select(K, s_)])


def c_is():
    def pre(v):
        return obj_ok(v, 'name') + [answers(v, *T(v))]

    def it(v):
        p = v.fld(v.var('itr'), 0, 'ptr')
        return p, Z(v.eng.div_off(v.st, p, ELT))

    def inv(v):
        A, n = T(v.old)
        p, i = it(v)
        x = sval(v.old, v.old.arg('name'))
        return [('range', And(i >= 0, i <= n)), ('none so far', z3.Not(MATCHN(A, i, x))), ('name kept', sval(v, v.arg('name')) == x), ('cached answers', answers(v, A, n)), ('cache block', irvc.ptr_eq(cache(v)[1], cache(v.old)[1]))]

    def lem(v):
        A, n = T(v.old)
        x = sval(v.old, v.old.arg('name'))
        return m_facts(A, it(v)[1], x) + [z3.ForAll([k_], z3.Implies(And(k_ >= 0, k_ < n, RM(x, A[k_])), MATCHN(A, n, x)), patterns=[RM(x, A[k_])])]

    def post(v):
        A, n = T(v.old)
        x = sval(v.old, v.old.arg('name'))
        r = Z(v.ret)
        r = r if z3.is_bool(r) else r != 0
        return [('the answer of the patterns', r == z3.Or(flag(v.old, 1), And(z3.Not(flag(v.old, 2)), MATCHN(A, n, x)))), ('every cached answer is that of the patterns', answers(v, A, n)), ('the patterns are kept', And(T(v)[0] == A, T(v)[1] == n))]

    def mods(v):
        return [(off(v.arg('this'), MAPO), ['keys']), (cache(v)[1], ['i8'])]
    return Contract(F['is_'], pre, post, mods, loops={'count': 1, 0: Loop(inv, lambda v: T(v.old)[1] - it(v)[1], lem, shape=lambda v: [(v.var('itr'), vdata(v.old, off(v.old.arg('this'), SETO)), ELT)])},
                    setup=lambda v: v.eng.assume(v.st, z3.ForAll([s_], And(KEY(s_) >= 0, KEY(s_) < (1 << 50), NAME(KEY(s_)) == s_), patterns=[KEY(s_)])), allocs=True)


REGEX = ('.*', '\\.', '^', '$', '[', '+', '?')


def spec_set(empty_none, t):
    """(all, none, text whose parts are the patterns)"""
    sp = REPLALL(t, LIT(','), LIT(' '))
    names = z3.Concat(LIT(' '), sp, LIT(' '))
    none = z3.If(t == EMPTY, empty_none, HAS(names, LIT(' NONE ')))
    all_ = z3.If(t == EMPTY, z3.Not(empty_none), HAS(names, LIT(' ALL ')))
    isre = z3.Or(*[HAS(sp, slash(x)) for x in REGEX])
    return all_, none, z3.If(isre, sp, REPLALL(REPLALL(sp, LIT('.'), slash('\\.')), LIT('*'), LIT('.*')))


def set_post(v):
    t = sval(v.old, v.old.arg('regexString'))
    all_, none, parts = spec_set(flag(v.old, 0), t)
    A, n = T(v)
    c = cache(v)
    return [('all', flag(v, 1) == all_), ('none', flag(v, 2) == none), ('the patterns are the parts of the text', z3.Implies(z3.Not(z3.Or(all_, none)), And(n == TOKN(parts), A == TOKS(parts)))),
            ('an empty text keeps its meaning', Z(v.fld(v.arg('this'), 0, 'i8')) == Z(v.old.fld(v.arg('this'), 0, 'i8'))), ('nothing is cached', c[0] == z3.K(S, z3.BoolVal(False)))]


def c_set():
    def pre(v):
        t = sval(v, v.arg('regexString'))
        all_, none, parts = spec_set(flag(v, 0), t)
        return obj_ok(v, 'regexString', flags=(0,)) + [cache(v)[0] == z3.K(S, z3.BoolVal(False)), z3.Not(And(all_, none))]
    return Contract(F['set'], pre, set_post, lambda v: [(v.arg('this'), ['i8', 'po', 'px', 'i64']), (v.arg('regexString'), ['str'])], allocs=True)


def c_ctor():
    def en(v):
        e = Z(v.arg('emptyIsNone'))
        return e if z3.is_bool(e) else e != 0

    def pre(v):
        t, x = v.arg('this'), v.arg('regexString')
        all_, none, parts = spec_set(en(v), sval(v, x))
        return [Z(t.obj) > 0, v.valid(t, SIZE), Z(x.obj) != Z(t.obj), z3.Not(And(all_, none))]

    def post(v):
        all_, none, parts = spec_set(en(v), sval(v.old, v.old.arg('regexString')))
        A, n = T(v)
        return [('all', flag(v, 1) == all_), ('none', flag(v, 2) == none), ('the patterns are the parts of the text', z3.Implies(z3.Not(z3.Or(all_, none)), And(n == TOKN(parts), A == TOKS(parts)))),
                ('nothing is cached', cache(v)[0] == z3.K(S, z3.BoolVal(False)))]
    return Contract(F['ctor'], pre, post, lambda v: [v.arg('this'), (v.arg('regexString'), ['str'])], allocs=True)


CONTRACTS = [c_set(), c_is(), c_ctor()]


def groups(tier):
    return [Group('OptionUtils', [(SRC, ['.'])], CONTRACTS, dict(ALL), flags=['-fexceptions'])]


def natives(tier):
    return [Native('options', ['native/options.cpp', 'src/Compiler/OptionUtils.cpp'], 'at most 5 parts of at most 16 characters; at most 200 queries of one option; regular expressions of sets, ".", "*", "+", "?"', cxx=True,
                   flags=['-I/usr/lib/llvm-20/include'], libs=['-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-Wl,-rpath,/usr/lib/llvm-20/lib'], quick=['options=1200'], thorough=['options=20000'], parts=8, timeout=600)]
