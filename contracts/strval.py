"""Trusted value models of std::string, std::vector<std::string> and std::filesystem::path (libstdc++).
A string (or path) object holds its text as one value of the theory of strings, in a memory kind of its own ('str', one
cell per 32 bytes of address).  A vector of strings is {block of its elements @0, count @8}; its elements are 32 bytes
apart in a block of their own.  Path operations are uninterpreted functions of the texts."""
import z3
import irvc
from irvc import *
S = z3.StringSort()
irvc.KSORT['str'] = S
irvc.KSZ['str'] = 32
NPOS = -1
ELT = 32
EMPTY = z3.StringVal('')
LIT = z3.StringVal
STRN = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
NS, NK = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE', '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
VN = 'St6vectorI%sESaIS5_EE' % STRN
VS, VK = '_ZN' + VN, '_ZNK' + VN
FS = 'St10filesystem7__cxx114path'
LAST = z3.Function('last_index_of', S, S, I)        # position of the last occurrence of a character, -1 when there is none
PARENT, FNAME, STEM = (z3.Function('path_' + n, S, S) for n in ('parent', 'filename', 'stem'))
JOIN = z3.Function('path_join', S, S, S)
REPL = z3.Function('path_replace_extension', S, S, S)
ISREL = z3.Function('path_is_relative', S, B)
CWD = z3.Const('current_path', S)
EXIST = z3.Function('path_exists', S, B)


def cell(eng, st, p):
    c = p.off.const()
    if c is not None:           # strings do not overlap: two of them are never in the same 32 bytes from their starts
        return Z(p.obj), Z(c // 32)
    return Z(p.obj), Z(eng.div_off(st, p, 32))


def get(eng, st, p):
    o, i = cell(eng, st, p)
    return sel(sel(eng.memk(st, 'str'), o), i)


def sel(A, i):
    """A[i], looking through stores at other (constant) positions"""
    while z3.is_store(A):
        if A.arg(1).eq(i):
            return A.arg(2)
        if not (z3.is_int_value(A.arg(1)) and z3.is_int_value(i)):
            break
        A = A.arg(0)
    return z3.Select(A, i)


def put(eng, st, p, x):
    o, i = cell(eng, st, p)
    eng.record(st, p, 'str')
    M = eng.memk(st, 'str')
    st.mem['str'] = z3.Store(M, o, z3.Store(z3.Select(M, o), i, x))


def sval(v, p):
    """the text of the string at p, in a view"""
    return get(v.eng, v.st, p)


def vsize(v, p):
    return Z(v.fld(p, 8, 'i64'))


def vdata(v, p):
    return v.fld(p, 0, 'ptr')


def velems(v, p):
    """content array of the strings of the vector at p: element i is velems(..)[i]"""
    d = vdata(v, p)
    return sel(v.eng.memk(v.st, 'str'), Z(d.obj))


def at(v, p, i):
    return velems(v, p)[i]


def vok(v, p, before=None):
    d = vdata(v, p)
    n = vsize(v, p)
    return And(Z(d.obj) > 0, Z(d.obj) < (Z(v.st.next) if before is None else before), Z(d.off.expr()) == 0, n >= 0, n < (1 << 31), v.alive(d), v.valid(p, 24))


def text(eng, p):
    t = irvc.cstring(eng, p)
    if t is None:
        raise Unsupported('text of a C string that is not a constant')
    return LIT(t)


def code(c):
    """character of a signed i8 value"""
    c = Z(c)
    return z3.StrFromCode(z3.If(c < 0, c + 256, c))


def charval(eng, st, s, i):
    """signed i8 value of character i of s (which must be there)"""
    k = z3.StrToCode(z3.SubString(s, i, 1))
    eng.assume(st, And(k >= 0, k < 256))
    return z3.If(k >= 128, k - 256, k)


def nop(eng, st, fr, i, a):
    return None


def pos(x):
    """an unsigned 64-bit position; npos (-1) is beyond every string"""
    return Z(x)


# ---- std::string
def c_empty(eng, st, fr, i, a):
    put(eng, st, a[0], EMPTY)


def c_copy(eng, st, fr, i, a):
    put(eng, st, a[0], get(eng, st, a[1]))


def c_move(eng, st, fr, i, a):
    x = get(eng, st, a[1])
    put(eng, st, a[1], fresh('moved', S))
    put(eng, st, a[0], x)


def c_text(eng, st, fr, i, a):
    put(eng, st, a[0], text(eng, a[1]))


def a_text(eng, st, fr, i, a):
    put(eng, st, a[0], text(eng, a[1]))
    return a[0]


def a_copy(eng, st, fr, i, a):
    put(eng, st, a[0], get(eng, st, a[1]))
    return a[0]


def a_move(eng, st, fr, i, a):
    c_move(eng, st, fr, i, a)
    return a[0]


def app_char(eng, st, fr, i, a):
    put(eng, st, a[0], z3.Concat(get(eng, st, a[0]), code(a[1])))
    return a[0]


def app_str(eng, st, fr, i, a):
    put(eng, st, a[0], z3.Concat(get(eng, st, a[0]), get(eng, st, a[1])))
    return a[0]


def app_text(eng, st, fr, i, a):
    put(eng, st, a[0], z3.Concat(get(eng, st, a[0]), text(eng, a[1])))
    return a[0]


def m_clear(eng, st, fr, i, a):
    put(eng, st, a[0], EMPTY)


def m_empty(eng, st, fr, i, a):
    return get(eng, st, a[0]) == EMPTY


def m_len(eng, st, fr, i, a):
    n = z3.Length(get(eng, st, a[0]))
    eng.assume(st, n < (1 << 62))
    return n


def temp_char(eng, st, v):
    o = -1000000 - next(eng.stackid)
    st.size = z3.Store(st.size, Z(o), Z(1))
    st.alive = z3.Store(st.alive, Z(o), True)
    st.priv[o] = {}
    p = Ptr(o, 0)
    eng.raw_store(st, p, 'i8', v)
    return p


def m_at(eng, st, fr, i, a):
    """reading access to a character; position length() reads as 0"""
    s, k = get(eng, st, a[0]), Z(a[1])
    eng.oblige(st, 'call-pre', 'operator[].in-range', And(k >= 0, k <= z3.Length(s)), i.get('line'))
    c = z3.StrToCode(z3.SubString(s, k, 1))
    eng.assume(st, And(c >= -1, c < 256, z3.Implies(k < z3.Length(s), c >= 0)))
    return temp_char(eng, st, z3.If(k >= z3.Length(s), z3.IntVal(0), z3.If(c >= 128, c - 256, c)))


def m_end(last):
    def f(eng, st, fr, i, a):
        s = get(eng, st, a[0])
        eng.oblige(st, 'call-pre', 'front/back.not-empty', z3.Length(s) > 0, i.get('line'))
        return temp_char(eng, st, charval(eng, st, s, z3.Length(s) - 1 if last else z3.IntVal(0)))
    return f


def m_substr(eng, st, fr, i, a):
    r, s, p, n = a[0], get(eng, st, a[1]), Z(a[2]), Z(a[3])
    L = z3.Length(s)
    eng.oblige(st, 'call-pre', 'substr.position-in-string', And(p >= 0, p <= L), i.get('line'))
    put(eng, st, r, z3.SubString(s, p, z3.If(Or(n < 0, n > L - p), L - p, n)))


def m_substr0(eng, st, fr, i, a):
    return m_substr(eng, st, fr, i, list(a) + [NPOS])


def Or(*x):
    return z3.Or(*x)


def find_at(s, t, p, eng=None, st=None):
    if eng is not None and (isint(p) and p == 0 or z3.is_int_value(p) and p.as_long() == 0):
        r = z3.IndexOf(s, t, 0)
        eng.assume(st, And((r == 0) == z3.PrefixOf(t, s), r >= -1, r <= z3.Length(s)))
        return r
    return z3.If(Or(p < 0, p > z3.Length(s)), z3.IntVal(-1), z3.IndexOf(s, t, p))


def m_find(eng, st, fr, i, a):
    return find_at(get(eng, st, a[0]), text(eng, a[1]), Z(a[2]), eng, st)


def m_find_n(eng, st, fr, i, a):
    t, n = irvc.cstring(eng, a[1]), a[3]
    if t is None or not isint(n) or n > len(t):
        raise Unsupported('find of a text of unknown length')
    return find_at(get(eng, st, a[0]), LIT(t[:n]), Z(a[2]), eng, st)


def m_find_str(eng, st, fr, i, a):
    return find_at(get(eng, st, a[0]), get(eng, st, a[1]), Z(a[2]), eng, st)


def m_find_char(eng, st, fr, i, a):
    return find_at(get(eng, st, a[0]), code(a[1]), Z(a[2]), eng, st)


def m_rfind(eng, st, fr, i, a):
    """only as a prefix test: rfind(t, 0)"""
    t = irvc.cstring(eng, a[1])
    if t is not None and isint(a[2]) and a[2] == 0:
        return z3.If(z3.PrefixOf(LIT(t), get(eng, st, a[0])), z3.IntVal(0), z3.IntVal(-1))
    if t is not None and len(t) == 1 and isint(a[2]) and a[2] == NPOS:
        return last(eng, st, get(eng, st, a[0]), LIT(t))
    raise Unsupported('rfind')


def last_axioms(s, t):
    r = LAST(s, t)
    return [r >= -1, r < z3.Length(s), z3.Implies(r < 0, z3.Not(z3.Contains(s, t))),
            z3.Implies(r >= 0, And(z3.SubString(s, r, 1) == t, z3.Not(z3.Contains(z3.SubString(s, r + 1, z3.Length(s)), t))))]


def last(eng, st, s, t):
    for f in last_axioms(s, t):
        eng.assume(st, f)
    return LAST(s, t)


def m_find_last_of(eng, st, fr, i, a):
    t = irvc.cstring(eng, a[1])
    if t is None or len(t) != 1 or not (isint(a[2]) and a[2] == NPOS):
        raise Unsupported('find_last_of')
    return last(eng, st, get(eng, st, a[0]), LIT(t))


def m_find_last_char(eng, st, fr, i, a):
    if not (isint(a[2]) and a[2] == NPOS):
        raise Unsupported('find_last_of')
    return last(eng, st, get(eng, st, a[0]), code(a[1]))


def m_compare(eng, st, fr, i, a):
    return zero_iff(eng, st, get(eng, st, a[0]) == text(eng, a[1]))


def m_compare_str(eng, st, fr, i, a):
    return zero_iff(eng, st, get(eng, st, a[0]) == get(eng, st, a[1]))


def zero_iff(eng, st, c):
    r = fresh('cmp')
    eng.assume(st, And((r == 0) == c, r >= -(1 << 31), r < (1 << 31)))
    return r


def m_compare_part(eng, st, fr, i, a):
    s, p, n = get(eng, st, a[0]), Z(a[1]), Z(a[2])
    L = z3.Length(s)
    eng.oblige(st, 'call-pre', 'compare.position-in-string', And(p >= 0, p <= L), i.get('line'))
    return zero_iff(eng, st, z3.SubString(s, p, z3.If(Or(n < 0, n > L - p), L - p, n)) == text(eng, a[3]))


def eq(eng, st, fr, i, a):
    name = i.get('callee')
    return get(eng, st, a[0]) == (text(eng, a[1]) if name.endswith('PKS5_') else get(eng, st, a[1]))


def ne(eng, st, fr, i, a):
    return z3.Not(eq(eng, st, fr, i, a))


def plus(eng, st, fr, i, a):
    """std::operator+, whose operands are told apart by the mangled parameter list"""
    codes = []
    tail = i.get('callee').split('T0_T1_E', 1)[1]
    tail = tail.lstrip('E')
    while tail:
        for c, k in (('PKS5_', 't'), ('RKS8_', 's'), ('OS8_', 's'), ('S5_', 'c'), ('S9_', 'same'), ('SA_', 'same')):
            if tail.startswith(c):
                codes.append(codes[-1] if k == 'same' else k)
                tail = tail[len(c):]
                break
        else:
            raise Unsupported('operator+ ' + tail)
    vals = [text(eng, p) if k == 't' else code(p) if k == 'c' else get(eng, st, p) for k, p in zip(codes, a[1:])]
    put(eng, st, a[0], z3.Concat(*vals))


# ---- std::vector<std::string>
def _new(eng, st, p, n):
    d = eng.alloc(st, 1 << 60)
    eng.raw_store(st, p, 'ptr', d)
    eng.raw_store(st, p.addoff(Lin(8)), 'i64', n)
    return d


def v_ctor(eng, st, fr, i, a):
    _new(eng, st, a[0], 0)


def v_view(eng, st):
    return View(eng, st, None, {})


def _contents(eng, st, d, X):
    eng.record(st, d, 'str')
    st.mem['str'] = z3.Store(eng.memk(st, 'str'), Z(d.obj), X)


def v_copy(eng, st, fr, i, a):
    v = v_view(eng, st)
    n, X = vsize(v, a[1]), velems(v, a[1])
    d = _new(eng, st, a[0], n)
    _contents(eng, st, d, X)


def v_size(eng, st, fr, i, a):
    n = vsize(v_view(eng, st), a[0])
    eng.assume(st, n < (1 << 31))
    return n


def v_empty(eng, st, fr, i, a):
    return vsize(v_view(eng, st), a[0]) == 0


def v_at(eng, st, fr, i, a):
    v = v_view(eng, st)
    d, n, k = vdata(v, a[0]), vsize(v, a[0]), Z(a[1])
    eng.oblige(st, 'call-pre', 'vector.index-in-range', And(k >= 0, k < n), i.get('line'))
    return Ptr(d.obj, Lin.of(k, ELT))


def v_back(eng, st, fr, i, a):
    v = v_view(eng, st)
    d, n = vdata(v, a[0]), vsize(v, a[0])
    eng.oblige(st, 'call-pre', 'vector.back.not-empty', n > 0, i.get('line'))
    return Ptr(d.obj, Lin.of(n - 1, ELT))


def v_front(eng, st, fr, i, a):
    v = v_view(eng, st)
    eng.oblige(st, 'call-pre', 'vector.front.not-empty', vsize(v, a[0]) > 0, i.get('line'))
    return Ptr(vdata(v, a[0]).obj, 0)


def v_begin(eng, st, fr, i, a):
    return Ptr(vdata(v_view(eng, st), a[0]).obj, 0)


def v_end(eng, st, fr, i, a):
    v = v_view(eng, st)
    return Ptr(vdata(v, a[0]).obj, Lin.of(vsize(v, a[0]), ELT))


def v_push(eng, st, fr, i, a):
    v = v_view(eng, st)
    d, n, x = vdata(v, a[0]), vsize(v, a[0]), get(eng, st, a[1])
    _contents(eng, st, d, z3.Store(velems(v, a[0]), n, x))
    eng.raw_store(st, a[0].addoff(Lin(8)), 'i64', n + 1)
    return Ptr(d.obj, Lin.of(n, ELT)) if i['ty'] != 'void' else None


def v_emplace_text(eng, st, fr, i, a):
    v = v_view(eng, st)
    d, n = vdata(v, a[0]), vsize(v, a[0])
    _contents(eng, st, d, z3.Store(velems(v, a[0]), n, text(eng, a[1])))
    eng.raw_store(st, a[0].addoff(Lin(8)), 'i64', n + 1)
    return Ptr(d.obj, Lin.of(n, ELT)) if i['ty'] != 'void' else None


def v_clear(eng, st, fr, i, a):
    eng.raw_store(st, a[0].addoff(Lin(8)), 'i64', 0)


# ---- std::filesystem::path
def p_fun(f):
    def m(eng, st, fr, i, a):
        put(eng, st, a[0], f(get(eng, st, a[1])))
    return m


def p_join(eng, st, fr, i, a):
    put(eng, st, a[0], JOIN(get(eng, st, a[1]), get(eng, st, a[2])))


def p_joineq(eng, st, fr, i, a):
    put(eng, st, a[0], JOIN(get(eng, st, a[0]), get(eng, st, a[1])))
    return a[0]


def p_isrel(eng, st, fr, i, a):
    return ISREL(get(eng, st, a[0]))


def p_isabs(eng, st, fr, i, a):
    return z3.Not(ISREL(get(eng, st, a[0])))


def p_cwd(eng, st, fr, i, a):
    put(eng, st, a[0], CWD)


def p_repl(eng, st, fr, i, a):
    put(eng, st, a[0], REPL(get(eng, st, a[0]), get(eng, st, a[1])))
    return a[0]


def p_str(eng, st, fr, i, a):
    put(eng, st, a[0], get(eng, st, a[1]))


def isspace_of(c):
    return Or(And(c >= 9, c <= 13), c == 32)


def b_isspace(eng, st, fr, i, a):
    r = fresh('isspace')
    eng.assume(st, (r != 0) == isspace_of(Z(a[0])))
    return r


STRING = {
    NS + 'C1Ev': c_empty, NS + 'C2Ev': c_empty, NS + 'C1ERKS4_': c_copy, NS + 'C2ERKS4_': c_copy, NS + 'C1EOS4_': c_move, NS + 'C2EOS4_': c_move,
    NS + 'C2IS3_EEPKcRKS3_': c_text, NS + 'C1IS3_EEPKcRKS3_': c_text, NS + 'D1Ev': nop, NS + 'D2Ev': nop,
    NS + 'aSEOS4_': a_move, NS + 'aSERKS4_': a_copy, NS + 'aSEPKc': a_text, NS + 'pLEc': app_char, NS + 'pLERKS4_': app_str, NS + 'pLEPKc': app_text,
    NS + '6appendERKS4_': app_str, NS + '6appendEPKc': app_text, NS + '9push_backEc': app_char, NS + '5clearEv': m_clear, NS + '6assignERKS4_': a_copy,
    NK + '5emptyEv': m_empty, NK + '6lengthEv': m_len, NK + '4sizeEv': m_len, NK + 'ixEm': m_at, NK + '2atEm': m_at, NK + '4backEv': m_end(True), NK + '5frontEv': m_end(False),
    NK + '6substrEmm': m_substr, NK + '4findEPKcm': m_find, NK + '4findEPKcmm': m_find_n, NK + '4findERKS4_m': m_find_str, NK + '4findEcm': m_find_char,
    NK + '5rfindEPKcm': m_rfind, NK + '12find_last_ofEPKcm': m_find_last_of, NK + '12find_last_ofEcm': m_find_last_char, NK + '5rfindEcm': m_find_last_char,
    NK + '7compareEPKc': m_compare, NK + '7compareERKS4_': m_compare_str, NK + '7compareEmmPKc': m_compare_part,
    '_ZSteqIc*': eq, '_ZStneIc*': ne, '_ZStplIcSt11char_traitsIcESaIcEE*': plus, 'isspace': b_isspace, 'fprintf': nop, 'printf': nop,
}
VECTOR = {
    VS + 'C2Ev': v_ctor, VS + 'C1Ev': v_ctor, VS + 'C2ERKS7_': v_copy, VS + 'C1ERKS7_': v_copy, VS + 'D2Ev': nop, VS + 'D1Ev': nop, VK + '4sizeEv': v_size, VK + '5emptyEv': v_empty,
    VK + 'ixEm': v_at, VS + 'ixEm': v_at, VS + '4backEv': v_back, VK + '4backEv': v_back, VS + '5frontEv': v_front, VK + '5frontEv': v_front,
    VS + '9push_backEOS5_': v_push, VS + '9push_backERKS5_': v_push, VS + '12emplace_backIJRS5_EEERS5_DpOT_': v_push, VS + '12emplace_backIJRKS5_EEERS5_DpOT_': v_push, VS + '12emplace_backIJS5_EEERS5_DpOT_': v_push,
    VS + '12emplace_backIJRA*': v_emplace_text, VS + '5clearEv': v_clear, VS + '7reserveEm': nop,
    VS + '5beginEv': v_begin, VS + '3endEv': v_end, VK + '5beginEv': v_begin, VK + '3endEv': v_end,
}
PATH = {
    '_ZN' + FS + 'C2I' + STRN + 'ES1_EERKT_NS1_6formatE': c_copy, '_ZN' + FS + 'C2EONSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS1_6formatE': c_copy,
    '_ZN' + FS + 'C2ERKS1_': c_copy, '_ZN' + FS + 'C2Ev': c_empty, '_ZN' + FS + 'D2Ev': nop, '_ZN' + FS + 'D1Ev': nop, '_ZN' + FS + 'aSERKS1_': a_copy, '_ZN' + FS + 'aSEOS1_': a_copy,
    '_ZNK' + FS + '11parent_pathEv': p_fun(PARENT), '_ZNK' + FS + '8filenameEv': p_fun(FNAME), '_ZNK' + FS + '4stemEv': p_fun(STEM), '_ZNK' + FS + '6stringEv': p_str,
    '_ZNK' + FS + '5emptyEv': m_empty, '_ZNSt10filesystem7__cxx11dvERKNS0_4pathES3_': p_join, '_ZN' + FS + 'dVERKS1_': p_joineq,
    '_ZNK' + FS + '11is_relativeEv': p_isrel, '_ZNK' + FS + '11is_absoluteEv': p_isabs, '_ZNSt10filesystem12current_pathB5cxx11Ev': p_cwd,
    '_ZN' + FS + '17replace_extensionERKS1_': p_repl,
}
MODELS = {**STRING, **VECTOR, **PATH}
