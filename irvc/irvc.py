"""irvc - a contract-based deductive verifier for LLVM IR.

Input: the JSON emitted by irdump (mechanical dump of the -O0 IR clang makes of
/repo's current sources).  For each function under contract irvc performs a
forward symbolic execution in which
  * loops are cut at their header: invariant established / preserved, the
    header state is havocked (write set inferred by a fixpoint dry run),
  * calls to functions under contract use only the contract,
  * calls to other functions with a body are inlined (mechanically),
and emits one obligation per assertion / postcondition / invariant / bounds
check / frame condition.  Obligations are discharged by z3 (cvc5 as second
back end).  Nothing is bounded; integers are exact: every signed overflow (nsw)
is an obligation, every unsigned operation wraps.
"""
import json, sys, os, copy, itertools, time
import z3
z3.set_param('lp.dio', False)
sys.setrecursionlimit(20000)

I = z3.IntSort()
B = z3.BoolSort()
F32 = z3.Float32(); F64 = z3.Float64(); F16 = z3.Float16()
ISZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}
KSZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'f16': 2, 'po': 8, 'px': 8}
KSORT = {'i8': I, 'i16': I, 'i32': I, 'i64': I, 'f32': F32, 'f64': F64, 'f16': F16, 'po': I, 'px': I}
FKIND = {'float': 'f32', 'double': 'f64', 'half': 'f16'}
F80 = z3.FPSort(15, 64)     # the 80-bit format has 64 significant bits, the first of them explicit
FSORT = {'float': F32, 'double': F64, 'half': F16, 'x86_fp80': F80}
REAL = z3.RealSort()
RMUL, RDIV = z3.Function('RMUL', REAL, REAL, REAL), z3.Function('RDIV', REAL, REAL, REAL)


def real_mode(on):
    """option fp='real': floating-point values are exact real numbers (an idealisation, reported as an assumption)"""
    for k, t, s in (('f32', 'float', F32), ('f64', 'double', F64), ('f16', 'half', F16)):
        KSORT[k] = FSORT[t] = REAL if on else s
    FSORT['x86_fp80'] = REAL if on else F80


def fzero(s):
    return z3.RealVal(0) if s == REAL else z3.FPVal(0.0, s)


def rfloor(x):
    return z3.ToInt(x)


class Unsupported(Exception):
    pass


_fresh = itertools.count()


def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def Z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def cst(x):
    """python constant of x or None"""
    if isinstance(x, (int, bool)):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


def add(a, b):
    if isint(a) and isint(b):
        return a + b
    if isint(a) and a == 0:
        return b
    if isint(b) and b == 0:
        return a
    return norm(Z(a) + Z(b))


def sub(a, b):
    if isint(a) and isint(b):
        return a - b
    if isint(b) and b == 0:
        return a
    return norm(Z(a) - Z(b))


def mul(a, b):
    if isint(a) and isint(b):
        return a * b
    if isint(a) and a == 1:
        return b
    if isint(b) and b == 1:
        return a
    return norm(Z(a) * Z(b))


def norm(e):
    if isint(e) or isinstance(e, bool):
        return e
    s = z3.simplify(e)
    c = cst(s)
    if c is not None:
        return c
    return s


def And(*xs):
    xs = [Z(x) for x in xs]
    return z3.And(*xs) if len(xs) != 1 else xs[0]


class Lin:
    """linear form: const + sum coef*term, for byte offsets"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}

    @staticmethod
    def of(x, coef=1):
        if isint(x):
            return Lin(x * coef)
        c = cst(x)
        if c is not None:
            return Lin(c * coef)
        r = Lin()
        r._acc(x, coef)
        return r

    def _acc(self, x, coef):
        c = cst(x)
        if c is not None:
            self.c += c * coef
            return
        if z3.is_add(x):
            for k in x.children():
                self._acc(k, coef)
            return
        if z3.is_sub(x):
            ch = x.children()
            self._acc(ch[0], coef)
            for k in ch[1:]:
                self._acc(k, -coef)
            return
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            self._acc(x.children()[0], -coef)
            return
        if z3.is_mul(x):
            ch = x.children()
            if len(ch) == 2 and z3.is_int_value(ch[0]):
                self._acc(ch[1], coef * ch[0].as_long())
                return
            if len(ch) > 2 and z3.is_int_value(ch[0]):
                self._acc(z3.Product(ch[1:]), coef * ch[0].as_long())
                return
        k = x.get_id()
        old = self.t.get(k)
        n = (old[1] if old else 0) + coef
        if n == 0:
            self.t.pop(k, None)
        else:
            self.t[k] = (x, n)

    def __add__(self, o):
        r = Lin(self.c + o.c, dict(self.t))
        for k, (x, c) in o.t.items():
            old = r.t.get(k)
            n = (old[1] if old else 0) + c
            if n == 0:
                r.t.pop(k, None)
            else:
                r.t[k] = (x, n)
        return r

    def scale(self, s):
        return Lin(self.c * s, {k: (x, c * s) for k, (x, c) in self.t.items()})

    def div(self, s):
        if self.c % s or any(c % s for (_, c) in self.t.values()):
            return None
        return Lin(self.c // s, {k: (x, c // s) for k, (x, c) in self.t.items()}).expr()

    def const(self):
        return self.c if not self.t else None

    def expr(self):
        if not self.t:
            return self.c
        # keep a canonical term order: variables then constant, simplified
        e = None
        for (x, c) in self.t.values():
            y = x if c == 1 else x * c
            e = y if e is None else e + y
        if self.c:
            e = e + self.c
        return norm(e)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj if isint(obj) else norm(obj)
        self.off = off if isinstance(off, Lin) else Lin.of(off)

    def addoff(self, l):
        return Ptr(self.obj, self.off + l)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off.expr())


NULL = Ptr(0, 0)


class Agg:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = list(e)

    def __repr__(self):
        return 'Agg%r' % (self.e,)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def width(t):
    return int(t[1:])


def signed_range(v, w):
    return And(Z(v) >= -(1 << (w - 1)), Z(v) < (1 << (w - 1)))


def rename_json(j, m):
    if isinstance(j, dict):
        return {m.get(k, k): rename_json(v, m) for k, v in j.items()}
    if isinstance(j, list):
        return [rename_json(x, m) for x in j]
    if isinstance(j, str):
        return m.get(j, j)
    return j


def ret_start(eng, st, amap):
    """a returned pointer that is null or the start of a block"""
    o = fresh('ret_o')
    eng.assume(st, o < Z(st.next))
    return Ptr(o, 0)


class Module:
    def __init__(self, jsons):
        self.fns = {}
        self.globals = {}
        self.decls = {}
        for n, j in enumerate(jsons):
            if n:
                # private constants of different units may share a name
                clash = {k: '%s@%d' % (k, n) for k in j['globals'] if k in self.globals and k.startswith(('.', '__const', '__PRETTY', '__func__', 'switch.'))}
                if clash:
                    j = rename_json(j, clash)
            for k, v in j['functions'].items():
                self.fns.setdefault(k, v)
            for k, v in j['globals'].items():
                if k not in self.globals or ('init' not in self.globals[k] and 'init' in v):
                    self.globals[k] = v
            self.decls.update(j['decls'])
        self.gid = {}
        for n in sorted(set(list(self.globals) + list(self.fns) + list(self.decls))):
            self.gid[n] = -(len(self.gid) + 10)
        self.byid = {v: k for k, v in self.gid.items()}
        for f in self.fns.values():
            self._prep(f)

    def _prep(self, f):
        f['dname'] = f['dname'].replace('(anonymous namespace)::', '')
        f['bmap'] = {b['id']: b for b in f['blocks']}
        f['loops'].sort(key=lambda l: (l['line'], l['depth']))
        f['hdr'] = {}
        for n, l in enumerate(f['loops']):
            l['n'] = n
            l['bset'] = set(l['blocks'])
            f['hdr'][l['header']] = l
            l['stores'] = None
        f['allocas'] = {}
        for b in f['blocks']:
            for i in b['insts']:
                if i['op'] == 'alloca':
                    f['allocas'][i['id']] = i
        f['insts'] = {i['id']: i for b in f['blocks'] for i in b['insts'] if 'id' in i}

    def find(self, name):
        """function by exact mangled name, demangled prefix 'a::b(' or name"""
        if name in self.fns:
            return self.fns[name]
        r = [f for f in self.fns.values() if f['dname'] == name or f['dname'].split('(')[0] == name]
        if len(r) == 1:
            return r[0]
        if len(r) > 1:
            raise Unsupported('ambiguous function name %s' % name)
        raise Unsupported('function %s not found in the extracted IR' % name)


def strip_proms(fn, ptrop):
    """resolve an operand to (alloca id, const off) if it is a promoted alloca"""
    off = 0
    while True:
        if ptrop['k'] != 'v':
            return None
        i = fn['insts'].get(ptrop['id'])
        if i is None:
            return None
        if i['op'] == 'alloca':
            return (i['id'], off) if i['prom'] else None
        if i['op'] == 'getelementptr':
            if i['var']:
                return None
            off += i['off']
            ptrop = i['base']
            continue
        return None


def loop_stores(fn, loop):
    """promoted locals (alloca id, off) stored inside the loop: syntactic, exact"""
    if loop['stores'] is None:
        s = set()
        for b in loop['blocks']:
            for i in fn['bmap'][b]['insts']:
                if i['op'] == 'store':
                    r = strip_proms(fn, i['ops'][1])
                    if r:
                        s.add(r)
        loop['stores'] = s
    return loop['stores']


class Frame:
    __slots__ = ('fn', 'env', 'loc', 'blk', 'ip', 'prev', 'retid', 'retblk', 'uid', 'loopentry', 'unroll', 'depth')

    def __init__(self, fn, uid):
        self.fn = fn
        self.env = {}
        self.loc = {}
        self.blk = fn['blocks'][0]['id']
        self.ip = 0
        self.prev = None
        self.retid = None
        self.retblk = None
        self.uid = uid
        self.loopentry = {}
        self.unroll = {}
        self.depth = 0

    def clone(self):
        f = copy.copy(self)
        f.env = dict(self.env)
        f.loc = dict(self.loc)
        f.loopentry = dict(self.loopentry)
        f.unroll = dict(self.unroll)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.priv = {}
        self.next = None
        self.size = None
        self.alive = None
        self.pc = []
        self.ghost = {}
        self.escaped = set()

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.priv = {k: dict(v) for k, v in self.priv.items()}
        s.next = self.next
        s.size = self.size
        s.alive = self.alive
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.escaped = set(self.escaped)
        s.__dict__.update({k: v for k, v in self.__dict__.items() if k not in s.__dict__})
        return s


class View:
    """a specification's window on a state: v.i64(ptr)[k], v.var('i'), v.arg('n')"""

    def __init__(self, eng, st, frame_index=None, args=None, old=None, extra=None):
        self.eng = eng
        self.st = st
        self.fi = frame_index
        self.args = args or {}
        self.old = old
        self.ret = None
        self.__dict__.update(extra or {})

    def arg(self, n):
        if n in self.args:
            return self.args[n]
        raise Unsupported('no argument %s' % n)

    @property
    def frame(self):
        return self.st.frames[self.fi if self.fi is not None else -1]

    def var(self, name, loop=None, off=0):
        return self.eng.lookup_var(self.st, self.frame, name, loop or getattr(self, 'loop', None), off)

    def anyvar(self, *names):
        for n in names[:-1]:
            try:
                return self.var(n)
            except Unsupported:
                pass
        return self.var(names[-1])

    def inner(self, kind, p):
        obj = p.obj if isinstance(p, Ptr) else p
        self.eng.expose(self.st, obj)
        return z3.Select(self.eng.memk(self.st, kind), Z(obj))

    def idx(self, kind, p):
        d = p.off.div(KSZ[kind])
        if d is None:
            n = len(self.st.pc)
            d = self.eng.div_off(self.st, p, KSZ[kind])
            also = self.__dict__.get('also')
            if also is not None and also is not self.st and len(self.st.pc) > n:
                # the definition of the index, also where this (earlier) state is spoken of
                for c in self.st.pc[n:]:
                    self.eng.assume(also, c)
        return d

    def seen_from(self, st):
        v = View(self.eng, self.st, self.fi, self.args, self.old)
        v.__dict__.update({k: x for k, x in self.__dict__.items() if k not in v.__dict__ or k in ('loop', 'ret')})
        v.also = st
        return v

    def rd(self, kind, p, k=0):
        """k-th element of the given kind starting at p (specification read)"""
        return z3.Select(self.inner(kind, p), Z(add(self.idx(kind, p), k)))

    def rdptr(self, p, k=0):
        return Ptr(self.rd('po', p, k), self.rd('px', p, k))

    def fld(self, p, off, ty):
        """struct field at byte offset"""
        q = p.addoff(Lin(off))
        if ty == 'ptr':
            v = self.eng.raw_load(self.st, q, 'ptr')
            return v
        return self.eng.raw_load(self.st, q, ty)

    def size(self, p):
        return z3.Select(self.st.size, Z(p.obj))

    def alive(self, p):
        return z3.Select(self.st.alive, Z(p.obj))

    def valid(self, p, nbytes):
        return And(Z(p.obj) != 0, self.alive(p), Z(p.off.expr()) >= 0, Z(add(p.off.expr(), nbytes)) <= self.size(p))

    def isnull(self, p):
        return And(Z(p.obj) == 0, Z(p.off.expr()) == 0)


def ptr_eq(a, b):
    if isint(a.obj) and isint(b.obj):
        if a.obj != b.obj:
            return False
        r = norm(Z(a.off.expr()) == Z(b.off.expr()))
        return r
    return norm(z3.And(Z(a.obj) == Z(b.obj), Z(a.off.expr()) == Z(b.off.expr())))


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'line', 'status', 'time', 'backend', 'model', 'fn', 'kind', 'hints')

    def __init__(self, fn, kind, detail, pc, goal, line=None):
        self.fn = fn
        self.kind = kind
        self.name = '%s:%s:%s' % (fn, kind, detail)
        self.pc = pc
        self.goal = goal
        self.line = line
        self.status = None
        self.time = 0
        self.backend = None
        self.model = None


class Contract:
    """pre(v)->list, post(v)->[(name,cond)], mods(v)->list of (ptr|obj, kinds|None),
    loops={n: Loop}.  allocs/frees say whether the callee may do so."""

    def __init__(self, fn, pre=None, post=None, mods=None, loops=None, args=None,
                 allocs=False, frees=None, ret=None, opts=None, inline=(), trusted=False, lemmas=None, setup=None, noreturn=False, axioms=None, ghosts=(), xpost=None):
        self.xpost = xpost          # what holds when the function ends by an exception (None: it never does)
        self.fn = fn
        self.pre = pre
        self.post = post
        self.mods = mods
        self.loops = loops or {}
        self.args = args
        self.allocs = allocs
        self.frees = frees
        self.ret = ret
        self.opts = opts or {}
        self.inline = inline
        self.trusted = trusted
        self.lemmas = lemmas
        self.setup = setup
        self.noreturn = noreturn
        self.axioms = axioms
        self.ghosts = ghosts        # ghost variables the function may change


class Loop:
    def __init__(self, inv, variant=None, lemmas=None, unroll=None, ghost=None, writes=None, cuts=None, shape=None):
        self.shape = shape      # v -> [(cell, block, size)]: the pointer in the cell is a whole number of elements into the block (checked like an invariant)
        self.cuts = cuts        # v -> [(name, fact)]: intermediate facts at the back edge (proved); the other quantified facts of the body are then forgotten
        self.writes = writes    # v -> [(kind, ptr)]: declared write set (checked), instead of an inferred one
        self.inv = inv          # v -> [(name, cond)]
        self.variant = variant  # v -> int expr
        self.lemmas = lemmas    # v -> [cond] (assumed at the head; must be valid axioms)


def has_quant(e, cache={}):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def has_product(e):
    """a product of two non-constants occurs in e"""
    seen, w = set(), [e]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_mul(x) and sum(1 for c in x.children() if not z3.is_int_value(c)) > 1:
            return True
        if not (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)):
            w.extend(x.children())
    return False


class Engine:
    def __init__(self, module, contracts, models=None, opts=None):
        self.m = module
        self.contracts = contracts      # by function name as resolved
        self.cmap = {}
        for c in contracts:
            try:
                f = module.find(c.fn)
                self.cmap[f['name']] = c
            except Unsupported:
                # external function contract (declaration)
                for k, d in module.decls.items():
                    if k == c.fn or d == c.fn or d.split('(')[0] == c.fn:
                        self.cmap[k] = c
        self.models = dict(BUILTINS)
        self.models.update(models or {})
        self.opts = {'overflow': 'check', 'asserts': 'check', 'max_paths': 4000, 'unroll': 64, 'maxinline': 40, 'bounds': True}
        self.opts.update(opts or {})
        self.obls = []
        self.used = set()
        self.trusted_used = set()
        self.inlined = set()
        self.dry = 0
        self.writes = None

    # ---------------------------------------------------------------- memory
    def memk(self, st, kind):
        if kind not in st.mem:
            st.mem[kind] = self.mem0(kind)
        return st.mem[kind]

    def mem0(self, kind):
        if kind not in self._mem0:
            self._mem0[kind] = z3.Const('mem0_%s' % kind, z3.ArraySort(I, z3.ArraySort(I, KSORT[kind])))
        return self._mem0[kind]

    def expose(self, st, obj):
        """flush a private (stack) object into the symbolic heap"""
        if isint(obj) and obj in st.priv:
            cells = st.priv.pop(obj)
            st.escaped.add(obj)
            for off, (ty, v) in sorted(cells.items()):
                if v is UNDEF:
                    continue
                self.sym_store(st, Ptr(obj, off), ty, v, check=False)

    def try_div(self, st, p, s):
        d = p.off.div(s)
        if d is None:
            for k, (x, c) in p.off.t.items():
                if c % s and not self.prove(st, x == 0):
                    return None
            d = Lin(p.off.c, {k: (x, c) for k, (x, c) in p.off.t.items() if c % s == 0}).div(s)
        return d

    def div_off(self, st, p, s):
        d = p.off.div(s)
        if d is not None:
            return d
        # offsets known to be zero?
        rest = Lin(p.off.c)
        for k, (x, c) in p.off.t.items():
            if c % s and self.prove(st, x == 0):
                continue
            rest = rest + Lin(0, {k: (x, c)})
        d = rest.div(s)
        if d is not None:
            return d
        e = Z(p.off.expr())
        k = fresh('idx')
        if self.prove(st, e % s == 0):
            self.assume(st, k * s == e)
            return k
        raise Unsupported('misaligned/punned access of size %d at %s' % (s, p))

    def const_global(self, obj):
        if isint(obj) and obj in self.m.byid:
            n = self.m.byid[obj]
            g = self.m.globals.get(n)
            return g
        return None

    def raw_load(self, st, p, ty):
        """load without obligations. ty: iN/float/double/half/ptr"""
        if isint(p.obj) and p.obj in st.priv:
            co = p.off.const()
            if co is not None:
                c = st.priv[p.obj].get(co)
                if c is not None and c[0] == ty:
                    return c[1]
                if c is None:
                    # is there an overlapping cell?
                    if not any(o < co + tsize(ty) and co < o + tsize(t) for o, (t, _) in st.priv[p.obj].items()):
                        v = self.havoc_val(st, ty, 'uninit')
                        st.priv[p.obj][co] = (ty, v)
                        return v
                elif c is not None and ty in ('i64', 'ptr') and c[0] in ('i64', 'ptr'):
                    return self.coerce(st, c[1], c[0], ty)
                v = self.punned(st, p, ty)
                if v is not None:
                    return v
            self.expose(st, p.obj)
        g = self.const_global(p.obj)
        if g is not None and g.get('const') and 'init' in g:
            co = p.off.const()
            if co is not None:
                v = self.const_at(g['init'], co, ty)
                if v is not None:
                    return v
            else:
                self.global_axioms(st, p.obj, g)
        if ty == 'ptr':
            i = self.div_off(st, p, 8)
            o = norm(z3.Select(z3.Select(self.memk(st, 'po'), Z(p.obj)), Z(i)))
            x = norm(z3.Select(z3.Select(self.memk(st, 'px'), Z(p.obj)), Z(i)))
            if not isint(o):
                self.assume(st, Z(o) < Z(st.next))
            return Ptr(o, Lin.of(x))
        if ty in FKIND:
            k = FKIND[ty]
            return z3.Select(z3.Select(self.memk(st, k), Z(p.obj)), Z(self.div_off(st, p, KSZ[k])))
        if ty == 'i1':
            return self.tobool(self.raw_load(st, p, 'i8'))
        if ty not in ISZ:
            raise Unsupported('load of type %s' % ty)
        v = norm(z3.Select(z3.Select(self.memk(st, ty), Z(p.obj)), Z(self.div_off(st, p, ISZ[ty]))))
        if not isint(v):
            self.assume(st, signed_range(v, width(ty)))
        return v

    def punned(self, st, p, ty):
        return None

    def coerce(self, st, v, a, b):
        if a == b:
            return v
        if a == 'ptr' and b == 'i64':
            return self.ptrtoint(v)
        if isint(v) and v == 0:
            return NULL
        raise Unsupported('coerce %s to %s' % (a, b))

    def const_at(self, init, off, ty):
        k = init['k']
        if k == 'zero':
            return NULL if ty == 'ptr' else (0 if ty in ISZ else (fzero(FSORT[ty]) if ty in FSORT else None))
        if k == 'agg':
            t = init['ty']
            if 'array' in t:
                i, r = divmod(off, t['stride'])
                if i >= len(init['elems']):
                    return None
                return self.const_at(init['elems'][i], r, ty)
            if 'struct' in t:
                o = 0
                for e, et in zip(init['elems'], t['struct']):
                    sz = tsize(et)
                    al = talign(et)
                    o = (o + al - 1) // al * al
                    if o <= off < o + sz:
                        return self.const_at(e, off - o, ty)
                    o += sz
            return None
        if off != 0:
            return None
        v = self.constop(init)
        if ty == 'ptr':
            return v if isinstance(v, Ptr) else None
        if ty in ISZ and isint(v):
            if 'i%d' % init.get('w', 0) != ty:
                return None
            return v
        if ty in FSORT and not isint(v):
            return v
        return None

    def global_axioms(self, st, obj, g):
        if obj in self._gax:
            for a in self._gax[obj]:
                st.pc.append(a)
            return
        ax = []
        init = g['init']
        if init['k'] == 'agg' and 'array' in init['ty']:
            et = init['ty']['elem']
            for n, e in enumerate(init['elems']):
                if isinstance(et, str):
                    if et == 'ptr':
                        v = self.constop(e)
                        ax.append(z3.Select(z3.Select(self.mem0('po'), obj), n) == Z(v.obj))
                        ax.append(z3.Select(z3.Select(self.mem0('px'), obj), n) == Z(v.off.expr()))
                    elif et in ISZ:
                        ax.append(z3.Select(z3.Select(self.mem0(et), obj), n) == self.constop(e))
                    elif et in FKIND:
                        ax.append(z3.Select(z3.Select(self.mem0(FKIND[et]), obj), n) == self.constop(e))
                elif 'struct' in et and e['k'] == 'agg':
                    base = n * init['ty']['stride']
                    for off, t in flat_fields(et):
                        v = self.const_at(e, off, t)
                        if t in ISZ and v is not None and (base + off) % ISZ[t] == 0:
                            ax.append(z3.Select(z3.Select(self.mem0(t), obj), (base + off) // ISZ[t]) == v)
                        elif t == 'ptr' and v is not None:
                            ax.append(z3.Select(z3.Select(self.mem0('po'), obj), (base + off) // 8) == Z(v.obj))
                            ax.append(z3.Select(z3.Select(self.mem0('px'), obj), (base + off) // 8) == Z(v.off.expr()))
        elif init['k'] == 'zero' and 'array' in init['ty']:
            et = init['ty']['elem']
            if et in ISZ:
                for n in range(min(init['ty']['array'], 256)):
                    ax.append(z3.Select(z3.Select(self.mem0(et), obj), n) == 0)
        self._gax[obj] = ax
        for a in ax:
            st.pc.append(a)

    def sym_store(self, st, p, ty, v, check=True):
        if ty == 'i1':
            ty = 'i8'
            v = self.b2i(v)
        if ty == 'ptr':
            if isint(v):
                v = NULL if v == 0 else Ptr(v, 0)
            if not isinstance(v, Ptr):
                raise Unsupported('store of non-pointer as ptr')
            self.expose(st, v.obj)
            i = self.div_off(st, p, 8)
            self.record(st, p, 'po')
            self.record(st, p, 'px')
            for k, x in (('po', v.obj), ('px', v.off.expr())):
                M = self.memk(st, k)
                st.mem[k] = z3.Store(M, Z(p.obj), z3.Store(z3.Select(M, Z(p.obj)), Z(i), Z(x)))
            return
        k = FKIND.get(ty, ty)
        if k not in KSZ:
            raise Unsupported('store of type %s' % (ty,))
        i = self.div_off(st, p, KSZ[k])
        self.record(st, p, k)
        M = self.memk(st, k)
        inner = norm_sel(z3.Select(M, Z(p.obj)))
        st.mem[k] = z3.Store(M, Z(p.obj), z3.Store(inner, Z(i), Z(v)))

    def record(self, st, p, kind):
        self.note(st, ('mem', kind, p.obj))

    def note(self, st, w):
        """one write: logged while a write set is inferred, checked inside loops that declare theirs"""
        if self.writes is not None:
            self.writes.append(w)
        for f in st.frames:
            for ent in f.loopentry.values():
                if ent and ent.get('declared') is not None and f.blk in ent['bset']:
                    if w[0] == 'ghost' and w in ent['declared'] or w[0] == 'priv' and (w[1] not in ent['atentry'] or tuple(w[1:4]) in ent['privs']):
                        continue
                    if w[0] == 'mem' and any(k == w[1] and (o is w[2] or isint(o) and isint(w[2]) and o == w[2] or Z(o).eq(Z(w[2])) or self.prove(st, Z(o) == Z(w[2]))) for k, o in ent['declared']):
                        continue
                    raise Unsupported('a loop writes outside its declared write set (%s)' % (w,))

    def raw_store(self, st, p, ty, v):
        if v is UNDEF:
            v = self.havoc_val(st, ty, 'undef')
        if isinstance(v, Agg):
            for (off, t), x in zip(flat_fields(ty, top=True), v.e):
                self.raw_store(st, p.addoff(Lin(off)), t, x)
            return
        if isint(p.obj) and p.obj in st.priv:
            co = p.off.const()
            if co is not None:
                cells = st.priv[p.obj]
                sz = tsize(ty)
                for o in list(cells):
                    if o != co and o < co + sz and co < o + tsize(cells[o][0]):
                        del cells[o]
                cells[co] = (ty, v)
                self.note(st, ('priv', p.obj, co, ty))
                return
            self.expose(st, p.obj)
        self.sym_store(st, p, ty, v)

    def inner_havoc(self, st, kind, obj):
        M = self.memk(st, kind)
        a = fresh('hv_' + kind, z3.ArraySort(I, KSORT[kind]))
        st.mem[kind] = z3.Store(M, Z(obj), a)
        return a

    def havoc_val(self, st, ty, name='hv'):
        if isinstance(ty, dict):
            if 'struct' in ty:
                return Agg([self.havoc_val(st, t, name) for t in ty['struct']])
            raise Unsupported('havoc %s' % ty)
        if ty == 'i1':
            return fresh(name, B)
        if ty == 'ptr':
            o = fresh(name + '_o')
            x = fresh(name + '_x')
            self.assume(st, o < Z(st.next))
            return Ptr(o, Lin.of(x))
        if ty in FSORT:
            return fresh(name, FSORT[ty])
        if ty[0] == 'i':
            v = fresh(name)
            self.assume(st, signed_range(v, width(ty)))
            return v
        raise Unsupported('havoc type %s' % ty)

    def alloc(self, st, nbytes, zero=False, maynull=False):
        """heap allocation: fresh object"""
        o = norm(Z(st.next))
        st.next = add(st.next, 1)
        for k in list(st.mem):
            # contents arbitrary: the map has never been constrained at this id
            pass
        st.size = z3.Store(st.size, Z(o), Z(nbytes))
        st.alive = z3.Store(st.alive, Z(o), True)
        self.note(st, ('alloc',))
        if zero:
            for k in ('i8', 'i16', 'i32', 'i64', 'po', 'px'):
                st.mem[k] = z3.Store(self.memk(st, k), Z(o), z3.K(I, z3.IntVal(0)))
            for k in ('f32', 'f64'):
                st.mem[k] = z3.Store(self.memk(st, k), Z(o), z3.K(I, fzero(KSORT[k])))
        return Ptr(o, 0)

    # ------------------------------------------------------------ reasoning
    def assume(self, st, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        if z3.is_true(f):
            return
        st.pc.append(f)

    def prove(self, st, f, ms=150):
        """quick quantifier-free entailment test used to simplify terms"""
        f = norm(Z(f))
        if isinstance(f, bool):
            return f
        s = self.pruner(st)
        s.push()
        s.add(z3.Not(f))
        r = s.check()
        s.pop()
        return r == z3.unsat

    def pruner(self, st):
        # synchronise an incremental solver with st.pc (common prefix kept)
        S = self._ps
        ids = self._ps_ids
        n = 0
        pc = st.pc
        while n < len(ids) and n < len(pc) and ids[n] is pc[n]:
            n += 1
        while len(ids) > n:
            S.pop()
            ids.pop()
        for f in pc[n:]:
            S.push()
            if not has_quant(f):
                S.add(f)
            ids.append(f)
        return S

    def feasible(self, st, f):
        f = norm(Z(f))
        if isinstance(f, bool):
            return f
        s = self.pruner(st)
        s.push()
        s.add(f)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def oblige(self, st, kind, detail, goal, line=None):
        if self.dry:
            self.assume(st, Z(goal))
            return
        if isinstance(goal, bool) and goal or (not isinstance(goal, bool) and z3.is_true(z3.simplify(goal))):
            self.ntriv += 1
            ob = Obligation(self.cur, kind, detail, [], z3.BoolVal(True), line)
            ob.status = 'proved'
            ob.backend = 'simplifier'
            self.obls.append(ob)
            return
        pc = list(st.pc)
        focus = self.opts.get('focus')
        if focus is not None:       # a subset of the hypotheses: sound, and easier for the solvers
            pc = [h for h in pc if focus(kind + ':' + detail, h)]
        self.obls.append(Obligation(self.cur, kind, detail, pc, Z(goal), line))
        self.assume(st, Z(goal))

    # ------------------------------------------------------------- operands
    def constop(self, o):
        k = o['k']
        if k == 'int':
            v = int(o['v'])
            if o['w'] == 1:
                return v != 0
            return v
        if k == 'null':
            return NULL
        if k == 'iptr':
            return Ptr(0, int(o['v']))
        if k == 'fp':
            t = o['ty']
            bits = int(o['bits'])
            if t not in FSORT:
                raise Unsupported('fp const type %s' % t)
            w = {'float': 32, 'double': 64, 'half': 16}[t]
            if FSORT[t] == REAL:
                import fractions, struct
                d = struct.unpack({16: '<e', 32: '<f', 64: '<d'}[w], bits.to_bytes(w // 8, 'little'))[0]
                if d != d or d in (float('inf'), float('-inf')):
                    raise Unsupported('constant %r in real arithmetic' % d)
                f = fractions.Fraction(d)
                return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, w), FSORT[t]))
        if k == 'undef':
            t = o['ty']
            if isinstance(t, dict) and 'struct' in t:
                return Agg([UNDEF for _ in t['struct']])
            if isinstance(t, dict) and 'array' in t:
                return Agg([UNDEF for _ in range(t['array'])])
            return UNDEF
        if k == 'fn':
            return Ptr(self.m.gid[o['name']], 0)
        if k == 'gv':
            return Ptr(self.m.gid[o['name']], o['off'])
        if k == 'zero':
            t = o['ty']
            return self.zero_of(t)
        if k == 'agg':
            return Agg([self.constop(e) for e in o['elems']])
        raise Unsupported('constant %s' % o)

    def zero_of(self, t):
        if isinstance(t, dict):
            if 'struct' in t:
                return Agg([self.zero_of(x) for x in t['struct']])
            if 'array' in t:
                return Agg([self.zero_of(t['elem']) for _ in range(t['array'])])
        if t == 'ptr':
            return NULL
        if t in FSORT:
            return fzero(FSORT[t])
        if t == 'i1':
            return False
        return 0

    def val(self, fr, o):
        if o['k'] == 'v':
            try:
                return fr.env[o['id']]
            except KeyError:
                raise Unsupported('use of unavailable value %d in %s' % (o['id'], fr.fn['name']))
        return self.constop(o)

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isint(v):
            return v != 0
        if v is UNDEF:
            return fresh('undefb', B)
        if z3.is_bool(v):
            return v
        return norm(v != 0)

    def b2i(self, v):
        if isinstance(v, bool):
            return int(v)
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def toint(self, st, v, ty='i64'):
        if v is UNDEF:
            return self.havoc_val(st, ty, 'undef')
        if isinstance(v, bool) or (not isint(v) and not isinstance(v, (Ptr, Agg)) and z3.is_bool(v)):
            return self.b2i(v)
        return v

    def unsigned(self, st, v, w):
        if isint(v):
            return v % (1 << w)
        if self.prove(st, v >= 0):
            return v
        if self.prove(st, v < 0):
            return norm(v + (1 << w))
        return z3.If(v < 0, v + (1 << w), v)

    def wrap(self, st, v, w, exact_range=None):
        """normalise a mathematical value to signed w-bit"""
        M = 1 << w
        H = 1 << (w - 1)
        if isint(v):
            v %= M
            return v - M if v >= H else v
        if self.prove(st, signed_range(v, w)):
            return v
        if exact_range == 'addsub':
            return z3.If(v >= H, v - M, z3.If(v < -H, v + M, v))
        r = v % M
        return z3.If(r >= H, r - M, r)

    ADDR = z3.Function('addr', I, I)

    def ptrtoint(self, p):
        if isint(p.obj) and p.obj == 0:
            return p.off.expr()
        return add(self.ADDR(Z(p.obj)), p.off.expr())

    # ------------------------------------------------------------ var lookup
    def var_candidates(self, fr, name, off=0):
        r = [a for a in fr.fn['allocas'].values() if a.get('dbg') == name]
        if not r:
            r = [a for a in fr.fn['allocas'].values() if a.get('name') in (name, name + '.addr')]
        return r

    def lookup_var(self, st, fr, name, loop=None, off=0):
        c = self.var_candidates(fr, name, off)
        if not c:
            c = self.rename_candidates(fr, name, loop)
        if not c:
            raise Unsupported('variable %s not found in %s' % (name, fr.fn['name']))
        if len(c) > 1 and loop is not None:
            def score(a):
                used_h = used_l = False
                for b in loop['blocks']:
                    for i in fr.fn['bmap'][b]['insts']:
                        if i['op'] in ('load', 'store'):
                            r = strip_proms(fr.fn, i['ops'][0 if i['op'] == 'load' else 1])
                            if r and r[0] == a['id']:
                                used_l = True
                                if b == loop['header']:
                                    used_h = True
                return (used_h, used_l, a.get('dline', 0) <= loop['line'] + 0, a.get('dline', 0))
            c.sort(key=score, reverse=True)
        a = c[0]
        if a['prom']:
            for key, v in fr.loc.items():
                if key == (a['id'], off):
                    return v
            raise Unsupported('variable %s has no value yet' % name)
        p = fr.env[a['id']]
        return Ptr(p.obj, p.off + Lin(off))

    def rename_candidates(self, fr, name, loop):
        return []

    # ------------------------------------------------------------- execution
    def verify(self, contract):
        """generate all obligations for one function under contract"""
        fn = self.m.find(contract.fn)
        self.cur = fn['dname'].split('(')[0].replace('onnx_mlir::', '').replace('(anonymous namespace)::', '')
        self.curc = contract
        self.curfn = fn
        self._mem0 = {}
        self._gax = {}
        self._lshr = {}
        self._ps = z3.Solver()
        self._ps.set('timeout', 200)
        self._ps_ids = []
        self.ntriv = 0
        self.npaths = 0
        self.nreturns = 0
        self.saved_opts = dict(self.opts)
        self.opts.update(contract.opts)
        real_mode(self.opts.get('fp') == 'real')
        self.t0 = time.time()
        start = len(self.obls)
        st = State()
        self.N0 = z3.Int('next0')
        st.next = self.N0
        st.size = z3.Const('size0', z3.ArraySort(I, I))
        st.alive = z3.Const('alive0', z3.ArraySort(I, B))
        self.assume(st, self.N0 >= 1)
        self.assume(st, z3.Not(z3.Select(st.alive, 0)))
        fr = Frame(fn, 0)
        st.frames = [fr]
        self.uid = itertools.count(1)
        self.stackid = itertools.count(1)
        self.privsize = {}
        args = {}
        for p in fn['params']:
            nm = p['name']
            if 'sret' in p or 'byval' in p:
                o = -1000000 - next(self.stackid)
                v = Ptr(o, 0)
                st.size = z3.Store(st.size, Z(o), Z(p.get('sret', p.get('byval'))))
                st.alive = z3.Store(st.alive, Z(o), True)
                if 'sret' in p:
                    st.priv[o] = {}
            elif p['ty'] == 'ptr':
                o = z3.Int('arg_' + nm)
                x = z3.Int('argoff_' + nm)
                interior = nm in self.opts.get('interior', ())
                v = Ptr(o, Lin.of(x, self.opts.get('aligned', {}).get(nm, 1)) if interior else 0)
                self.assume(st, z3.And(o >= 0, o < self.N0))
                if interior:
                    self.assume(st, x >= 0)
            elif p['ty'] == 'i1':
                v = z3.Bool('arg_' + nm)
            elif p['ty'] in FSORT:
                v = z3.Const('arg_' + nm, FSORT[p['ty']])
            elif isinstance(p['ty'], str) and p['ty'][0] == 'i':
                v = z3.Int('arg_' + nm)
                self.assume(st, signed_range(v, width(p['ty'])))
            else:
                raise Unsupported('parameter type %s' % (p['ty'],))
            args[nm] = v
            fr.env[p['id']] = v
        # global facts: sizes of globals
        for g, gi in self.m.globals.items():
            st.pc.append(z3.Select(st.size, self.m.gid[g]) == gi['size'])
            st.pc.append(z3.Select(st.alive, self.m.gid[g]))
        self.args = args
        v = View(self, st, 0, args)
        if contract.setup:
            contract.setup(v)
        if contract.pre:
            for c in contract.pre(v):
                self.assume(st, Z(c))
        self.pre_pc = list(st.pc)
        self.st0 = st.clone()
        self.old = View(self, self.st0, 0, args)
        # precondition satisfiable (vacuity guard): recorded as a cover
        self.covers.append((self.cur + ':precondition-satisfiable', list(st.pc)))
        self.run(st)
        self.opts = self.saved_opts
        if self.nreturns == 0 and not contract.noreturn:
            raise Unsupported('%s: no return path reached (vacuous)' % self.cur)
        self.used.add(fn['name'])
        return self.obls[start:]

    covers = []

    # joining of paths -------------------------------------------------------
    def join_block(self, fn, b):
        """the block where the branch ending block b joins again, when the region in between is small and acyclic"""
        memo = fn.setdefault('joins', {})
        if b in memo:
            return memo[b]
        memo[b] = None
        succ = lambda x: list(dict.fromkeys(fn['bmap'][x]['insts'][-1].get('succ', ()))) if fn['bmap'][x]['insts'][-1]['op'] == 'br' else None

        def reach(x, avoid):
            seen, w = set(), [x]
            while w:
                y = w.pop()
                if y in seen or y == avoid:
                    continue
                seen.add(y)
                if len(seen) > 24:
                    return None
                n = succ(y)
                if n is None:
                    return None
                if not n:
                    return None
                w += n
            return seen
        # candidates in breadth-first order
        order, w = [], list(succ(b) or ())
        while w and len(order) < 16:
            y = w.pop(0)
            if y not in order:
                order.append(y)
                w += succ(y) or ()
        for j in order:
            reg = set()
            for x in succ(b):
                r = reach(x, j) if x != j else set()
                if r is None:
                    reg = None
                    break
                reg |= r
            if reg is None or len(reg) > 8 or b in reg or any(x in fn['hdr'] for x in reg) or j in fn['hdr']:
                continue
            memo[b] = j
            break
        return memo[b]

    def merge_states(self, states, n0, base):
        """one state for several that arrive at the same block; None when their memories differ"""
        a = states[0]

        def same(x, y):
            if x is y:
                return True
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return same(x.obj, y.obj) and (x.off is y.off or same(norm(x.off.expr()), norm(y.off.expr())))
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                return x.eq(y)
            if isinstance(x, bool) != isinstance(y, bool):
                return False
            if isinstance(x, (int, bool, str, tuple)) and isinstance(y, (int, bool, str, tuple)):
                return x == y
            return False
        for s in states[1:]:
            if set(s.mem) != set(a.mem):
                for k in set(s.mem) | set(a.mem):
                    self.memk(s, k), self.memk(a, k)
        for s in states:
            if len(s.frames) != len(a.frames) or len(s.pc) < n0 or any(s.pc[k] is not base.pc[k] and not s.pc[k].eq(base.pc[k]) for k in range(n0)):
                return None
            if not (same(s.next, a.next) and same(s.size, a.size) and same(s.alive, a.alive)) or set(s.priv) != set(a.priv) or s.escaped != a.escaped:
                return None
            if any(not same(a.mem[k], s.mem[k]) for k in a.mem) or set(a.ghost) != set(s.ghost) or any(not same(a.ghost[k], s.ghost[k]) for k in a.ghost):
                return None
            if any(f.loopentry.keys() != g.loopentry.keys() or f.unroll != g.unroll for f, g in zip(s.frames, a.frames)):
                return None
        sel = [fresh('path', B) for _ in states]
        facts = []
        bad = []

        def merge(vals):
            if all(same(vals[0], x) for x in vals[1:]):
                return vals[0]
            if any(x is UNDEF for x in vals):
                return UNDEF
            if all(isinstance(x, Ptr) for x in vals):
                o = merge([x.obj for x in vals])
                offs = [norm(x.off.expr()) for x in vals]
                return Ptr(o, vals[0].off if all(same(offs[0], y) for y in offs[1:]) else Lin.of(merge(offs)))
            if any(isinstance(x, (Ptr, Agg)) or not isinstance(x, (int, bool, z3.ExprRef)) for x in vals):
                bad.append(vals)
                return vals[0]
            e = [z3.BoolVal(x) if isinstance(x, bool) else Z(x) for x in vals]
            if any(x.sort() != e[0].sort() for x in e):
                bad.append(vals)
                return vals[0]
            n = fresh('join', e[0].sort())
            facts.extend(z3.Implies(c, n == x) for c, x in zip(sel, e))
            return n
        m = a.clone()
        for k, o in enumerate(a.priv):
            keys = set(a.priv[o])
            for s in states[1:]:
                keys &= set(s.priv[o])
            try:
                m.priv[o] = {c: merge([s.priv[o][c] for s in states]) if not isinstance(a.priv[o][c], tuple) else
                             tuple(merge([s.priv[o][c][z] for s in states]) for z in range(len(a.priv[o][c]))) for c in a.priv[o] if c in keys}
            except Exception:
                return None
        for fi in range(len(a.frames)):
            for attr in ('env', 'loc'):
                ds = [getattr(s.frames[fi], attr) for s in states]
                out = {}
                for k in ds[0]:
                    if all(k in d for d in ds[1:]):
                        if attr == 'env' and not all(same(ds[0][k], d[k]) for d in ds[1:]) and any(isinstance(d[k], (Agg,)) or d[k] is UNDEF for d in ds):
                            continue
                        out[k] = merge([d[k] for d in ds])
                setattr(m.frames[fi], attr, out)
        if bad:
            return None
        m.pc = a.pc[:n0] + [z3.Or(*sel)]
        for c, s in zip(sel, states):
            ex = s.pc[n0:]
            plain = [x for x in ex if not has_quant(x)]
            if plain:
                m.pc.append(z3.Implies(c, z3.And(*plain)))
            m.pc += [z3.Implies(c, x) for x in ex if has_quant(x)]
        m.pc += facts
        return m

    def branch_merged(self, st, fr, live, j):
        """explore both sides of a branch up to block j and go on with one state when possible; True: go on with st"""
        outer = getattr(st, 'stop', None)
        depth, n0 = len(st.frames), len(st.pc)
        got = []
        for cond, b in live:
            s2 = st.clone()
            self.assume(s2, Z(cond))
            s2.stop = (depth, j, got)
            if self.jump(s2, s2.frames[-1], b) is not False:
                self.run(s2)
        for s in got:
            s.stop = outer
        if not got:
            return False
        m = got[0] if len(got) == 1 else self.merge_states(got, n0, st)
        if m is None:
            self.nomerge = getattr(self, 'nomerge', 0) + 1
            self.npaths += len(got) - 1
            for s in got:
                self.run(s)
            return False
        m.stop = outer
        self.run(m)
        return False

    def run(self, st):
        while True:
            fr = st.frames[-1]
            blk = fr.fn['bmap'][fr.blk]
            stop = getattr(st, 'stop', None)
            if stop is not None and stop[0] == len(st.frames) and fr.blk == stop[1]:
                nphi = 0
                while blk['insts'][nphi]['op'] == 'phi':
                    nphi += 1
                if fr.ip == 0 or fr.ip == nphi:
                    if fr.ip == 0:
                        self.phis(st, fr, blk)
                    stop[2].append(st)
                    return
            if fr.ip == 0 and self.skip_header:
                self.skip_header = False
            elif fr.ip == 0:
                h = fr.fn['hdr'].get(fr.blk)
                if h is not None and not self.enter_header(st, fr, h):
                    return
                if not self.phis(st, fr, blk):
                    return
            insts = blk['insts']
            if fr.ip >= len(insts):
                raise Unsupported('fell off block')
            ins = insts[fr.ip]
            fr.ip += 1
            r = self.step(st, fr, ins)
            if r is False:
                return

    def phis(self, st, fr, blk):
        new = {}
        n = 0
        for i in blk['insts']:
            if i['op'] != 'phi':
                break
            n += 1
            for x in i['in']:
                if x['bb'] == fr.prev:
                    new[i['id']] = self.val(fr, x['v'])
                    break
            else:
                raise Unsupported('phi without incoming')
        fr.env.update(new)
        fr.ip = n
        return True

    def goto(self, st, fr, b):
        fr.prev = fr.blk
        fr.blk = b
        fr.ip = 0

    # loops -----------------------------------------------------------------
    def loop_spec(self, fr, h):
        c = self.curc if fr.uid == 0 else None
        if c is None:
            c = self.cmap.get(fr.fn['name'])
        specs = c.loops if c is not None else None
        if specs is None or fr.fn is not self.curfn and (self.curc.loops is specs):
            specs = {}
        inl = self.curc.opts.get('inline_loops', {})
        if fr.uid != 0:
            for k, v in inl.items():
                if fr.fn['name'] == k or fr.fn['dname'].split('(')[0].endswith(k):
                    specs = v
        if not specs:
            return None
        if isinstance(specs, dict):
            total = specs.get('count')
            if total is not None and total != len(fr.fn['loops']):
                raise Unsupported('%s: loop structure changed (%d loops, contract written for %d)' % (fr.fn['name'], len(fr.fn['loops']), total))
            return specs.get(h['n'])
        return None

    def enter_header(self, st, fr, h):
        """returns False if the path ends here"""
        from_inside = fr.prev in h['bset'] and h['header'] in fr.loopentry
        spec = self.loop_spec(fr, h)
        if spec is None:
            n = fr.unroll.get(h['header'], 0) if from_inside else 0
            fr.loopentry.setdefault(h['header'], None)
            if not from_inside:
                fr.loopentry[h['header']] = None
            fr.unroll[h['header']] = n + 1
            if n > self.opts['unroll']:
                raise Unsupported('%s: loop at line %d has no invariant and no constant bound' % (fr.fn['name'], h['line']))
            return True
        if self.dry and h['header'] in self.dry_headers and self.dry_headers[-1] == h['header'] and from_inside:
            return False
        tag = 'loop%d' % h['n'] if fr.uid == 0 else '%s.loop%d' % (fr.fn['dname'].split('(')[0].split('::')[-1], h['n'])
        if from_inside:
            ent = fr.loopentry[h['header']]
            if self.dry and ent is None:
                return False
            self.phis(st, fr, fr.fn['bmap'][h['header']])
            v = self.loop_view(st, fr, h, ent)
            for l in (spec.lemmas(v) if spec.lemmas else ()):
                self.assume(st, Z(l))
            if spec.cuts and not self.dry:
                v.head = ent['head']
                cs = list(spec.cuts(v))
                for nm, c in cs:
                    self.oblige(st, 'cut', '%s:%s' % (tag, nm), c, h['line'])
                n = ent['pclen']
                st.pc = st.pc[:n] + [x for x in st.pc[n:] if not has_quant(x)] + [Z(c) for _, c in cs if has_quant(Z(c))]
            self.check_shape(st, spec, v, 'invariant-preserved', tag, h)
            for nm, c in spec.inv(v):
                self.oblige(st, 'invariant-preserved', '%s:%s' % (tag, nm), c, h['line'])
            if spec.variant:
                v0 = ent['variant']
                v1 = Z(spec.variant(v))
                self.oblige(st, 'termination', tag, z3.And(v1 < v0, v0 >= 0), h['line'])
            return False
        # entering from outside
        prevb = fr.prev
        ent = {'state': st.clone()}
        self.phis(st, fr, fr.fn['bmap'][h['header']])
        v = self.loop_view(st, fr, h, ent)
        for l in (spec.lemmas(v) if spec.lemmas else ()):
            self.assume(st, Z(l))
        self.check_shape(st, spec, v, 'invariant-established', tag, h)
        for nm, c in spec.inv(v):
            self.oblige(st, 'invariant-established', '%s:%s' % (tag, nm), c, h['line'])
        if spec.writes is not None:
            W = {'mem': {}, 'all': set(), 'priv': set(), 'alloc': False, 'free': set()}
            ent['declared'], ent['bset'] = [], h['bset']
            for kind, q in spec.writes(v):
                if kind == 'ghost':
                    W.setdefault('ghost', set()).add(q)
                    ent['declared'].append(('ghost', q))
                    continue
                W['mem'].setdefault(kind, {})[q.obj if isint(q.obj) else q.obj.get_id()] = q.obj
                ent['declared'].append((kind, q.obj))
                self.expose(st, q.obj)
            W = self.infer_writes(st, fr, h, spec, ent, W)
            ent['privs'] = W['priv']
            ent['atentry'] = set(st.priv)
        else:
            W = self.infer_writes(st, fr, h, spec, ent)
        self.havoc_loop(st, fr, h, W)
        v = self.loop_view(st, fr, h, ent)
        self.set_shape(st, spec, v)
        fr.loopentry[h['header']] = ent
        for l in (spec.lemmas(v) if spec.lemmas else ()):
            self.assume(st, Z(l))
        for nm, c in spec.inv(v):
            self.assume(st, Z(c))
        if spec.cuts:
            ent['pclen'] = len(st.pc)
            ent['head'] = self.loop_view(st.clone(), None, h, ent, st.frames.index(fr))
        if not self.dry:
            self.covers.append(('%s:%s:invariant-satisfiable' % (self.cur, tag), list(st.pc)))
        if spec.variant:
            ent['variant'] = Z(spec.variant(v))
        return True

    def check_shape(self, st, spec, v, kind, tag, h):
        for k, (cell, block, size) in enumerate(spec.shape(v) if spec.shape else ()):
            p = self.raw_load(st, cell, 'ptr')
            self.oblige(st, kind, '%s:pointer %d is at an element of its block' % (tag, k), z3.And(Z(p.obj) == Z(block.obj), Z(p.off.expr()) % size == 0), h['line'])

    def set_shape(self, st, spec, v):
        for cell, block, size in (spec.shape(v) if spec.shape else ()):
            w = self.writes
            self.writes = None
            self.raw_store(st, cell, 'ptr', Ptr(block.obj, Lin.of(fresh('idx'), size)))
            self.writes = w

    def loop_view(self, st, fr, h, ent, fi=None):
        fi = st.frames.index(fr) if fi is None else fi
        v = View(self, st, fi, self.args, old=self.old.seen_from(st))
        v.loop = h
        v.entry = View(self, ent['state'], fi, self.args, old=self.old)
        v.entry.loop = h
        return v

    def infer_writes(self, st, fr, h, spec=None, ent=None, declared=None):
        """fixpoint of the write set of the loop body by dry symbolic runs (of its private locals when the rest is declared: then the declaration is checked at every write)"""
        W = declared or {'mem': {}, 'all': set(), 'priv': set(), 'alloc': False, 'free': set()}
        fi = st.frames.index(fr)
        for it in range(8):
            s2 = st.clone()
            f2 = s2.frames[fi]
            base = next(_fresh)
            self.havoc_loop(s2, f2, h, W)
            f2.loopentry[h['header']] = None
            if spec is not None:
                # the invariant is proved for the final write set, so it may be used while inferring it
                v2 = self.loop_view(s2, f2, h, ent)
                self.set_shape(s2, spec, v2)
                for l in (spec.lemmas(v2) if spec.lemmas else ()):
                    self.assume(s2, Z(l))
                for nm, c in spec.inv(v2):
                    self.assume(s2, Z(c))
            saved = self.writes
            self.writes = []
            self.dry += 1
            self.dry_headers.append(h['header'])
            exits = []
            try:
                # explore only the loop: paths that leave the loop blocks in this frame are cut
                s2.cut = (len(s2.frames) - 1, h['bset'])
                f2.ip = 0
                while f2.ip < len(fr.fn['bmap'][h['header']]['insts']) and fr.fn['bmap'][h['header']]['insts'][f2.ip]['op'] == 'phi':
                    f2.ip += 1
                self.skip_header = True
                f2.blk = h['header']
                self.run(s2)
            finally:
                self.dry -= 1
                self.dry_headers.pop()
                ws = self.writes
                self.writes = saved
            new = False
            for w in ws:
                if declared is not None and w[0] != 'priv':
                    continue
                if w[0] == 'mem':
                    kind, obj = w[1], w[2]
                    if kind in W['all']:
                        continue
                    if is_fresh_since(obj, base):
                        # object id depends on this iteration
                        if is_alloc_in(obj, s2, st):
                            continue
                        W['all'].add(kind)
                        new = True
                    else:
                        d = W['mem'].setdefault(kind, {})
                        key = obj if isint(obj) else obj.get_id()
                        if key not in d:
                            d[key] = obj
                            new = True
                elif w[0] == 'priv':
                    # (a local of a function inlined in the body does not outlive the iteration)
                    if w[1] in st.priv and (w[1], w[2], w[3]) not in W['priv']:
                        W['priv'].add((w[1], w[2], w[3]))
                        new = True
                elif w[0] == 'alloc':
                    if not W['alloc']:
                        W['alloc'] = True
                        new = True
                elif w[0] == 'free':
                    if not W['free']:
                        W['free'] = {1}
                        new = True
                elif w[0] == 'ghost':
                    W.setdefault('ghost', set())
                    if w[1] not in W['ghost']:
                        W['ghost'].add(w[1])
                        new = True
            if saved is not None:
                saved.extend(ws)
            if not new:
                return W
        raise Unsupported('loop write set did not stabilise')

    dry_headers = []

    skip_header = False

    def havoc_loop(self, st, fr, h, W):
        for (aid, off) in loop_stores(fr.fn, h):
            for key in [k for k in fr.loc if k == (aid, off)]:
                old = fr.loc[key]
                fr.loc[key] = self.havoc_like(st, old, fr.fn['allocas'][aid].get('dbg', 'v'), self.loc_ty(fr, aid, off))
            if (aid, off) not in fr.loc:
                t = self.loc_ty(fr, aid, off)
                if t:
                    fr.loc[(aid, off)] = self.havoc_val(st, t, fr.fn['allocas'][aid].get('dbg', 'v'))
        for i in fr.fn['bmap'][h['header']]['insts']:
            if i['op'] != 'phi':
                break
            fr.env[i['id']] = self.havoc_val(st, i['ty'], 'phi')
        for (obj, off, ty) in W['priv']:
            if obj in st.priv:
                cells = st.priv[obj]
                sz = tsize(ty)
                for o in list(cells):
                    if o != off and o < off + sz and off < o + tsize(cells[o][0]):
                        del cells[o]
                cells[off] = (ty, self.havoc_val(st, ty, 'cell'))
        if W['alloc']:
            n = fresh('next')
            self.assume(st, n >= Z(st.next))
            # sizes/liveness of newly allocated ids are arbitrary
            sz = fresh('size', z3.ArraySort(I, I))
            al = fresh('alive', z3.ArraySort(I, B))
            k = z3.Int('k!obj')
            st.pc.append(z3.ForAll([k], z3.Implies(k < Z(st.next), z3.Select(sz, k) == z3.Select(st.size, k)), patterns=[z3.Select(sz, k)]))
            if not W['free']:
                st.pc.append(z3.ForAll([k], z3.Implies(k < Z(st.next), z3.Select(al, k) == z3.Select(st.alive, k)), patterns=[z3.Select(al, k)]))
            else:
                # only heap blocks can be released: stack objects of the frames stay
                for o in set(st.priv) | st.escaped:
                    if isint(o) and o <= -1000000:
                        self.assume(st, z3.Select(al, o) == z3.Select(st.alive, o))
            st.size = sz
            st.alive = al
            st.next = n
        elif W['free']:
            st.alive = fresh('alive', z3.ArraySort(I, B))
        for kind in W['all']:
            self.memk(st, kind)
            if W.get('frame_all'):
                pass
            st.mem[kind] = fresh('mem_' + kind, z3.ArraySort(I, z3.ArraySort(I, KSORT[kind])))
        for kind, d in W['mem'].items():
            if kind in W['all']:
                continue
            for obj in d.values():
                self.inner_havoc(st, kind, obj)
        for g in W.get('ghost', ()):
            st.ghost[g] = fresh('ghost_' + g, Z(st.ghost[g]).sort())

    def loc_ty(self, fr, aid, off):
        key = (aid, off)
        c = fr.fn.setdefault('locty', {})
        if key not in c:
            t = None
            for b in fr.fn['blocks']:
                for i in b['insts']:
                    if i['op'] == 'store' and strip_proms(fr.fn, i['ops'][1]) == key:
                        t = i['oty']
            c[key] = t
        return c[key]

    def havoc_like(self, st, old, name, ty):
        return self.havoc_val(st, ty, name)

    # instructions ------------------------------------------------------------
    def step(self, st, fr, i):
        op = i['op']
        m = getattr(self, 'op_' + op, None)
        if m is None:
            raise Unsupported('instruction %s in %s' % (op, fr.fn['dname'][:80]))
        return m(st, fr, i)

    def op_alloca(self, st, fr, i):
        if i['prom']:
            return
        cnt = self.val(fr, i['count'])
        n = mul(cnt, i['esize'])
        o = -1000000 - next(self.stackid)
        if i['id'] in fr.env and isint(cnt):
            # re-executed (loop): reuse fresh id
            pass
        st.size = z3.Store(st.size, Z(o), Z(n))
        st.alive = z3.Store(st.alive, Z(o), True)
        fr.env[i['id']] = Ptr(o, 0)
        if isint(n):
            self.privsize[o] = n
        if isint(cnt):
            st.priv[o] = {}

    def getloc(self, st, fr, ptrop):
        return strip_proms(fr.fn, ptrop)

    def op_load(self, st, fr, i):
        r = self.getloc(st, fr, i['ops'][0])
        if r:
            v = fr.loc.get(r)
            if v is None:
                v = self.havoc_val(st, i['ty'], 'uninit')
                fr.loc[r] = v
            t = self.loc_ty(fr, *r)
            if t is not None and t != i['ty'] and not (t == 'i8' and i['ty'] == 'i1'):
                if {t, i['ty']} <= {'ptr', 'i64'}:
                    v = self.coerce(st, v, t, i['ty'])
                else:
                    v = self.bitcast(st, v, t, i['ty'])
            fr.env[i['id']] = v
            return
        p = self.val(fr, i['ops'][0])
        self.bounds(st, p, i['size'], i.get('line'), 'load')
        t = i['ty']
        if isinstance(t, dict) and 'struct' in t:
            fr.env[i['id']] = Agg([self.raw_load(st, p.addoff(Lin(off)), ft) for off, ft in flat_fields(t, top=True)])
            return
        if t == 'i1':
            fr.env[i['id']] = self.tobool(self.raw_load(st, p, 'i8'))
            return
        fr.env[i['id']] = self.raw_load(st, p, t)

    def op_store(self, st, fr, i):
        v = self.val(fr, i['ops'][0])
        r = self.getloc(st, fr, i['ops'][1])
        if r:
            if v is UNDEF:
                v = self.havoc_val(st, i['oty'], 'undef')
            if self.opts.get('name_products') and z3.is_expr(v) and v.sort() == I and has_product(v):
                e = fresh('named')
                self.assume(st, e == v)
                v = e
            fr.loc[r] = v
            # overlapping cells of other sizes are killed
            for k in [k for k in fr.loc if k[0] == r[0] and k != r and k[1] < r[1] + i['size'] and r[1] < k[1] + 1]:
                if k[1] != r[1]:
                    del fr.loc[k]
            return
        p = self.val(fr, i['ops'][1])
        self.bounds(st, p, i['size'], i.get('line'), 'store')
        self.raw_store(st, p, i['oty'], v)

    def bounds(self, st, p, n, line, what):
        if not isinstance(p, Ptr):
            raise Unsupported('memory access through non-pointer')
        if isint(p.obj) and (p.obj in st.priv):
            co = p.off.const()
            cap = self.privsize.get(p.obj)
            if co is not None and (cap is None or (0 <= co and co + n <= cap)):
                return
        if not self.opts['bounds']:
            return
        g = self.const_global(p.obj)
        if g is not None and p.off.const() is not None and 0 <= p.off.const() and p.off.const() + n <= g['size']:
            return
        off = p.off.expr()
        goal = z3.And(z3.Select(st.alive, Z(p.obj)), Z(off) >= 0, Z(add(off, n)) <= z3.Select(st.size, Z(p.obj)))
        self.oblige(st, 'memory-safety', '%s line %s' % (what, self.rel(line)), goal, line)

    def rel(self, line):
        """line relative to the function start: stable under edits elsewhere"""
        if line is None:
            return '?'
        return '+%d' % (line - self.curfn.get('line', 0))

    def op_getelementptr(self, st, fr, i):
        if strip_proms(fr.fn, {'k': 'v', 'id': i['id']}):
            return
        p = self.val(fr, i['base'])
        if not isinstance(p, Ptr):
            if isint(p) and p == 0:
                p = NULL
            else:
                raise Unsupported('gep on non-pointer')
        l = Lin(i['off'])
        for x in i['var']:
            l = l + Lin.of(self.toint(st, self.val(fr, x['v'])), x['s'])
        fr.env[i['id']] = p.addoff(l)

    def bin(self, st, fr, i):
        t = i['ty']
        if not isinstance(t, str) or t[0] != 'i':
            raise Unsupported('vector arithmetic')
        a = self.toint(st, self.val(fr, i['ops'][0]), t)
        b = self.toint(st, self.val(fr, i['ops'][1]), t)
        return a, b, width(t)

    def arith(self, st, fr, i, r, w, name):
        if isint(r):
            fr.env[i['id']] = self.wrap(st, r, w)
            return
        if i.get('nsw'):
            mode = self.opts['overflow']
            ok = signed_range(r, w)
            if mode == 'check':
                if not self.prove(st, ok):
                    self.oblige(st, 'no-overflow', '%s line %s' % (name, self.rel(i.get('line'))), ok, i.get('line'))
            else:
                self.assume(st, ok)
            fr.env[i['id']] = r
            return
        if self.opts.get('unsigned_nowrap'):
            self.assume(st, signed_range(r, w))
            fr.env[i['id']] = r
            return
        fr.env[i['id']] = self.wrap(st, r, w, 'addsub' if name in ('add', 'sub') else None)

    def op_add(self, st, fr, i):
        a, b, w = self.bin(st, fr, i)
        if isinstance(a, Ptr):
            raise Unsupported('ptr add')
        self.arith(st, fr, i, add(a, b), w, 'add')

    def op_sub(self, st, fr, i):
        a, b, w = self.bin(st, fr, i)
        self.arith(st, fr, i, sub(a, b), w, 'sub')

    def op_mul(self, st, fr, i):
        a, b, w = self.bin(st, fr, i)
        self.arith(st, fr, i, mul(a, b), w, 'mul')

    def op_shl(self, st, fr, i):
        a, b, w = self.bin(st, fr, i)
        if isint(b):
            if not 0 <= b < w:
                raise Unsupported('shift amount')
            self.arith(st, fr, i, mul(a, 1 << b), w, 'mul')
            return
        self.bvop(st, fr, i, a, b, w, lambda x, y: x << y)

    def divop(self, st, fr, i, signed, rem):
        a, b, w = self.bin(st, fr, i)
        bz = Z(b)
        self.oblige(st, 'no-div-by-zero', 'line %s' % self.rel(i.get('line')), norm(bz != 0), i.get('line'))
        if not signed:
            a = self.unsigned(st, a, w)
            b = self.unsigned(st, b, w)
        if isint(a) and isint(b):
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = a - q * b
            fr.env[i['id']] = self.wrap(st, r if rem else q, w)
            return
        a, b = Z(a), Z(b)
        if self.prove(st, z3.And(a >= 0, b > 0)):
            r = a % b if rem else a / b
        else:
            aa = z3.If(a < 0, -a, a)
            bb = z3.If(b < 0, -b, b)
            q = aa / bb
            q = z3.If((a < 0) != (b < 0), -q, q)
            r = a - q * b if rem else q
        r = norm(r)
        fr.env[i['id']] = r if (isint(r) or signed) else self.wrap(st, r, w)

    def op_sdiv(self, st, fr, i):
        # exact pointer difference: (addr(o)+x) - (addr(o)+y) simplified already
        self.divop(st, fr, i, True, False)

    def op_udiv(self, st, fr, i):
        self.divop(st, fr, i, False, False)

    def op_srem(self, st, fr, i):
        self.divop(st, fr, i, True, True)

    def op_urem(self, st, fr, i):
        self.divop(st, fr, i, False, True)

    def bvop(self, st, fr, i, a, b, w, f):
        x = z3.Int2BV(Z(a), w)
        y = z3.Int2BV(Z(b), w)
        r = z3.BV2Int(f(x, y), is_signed=True)
        fr.env[i['id']] = r

    def bitop(self, st, fr, i, f, bf, pf):
        t = i['ty']
        a = self.val(fr, i['ops'][0])
        b = self.val(fr, i['ops'][1])
        if t == 'i1':
            a, b = self.tobool(a), self.tobool(b)
            fr.env[i['id']] = norm(bf(Z(a), Z(b)))
            return
        a = self.toint(st, a, t)
        b = self.toint(st, b, t)
        if isint(a) and isint(b):
            fr.env[i['id']] = self.wrap(st, pf(a, b), width(t))
            return
        if i['op'] == 'and':
            for x, y in ((a, b), (b, a)):
                if isint(y) and y >= 0 and (y & (y + 1)) == 0:  # low mask
                    q = self._lshr.get(x.get_id()) if not isint(x) else None
                    if q is not None and q[2] + y.bit_length() <= q[3]:
                        x = Z(q[1]) / (1 << q[2])
                    fr.env[i['id']] = norm(Z(x) % (y + 1))
                    return
                if isint(y) and y > 0:
                    lo = y & -y
                    if ((y // lo) & (y // lo + 1)) == 0:  # contiguous mask
                        fr.env[i['id']] = norm(((Z(x) / lo) % (y // lo + 1)) * lo)
                        return
        if i['op'] == 'or':
            for x, y in ((a, b), (b, a)):
                if isint(y) and y > 0 and (y & (y - 1)) == 0:  # set one bit
                    fr.env[i['id']] = norm(Z(x) + y * (1 - (Z(x) / y) % 2))
                    return
            if self.opts.get('orfields') and not isint(a) and not isint(b):
                # facts about a bitwise or, field by field
                r = fresh('or')
                self.assume(st, signed_range(r, width(t)))
                for pos, n in self.opts['orfields']:
                    fx, fy, fz = [(Z(q) / (1 << pos)) % (1 << n) for q in (a, b, r)]
                    if n == 1:
                        self.assume(st, fz == z3.If(z3.Or(fx == 1, fy == 1), z3.IntVal(1), z3.IntVal(0)))
                    else:
                        self.assume(st, z3.Implies(fx == fy, fz == fx))
                fr.env[i['id']] = r
                return
        if i['op'] == 'xor' and isint(b) and b == -1:
            fr.env[i['id']] = norm(-Z(a) - 1)
            return
        self.bvop(st, fr, i, a, b, width(t), f)

    def op_and(self, st, fr, i):
        self.bitop(st, fr, i, lambda x, y: x & y, z3.And, lambda x, y: x & y)

    def op_or(self, st, fr, i):
        self.bitop(st, fr, i, lambda x, y: x | y, z3.Or, lambda x, y: x | y)

    def op_xor(self, st, fr, i):
        self.bitop(st, fr, i, lambda x, y: x ^ y, z3.Xor, lambda x, y: x ^ y)

    def op_lshr(self, st, fr, i):
        a, b, w = self.bin(st, fr, i)
        if isint(b):
            ua = self.unsigned(st, a, w)
            r = ua >> b if isint(ua) else norm(Z(ua) / (1 << b))
            r = fr.env[i['id']] = self.wrap(st, r, w)
            if not isint(r):
                self._lshr[r.get_id()] = (r, a, b, w)
            return
        self.bvop(st, fr, i, a, b, w, z3.LShR)

    def op_ashr(self, st, fr, i):
        a, b, w = self.bin(st, fr, i)
        if isint(b):
            fr.env[i['id']] = a >> b if isint(a) else norm(Z(a) / (1 << b))
            return
        self.bvop(st, fr, i, a, b, w, lambda x, y: x >> y)

    def op_icmp(self, st, fr, i):
        a = self.val(fr, i['ops'][0])
        b = self.val(fr, i['ops'][1])
        p = i['pred']
        if a is UNDEF or b is UNDEF:
            fr.env[i['id']] = fresh('undefcmp', B)
            return
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = a if isinstance(a, Ptr) else NULL
            b = b if isinstance(b, Ptr) else NULL
            e = ptr_eq(a, b)
            if p == 'eq':
                r = e
            elif p == 'ne':
                r = (not e) if isinstance(e, bool) else norm(z3.Not(e))
            else:
                ao, bo = Z(a.off.expr()), Z(b.off.expr())
                if not (isint(a.obj) and isint(b.obj) and a.obj == b.obj) and not self.prove(st, Z(a.obj) == Z(b.obj)):
                    raise Unsupported('relational comparison of unrelated pointers')
                r = norm({'ult': ao < bo, 'ule': ao <= bo, 'ugt': ao > bo, 'uge': ao >= bo}[p])
            fr.env[i['id']] = r
            return
        t = i['oty']
        if t == 'i1':
            a, b = self.tobool(a), self.tobool(b)
            e = norm(Z(a) == Z(b))
            if p == 'eq':
                fr.env[i['id']] = e
            elif p == 'ne':
                fr.env[i['id']] = norm(z3.Not(Z(e)))
            else:
                raise Unsupported('i1 compare')
            return
        w = width(t)
        a = self.toint(st, a, t)
        b = self.toint(st, b, t)
        if p[0] == 'u':
            a = self.unsigned(st, a, w)
            b = self.unsigned(st, b, w)
        a, b = Z(a), Z(b)
        q = p if p in ('eq', 'ne') else p[1:]
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
        fr.env[i['id']] = norm(r)

    def op_fcmp(self, st, fr, i):
        a = self.val(fr, i['ops'][0])
        b = self.val(fr, i['ops'][1])
        p = i['pred']
        if a.sort() == REAL:
            base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}
            fr.env[i['id']] = norm(z3.BoolVal(p in ('ord', 'true')) if p in ('ord', 'uno', 'true', 'false') else base[p[1:]])
            return
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT(a, b), 'gt': z3.fpGT(a, b),
                'le': z3.fpLEQ(a, b), 'ge': z3.fpGEQ(a, b)}
        if p == 'ord':
            r = z3.Not(un)
        elif p == 'uno':
            r = un
        elif p == 'true':
            r = z3.BoolVal(True)
        elif p == 'false':
            r = z3.BoolVal(False)
        elif p[0] == 'o':
            r = z3.And(z3.Not(un), base[p[1:]])
        else:
            r = z3.Or(un, base[p[1:]])
        fr.env[i['id']] = norm(r)

    def fbin(self, st, fr, i, name):
        a = self.val(fr, i['ops'][0])
        b = self.val(fr, i['ops'][1])
        if a.sort() == REAL:
            if name == 'div':
                self.oblige(st, 'arithmetic', 'division by zero line %s' % self.rel(i.get('line')), b != 0, i.get('line'))
            uf = self.opts.get('real_uf', ())
            isc = lambda x: z3.is_rational_value(z3.simplify(x))
            if name == 'mul' and 'mul' in uf and not (isc(a) or isc(b)):
                r = RMUL(a, b)
            elif name == 'div' and 'div' in uf:
                r = RDIV(a, b)
            else:
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[name]()
            fr.env[i['id']] = z3.simplify(r) if isc(r) else r
            return
        fr.env[i['id']] = fop(name, a, b, self.opts.get('fp', 'uf'))

    def op_fadd(self, st, fr, i):
        self.fbin(st, fr, i, 'add')

    def op_fsub(self, st, fr, i):
        self.fbin(st, fr, i, 'sub')

    def op_fmul(self, st, fr, i):
        self.fbin(st, fr, i, 'mul')

    def op_fdiv(self, st, fr, i):
        self.fbin(st, fr, i, 'div')

    def op_fneg(self, st, fr, i):
        x = self.val(fr, i['ops'][0])
        fr.env[i['id']] = -x if x.sort() == REAL else z3.fpNeg(x)

    def op_fpext(self, st, fr, i):
        if FSORT[i['ty']] == REAL:
            fr.env[i['id']] = self.val(fr, i['ops'][0])
            return
        fr.env[i['id']] = z3.fpFPToFP(z3.RNE(), self.val(fr, i['ops'][0]), FSORT[i['ty']])

    op_fptrunc = op_fpext

    def op_sitofp(self, st, fr, i):
        v = self.toint(st, self.val(fr, i['ops'][0]))
        if FSORT[i['ty']] == REAL:
            fr.env[i['id']] = z3.RealVal(v) if isint(v) else z3.ToReal(Z(v))
            return
        if isint(v):
            fr.env[i['id']] = z3.simplify(z3.fpRealToFP(z3.RNE(), z3.RealVal(v), FSORT[i['ty']]))
            return
        fr.env[i['id']] = i2f(FSORT[i['ty']])(Z(v))

    def op_uitofp(self, st, fr, i):
        t = i['oty']
        v = self.toint(st, self.val(fr, i['ops'][0]))
        v = self.unsigned(st, v, width(t)) if t != 'i1' else v
        if FSORT[i['ty']] == REAL:
            fr.env[i['id']] = z3.RealVal(v) if isint(v) else z3.ToReal(Z(v))
            return
        if isint(v):
            fr.env[i['id']] = z3.simplify(z3.fpRealToFP(z3.RNE(), z3.RealVal(v), FSORT[i['ty']]))
            return
        fr.env[i['id']] = i2f(FSORT[i['ty']])(Z(v))

    def op_fptosi(self, st, fr, i):
        x = self.val(fr, i['ops'][0])
        if x.sort() == REAL:
            v = fresh('fptosi')
            self.assume(st, v == z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
            self.oblige(st, 'arithmetic', 'conversion in range line %s' % self.rel(i.get('line')), signed_range(v, width(i['ty'])), i.get('line'))
            fr.env[i['id']] = v
            return
        v = f2i(self.val(fr, i['ops'][0]).sort())(self.val(fr, i['ops'][0]))
        self.assume(st, signed_range(v, width(i['ty'])))
        fr.env[i['id']] = v

    def op_fptoui(self, st, fr, i):
        x = self.val(fr, i['ops'][0])
        if x.sort() == REAL:
            v = fresh('fptoui')
            self.assume(st, v == z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
            self.oblige(st, 'arithmetic', 'conversion in range line %s' % self.rel(i.get('line')), And(v >= 0, v < (1 << width(i['ty']))), i.get('line'))
            fr.env[i['id']] = v
            return
        v = f2u(x.sort())(x)
        self.assume(st, z3.And(v >= 0, v < (1 << width(i['ty']))))
        fr.env[i['id']] = self.wrap(st, v, width(i['ty']))

    def op_sext(self, st, fr, i):
        v = self.val(fr, i['ops'][0])
        if i['oty'] == 'i1':
            fr.env[i['id']] = norm(-Z(self.b2i(v)))
        else:
            fr.env[i['id']] = self.toint(st, v, i['oty'])

    def op_zext(self, st, fr, i):
        v = self.val(fr, i['ops'][0])
        if i['oty'] == 'i1':
            fr.env[i['id']] = self.b2i(self.tobool(v))
        else:
            fr.env[i['id']] = self.unsigned(st, self.toint(st, v, i['oty']), width(i['oty']))

    def op_trunc(self, st, fr, i):
        v = self.toint(st, self.val(fr, i['ops'][0]), i['oty'])
        if i['ty'] == 'i1':
            # booleans stored as i8: odd test
            if isint(v):
                fr.env[i['id']] = bool(v & 1)
            elif self.prove(st, z3.And(v >= 0, v <= 1)):
                fr.env[i['id']] = norm(v == 1)
            else:
                fr.env[i['id']] = norm(v % 2 == 1)
            return
        fr.env[i['id']] = self.wrap(st, v, width(i['ty']))

    def op_bitcast(self, st, fr, i):
        v = self.val(fr, i['ops'][0])
        fr.env[i['id']] = self.bitcast(st, v, i['oty'], i['ty'])

    def bitcast(self, st, v, a, b):
        if a == b:
            return v
        raise Unsupported('bitcast %s to %s' % (a, b))

    def op_freeze(self, st, fr, i):
        fr.env[i['id']] = self.val(fr, i['ops'][0])

    def op_ptrtoint(self, st, fr, i):
        fr.env[i['id']] = self.ptrtoint(self.val(fr, i['ops'][0]))

    def op_inttoptr(self, st, fr, i):
        v = self.val(fr, i['ops'][0])
        if isint(v) and v == 0:
            fr.env[i['id']] = NULL
            return
        raise Unsupported('inttoptr')

    def op_select(self, st, fr, i):
        c = self.tobool(self.val(fr, i['ops'][0]))
        a = self.val(fr, i['ops'][1])
        b = self.val(fr, i['ops'][2])
        if isinstance(c, bool):
            fr.env[i['id']] = a if c else b
            return
        if isinstance(a, (Ptr, Agg)) or isinstance(b, (Ptr, Agg)) or a is UNDEF or b is UNDEF:
            return self.fork(st, [(c, lambda s, f: f.env.__setitem__(i['id'], a)), (z3.Not(c), lambda s, f: f.env.__setitem__(i['id'], b))])
        if i['ty'] == 'i1':
            fr.env[i['id']] = norm(z3.If(c, Z(self.tobool(a)), Z(self.tobool(b))))
        else:
            fr.env[i['id']] = norm(z3.If(c, Z(a), Z(b)))

    def op_extractvalue(self, st, fr, i):
        v = self.val(fr, i['ops'][0])
        for k in i['idx']:
            v = v.e[k]
        fr.env[i['id']] = v

    def op_insertvalue(self, st, fr, i):
        v = self.val(fr, i['ops'][0])
        x = self.val(fr, i['ops'][1])

        def ins(a, idx):
            if not idx:
                return x
            e = list(a.e)
            e[idx[0]] = ins(e[idx[0]], idx[1:])
            return Agg(e)
        fr.env[i['id']] = ins(v, i['idx'])

    def op_unreachable(self, st, fr, i):
        return False

    def fork(self, st, branches):
        """explore every feasible branch; branches: (cond, action(state, frame))"""
        live = []
        for c, act in branches:
            c = norm(Z(c))
            if c is False:
                continue
            if c is True:
                live = [(c, act)]
                break
            if self.feasible(st, c):
                live.append((c, act))
        for n, (c, act) in enumerate(live):
            s2 = st.clone() if n + 1 < len(live) else st
            if c is not True:
                self.assume(s2, c)
            act(s2, s2.frames[-1])
            if n + 1 < len(live):
                self.run(s2)
            else:
                return True  # continue in place
        return False

    def op_br(self, st, fr, i):
        if 'cond' not in i:
            return self.jump(st, fr, i['succ'][0])
        c = self.tobool(self.val(fr, i['cond']))
        t, f = i['succ']
        if isinstance(c, bool):
            return self.jump(st, fr, t if c else f)
        live = []
        for cond, b in ((c, t), (norm(z3.Not(c)), f)):
            if self.feasible(st, cond):
                live.append((cond, b))
        if len(live) == 2 and self.opts.get('merge'):
            j = self.join_block(fr.fn, fr.blk)
            if j is not None:
                return self.branch_merged(st, fr, live, j)
        self.npaths += len(live) - 1
        if self.npaths > self.opts['max_paths']:
            raise Unsupported('too many paths')
        for n, (cond, b) in enumerate(live):
            last = n + 1 == len(live)
            s2 = st if last else st.clone()
            self.assume(s2, Z(cond))
            if last:
                return self.jump(s2, s2.frames[-1], b)
            if self.jump(s2, s2.frames[-1], b) is not False:
                self.run(s2)
        return False

    def jump(self, st, fr, b):
        cut = getattr(st, 'cut', None)
        if self.dry and cut is not None and cut[0] == len(st.frames) - 1 and b not in cut[1]:
            return False
        self.goto(st, fr, b)
        return True

    def op_switch(self, st, fr, i):
        v = self.val(fr, i['cond'])
        if isint(v):
            for c in i['cases']:
                if int(c['v']) == v:
                    return self.jump(st, fr, c['bb'])
            return self.jump(st, fr, i['default'])
        br = []
        byb = {}
        for c in i['cases']:
            byb.setdefault(c['bb'], []).append(int(c['v']))
        allv = [int(c['v']) for c in i['cases']]
        conds = [(z3.Or(*[v == x for x in vs]) if len(vs) > 1 else v == vs[0], b) for b, vs in byb.items()]
        conds.append((z3.And(*[v != x for x in allv]), i['default']))
        live = [(c, b) for c, b in conds if self.feasible(st, c)]
        self.npaths += max(0, len(live) - 1)
        for n, (c, b) in enumerate(live):
            s2 = st if n + 1 == len(live) else st.clone()
            self.assume(s2, c)
            if n + 1 == len(live):
                return self.jump(s2, s2.frames[-1], b)
            if self.jump(s2, s2.frames[-1], b) is not False:
                self.run(s2)
        return False

    def op_ret(self, st, fr, i):
        v = self.val(fr, i['ops'][0]) if i.get('ops') else None
        if len(st.frames) == 1:
            self.finish(st, v)
            return False
        cut = getattr(st, 'cut', None)
        if self.dry and cut is not None and cut[0] == len(st.frames) - 1:
            return False
        st.frames.pop()
        c = st.frames[-1]
        if fr.retid is not None:
            c.env[fr.retid] = v
        if fr.retblk is not None:
            return self.jump(st, c, fr.retblk)
        return True

    def finish(self, st, v):
        if self.dry:
            return
        self.nreturns += 1
        c = self.curc
        view = View(self, st, 0, self.args, old=self.old.seen_from(st))
        view.ret = v
        if c.lemmas:
            for l in c.lemmas(view):
                self.assume(st, Z(l))
        if c.post:
            for nm, g in c.post(view):
                self.oblige(st, 'post', nm, Z(g) if isinstance(g, bool) else g)
        if c.mods is not None:
            self.frame_obligations(st, c, view)
        if c.frees is not None:
            fo = fresh('anyobj')
            allowed = [Z(p.obj if isinstance(p, Ptr) else p) for p in c.frees(self.old)]
            hyp = z3.And(fo < self.N0, fo > -1000000, *[fo != a for a in allowed])
            self.oblige(st, 'frame', 'frees-only', z3.Implies(hyp, z3.Select(st.alive, fo) == z3.Select(self.st0.alive, fo)))
        if c.allocs is False and not c.trusted:
            if Z(st.next).get_id() != Z(self.N0).get_id():
                # allocated objects must have been released again
                fo = fresh('anyobj')
                self.oblige(st, 'frame', 'no-leak', z3.Implies(z3.And(fo >= self.N0, fo < Z(st.next)), z3.Not(z3.Select(st.alive, fo))))
        self.covers.append(('%s:return-reachable' % self.cur, list(st.pc)))

    def frame_obligations(self, st, c, view):
        fo = fresh('anyobj')
        for kind in list(st.mem):
            m1 = st.mem[kind]
            m0 = self.mem0(kind)
            if m1.get_id() == m0.get_id():
                continue
            allowed = []
            for mo in c.mods(self.old):
                if isinstance(mo, tuple):
                    p, kinds = mo
                else:
                    p, kinds = mo, None
                if kinds is not None and kind not in kinds:
                    continue
                allowed.append(Z(p.obj if isinstance(p, Ptr) else p))
            hyp = z3.And(fo < self.N0, fo > -1000000, *[fo != a for a in allowed])
            self.oblige(st, 'frame', 'writes-only-%s' % kind, z3.Implies(hyp, z3.Select(m1, fo) == z3.Select(m0, fo)))

    # calls -------------------------------------------------------------------
    def op_invoke(self, st, fr, i):
        r = self.do_call(st, fr, i, retblk=i['succ'][0])
        return r

    def op_call(self, st, fr, i):
        return self.do_call(st, fr, i, retblk=None)

    def do_call(self, st, fr, i, retblk):
        args = [self.val(fr, a) if a['k'] != 'md' else None for a in i['args']]
        name = i.get('callee')
        if name is None:
            p = self.val(fr, i['callptr'])
            if isinstance(p, Ptr) and isint(p.obj) and p.obj in self.m.byid:
                name = self.m.byid[p.obj]
            else:
                h = self.opts.get('indirect')
                if h is None:
                    raise Unsupported('indirect call')
                ret = h(self, st, fr, i, p, args)
                return self.endcall(st, fr, i, ret, retblk)
        dn = self.m.fns[name]['dname'] if name in self.m.fns else self.m.decls.get(name, name)
        short = dn.split('(')[0]
        # 1. models / builtins
        for key in (name, dn, short):
            if key in self.models:
                ret = self.models[key](self, st, fr, i, args)
                if ret is False:
                    return False
                self.trusted_used.add(key)
                return self.endcall(st, fr, i, ret, retblk)
        for pfx, mdl in self.models.items():
            if pfx.endswith('*') and (name.startswith(pfx[:-1]) or dn.startswith(pfx[:-1])):
                ret = mdl(self, st, fr, i, args)
                if ret is False:
                    return False
                self.trusted_used.add(pfx)
                return self.endcall(st, fr, i, ret, retblk)
        # 2. contract
        c = self.cmap.get(name)
        if c is not None and name not in [f['name'] for f in ()] and not (c is self.curc and self.opts.get('norec')) and c.fn not in self.curc.inline:
            if c.xpost is not None:
                s2 = st.clone()
                self.apply_contract(s2, s2.frames[-1], i, c, name, args, exc=True)
                if retblk is None:
                    self.throw(s2, i)
                elif self.jump(s2, s2.frames[-1], i['succ'][1]) is not False:
                    self.run(s2)
            ret = self.apply_contract(st, fr, i, c, name, args)
            if ret is False:
                return False
            return self.endcall(st, fr, i, ret, retblk)
        # 3. inline
        f = self.m.fns.get(name)
        if f is None:
            raise Unsupported('call to external function %s' % dn)
        if len(st.frames) > self.opts['maxinline'] or any(x.fn is f for x in st.frames):
            raise Unsupported('recursive/deep inline of %s' % dn)
        self.inlined.add(name)
        nf = Frame(f, next(self.uid))
        for p, a in zip(f['params'], args):
            if 'byval' in p:
                a2 = self.copy_byval(st, a, p['byval'])
                nf.env[p['id']] = a2
            else:
                nf.env[p['id']] = a
        nf.retid = i.get('id')
        nf.retblk = retblk
        st.frames.append(nf)
        return True

    def copy_byval(self, st, p, n):
        o = -1000000 - next(self.stackid)
        st.size = z3.Store(st.size, Z(o), Z(n))
        st.alive = z3.Store(st.alive, Z(o), True)
        st.priv[o] = {}
        q = Ptr(o, 0)
        self.memcpy(st, q, p, n)
        return q

    def endcall(self, st, fr, i, ret, retblk):
        if ret is False:
            return False
        fr = st.frames[-1]
        if 'id' in i:
            if ret is None:
                ret = self.havoc_val(st, i['ty'], 'ret')
            fr.env[i['id']] = ret
        if retblk is not None:
            return self.jump(st, fr, retblk)
        return True

    def throw(self, st, i):
        """the function under verification ends by an exception"""
        if len(st.frames) > 1:
            raise Unsupported('exception out of an inlined function')
        h = self.curc.xpost or self.opts.get('throw')
        for nm, c in (h(View(self, st, 0, self.args, old=self.old)) if h else []):
            self.oblige(st, 'on-exception', nm, c, i.get('line'))
        return False

    def op_landingpad(self, st, fr, i):
        fr.env[i['id']] = Agg([self.havoc_val(st, 'ptr', 'exc'), 1])

    def op_resume(self, st, fr, i):
        return self.throw(st, i)

    def apply_contract(self, st, fr, i, c, name, args, exc=False):
        f = self.m.fns.get(name)
        names = [p['name'] for p in f['params']] if f else (c.args or ['a%d' % k for k in range(len(args))])
        amap = dict(zip(names, args))
        for a in args:
            if isinstance(a, Ptr):
                self.expose(st, a.obj)
        short = (f['dname'] if f else self.m.decls.get(name, name)).split('(')[0].split('::')[-1]
        v0 = View(self, st, None, amap)
        for n, cond in enumerate(c.pre(v0) if c.pre and not exc else ()):
            self.oblige(st, 'call-pre', '%s.%d' % (short, n), cond, i.get('line'))
        old = st.clone()
        vold = View(self, old, None, amap)
        vold.also = st
        for mo in (c.mods(vold) if c.mods else ()):
            p, kinds = mo if isinstance(mo, tuple) else (mo, None)
            obj = p.obj if isinstance(p, Ptr) else p
            for k in (kinds or list(KSZ)):
                if kinds is None and k not in st.mem and k not in self._mem0:
                    pass
                self.record(st, Ptr(obj, 0), k)
                self.inner_havoc(st, k, obj)
        for g in c.ghosts:
            x = Z(st.ghost[g])
            st.ghost[g] = z3.Const('gh_%s!%d' % (g, next(self.uid)), x.sort())
            self.note(st, ('ghost', g))
        if c.frees is not None:
            fr_ = [p.obj if isinstance(p, Ptr) else p for p in c.frees(vold)]
            for o in fr_:
                st.alive = z3.Store(st.alive, Z(o), fresh('alive', B))
            if fr_:
                self.note(st, ('free',))
        if c.allocs:
            n = fresh('next')
            self.assume(st, n >= Z(st.next))
            sz = fresh('size', z3.ArraySort(I, I))
            al = fresh('alive', z3.ArraySort(I, B))
            k = z3.Int('k!obj')
            st.pc.append(z3.ForAll([k], z3.Implies(k < Z(st.next), z3.Select(sz, k) == z3.Select(st.size, k)), patterns=[z3.Select(sz, k)]))
            st.pc.append(z3.ForAll([k], z3.Implies(k < Z(st.next), z3.Select(al, k) == z3.Select(st.alive, k)), patterns=[z3.Select(al, k)]))
            st.size, st.alive, st.next = sz, al, n
            self.note(st, ('alloc',))
        ret = None
        if i['ty'] != 'void':
            ret = c.ret(self, st, amap) if c.ret else self.havoc_val(st, i['ty'], 'ret_' + short)
        v1 = View(self, st, None, amap, old=vold)
        v1.ret = ret
        if c.axioms:
            for l in c.axioms(v1):
                self.assume(st, Z(l))
        post = c.xpost if exc else c.post
        for nm, g in (post(v1) if post else ()):
            self.assume(st, Z(g))
        self.used.add(name)
        if c.trusted:
            self.trusted_used.add(c.fn)
        if c.noreturn:
            return False
        return ret

    def memcpy(self, st, d, s, n):
        cn = cst(n) if not isint(n) else n
        # small constant copies involving private objects: cell-wise
        if cn is not None and isint(s.obj) and s.obj in st.priv and s.off.const() is not None:
            so = s.off.const()
            cells = [(o, t, v) for o, (t, v) in st.priv[s.obj].items() if so <= o and o + tsize(t) <= so + cn]
            for o, t, v in sorted(cells, key=lambda x: x[0]):
                self.raw_store(st, d.addoff(Lin(o - so)), t, v)
            return
        if cn is not None and isint(d.obj) and d.obj in st.priv and d.off.const() is not None:
            g = self.const_global(s.obj)
            if g is not None and g.get('const') and 'init' in g and s.off.const() is not None:
                for off, t in flat_fields(g['ty'], top=False):
                    if s.off.const() <= off < s.off.const() + cn:
                        v = self.const_at(g['init'], off, t)
                        if v is None:
                            raise Unsupported('memcpy from constant')
                        self.raw_store(st, d.addoff(Lin(off - s.off.const())), t, v)
                return
            k = self.opts.get('copy_kinds', {}).get(cn)     # objects of this size are held in memory as this kind throughout
            if k is not None:
                self.raw_store(st, d, k, self.raw_load(st, s, k))
                return
            self.expose(st, d.obj)
        k = self.opts.get('copy_kinds', {}).get(cn)
        if k is not None:
            self.raw_store(st, d, k, self.raw_load(st, s, k))
            return
        self.expose(st, s.obj)
        self.expose(st, d.obj)
        snap = {k: self.memk(st, k) for k in KSZ if k in st.mem or k in self._mem0 or k in ('i64', 'po', 'px', 'i32', 'i8', 'f32')}
        for k, M in snap.items():
            sz = KSZ[k]
            self.record(st, d, k)
            nk = Lin.of(n).div(sz)
            dk = self.try_div(st, d, sz)
            sk = self.try_div(st, s, sz)
            if nk is None and cn is not None:
                # partial trailing element: over-approximated as unknown
                nk = cn // sz
                if d.off.const() != 0 or s.off.const() != 0:
                    pass
            if nk is None or dk is None or sk is None:
                self.inner_havoc(st, k, d.obj)
                continue
            if isint(nk) and nk <= 8 and isint(dk) and isint(sk):
                inn = z3.Select(st.mem[k], Z(d.obj))
                for q in range(nk):
                    inn = z3.Store(inn, dk + q, z3.Select(z3.Select(M, Z(s.obj)), sk + q))
                st.mem[k] = z3.Store(st.mem[k], Z(d.obj), inn)
                continue
            old = z3.Select(M, Z(d.obj))
            src = z3.Select(M, Z(s.obj))
            a = fresh('cpy_' + k, z3.ArraySort(I, KSORT[k]))
            q = z3.Int('k!cpy')
            hi = Z(add(dk, nk))
            body = z3.Select(a, q) == z3.If(z3.And(q >= Z(dk), q < hi), z3.Select(src, Z(q) + Z(sub(sk, dk))), z3.Select(old, q))
            body = z3.simplify(body)
            st.pc.append(z3.ForAll([q], body, patterns=[z3.Select(a, q)]))
            st.mem[k] = z3.Store(M, Z(d.obj), a)


def cstring(eng, p):
    """the text of a constant string, or None"""
    g = eng.const_global(p.obj) if isinstance(p, Ptr) else None
    init = (g or {}).get('init') or {}
    e = init.get('elems')
    if init.get('k') == 'zero' and p.off.const() == 0:
        return ''
    if not e or p.off.const() is None:
        return None
    b = bytes(int(x.get('v', 0)) % 256 for x in e)[p.off.const():]
    return b.split(b'\0')[0].decode('latin1')


def norm_sel(e):
    return z3.simplify(e)


def tsize(t):
    if isinstance(t, str):
        return {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'half': 2, 'ptr': 8, 'i128': 16}[t]
    if 'struct' in t:
        o = 0
        ma = 1
        for e in t['struct']:
            a = talign(e)
            ma = max(ma, a)
            o = (o + a - 1) // a * a + tsize(e)
        return (o + ma - 1) // ma * ma
    if 'array' in t:
        return t['array'] * t['stride']
    raise Unsupported('sizeof %s' % (t,))


def talign(t):
    if isinstance(t, str):
        return tsize(t)
    if 'struct' in t:
        return max([talign(e) for e in t['struct']] or [1])
    return talign(t['elem'])


def flat_fields(t, top=False, base=0):
    """(offset, scalar type) of every leaf; top=True: only first-level fields"""
    if isinstance(t, str):
        return [(base, t)]
    r = []
    if 'struct' in t:
        o = 0
        for e in t['struct']:
            a = talign(e)
            o = (o + a - 1) // a * a
            if top:
                r.append((base + o, e))
            else:
                r += flat_fields(e, False, base + o)
            o += tsize(e)
        return r
    if 'array' in t:
        for n in range(t['array']):
            if top:
                r.append((base + n * t['stride'], t['elem']))
            else:
                r += flat_fields(t['elem'], False, base + n * t['stride'])
        return r
    raise Unsupported('fields of %s' % (t,))


def is_fresh_since(obj, base):
    if isint(obj):
        return False
    st = [obj]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) > base:
                        return True
                except ValueError:
                    pass
        st.extend(x.children())
    return False


def is_alloc_in(obj, s2, st):
    """object allocated inside the iteration: id is next + const"""
    n = obj
    st_ = [n]
    while st_:
        x = st_.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not x.decl().name().startswith('next'):
                return False
        elif not (z3.is_add(x) or z3.is_int_value(x)):
            return False
        st_.extend(x.children())
    return True


_fops = {}


def fop(name, a, b, mode):
    if mode == 'ieee':
        return {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[name](z3.RNE(), a, b)
    s = a.sort()
    k = (name, str(s))
    if k not in _fops:
        _fops[k] = z3.Function('f%s_%d' % (name, s.ebits()), s, s, s)
    return _fops[k](a, b)


def i2f(s):
    k = ('i2f', str(s))
    if k not in _fops:
        _fops[k] = z3.Function('int_to_f%d' % s.ebits(), I, s)
    return _fops[k]


def f2i(s):
    k = ('f2i', str(s))
    if k not in _fops:
        _fops[k] = z3.Function('f%d_to_int' % s.ebits(), s, I)
    return _fops[k]


def f2u(s):
    k = ('f2u', str(s))
    if k not in _fops:
        _fops[k] = z3.Function('f%d_to_uint' % s.ebits(), s, I)
    return _fops[k]


# ------------------------------------------------------------------ builtins
def b_malloc(eng, st, fr, i, a):
    n = a[0]
    maynull = eng.opts.get('malloc_may_fail', True)
    if maynull:
        s2 = st.clone()
        eng.assume(s2, fresh('malloc_fails', B))
        f2 = s2.frames[-1]
        f2.env[i['id']] = NULL
        eng.run(s2) if not (i['op'] == 'invoke') else None
    nn = n
    if not isint(n):
        nn = eng.unsigned(st, n, 64)
    return eng.alloc(st, nn)


def b_calloc(eng, st, fr, i, a):
    if eng.opts.get('malloc_may_fail', True):
        s2 = st.clone()
        eng.assume(s2, fresh('calloc_fails', B))
        s2.frames[-1].env[i['id']] = NULL
        eng.run(s2)
    n = mul(a[0], a[1])
    if not isint(n):
        n = eng.unsigned(st, n, 64)
    return eng.alloc(st, n, zero=True)


def b_free(eng, st, fr, i, a):
    p = a[0]
    if isint(p.obj) and p.obj == 0:
        return None
    goal = z3.Or(Z(p.obj) == 0, z3.And(z3.Select(st.alive, Z(p.obj)), Z(p.off.expr()) == 0, Z(p.obj) > 0))
    eng.oblige(st, 'memory-safety', 'free of a live block line %s' % eng.rel(i.get('line')), goal, i.get('line'))
    st.alive = z3.Store(st.alive, Z(p.obj), False)
    eng.note(st, ('free',))
    return None


def b_assert_fail(eng, st, fr, i, a):
    if eng.opts['asserts'] == 'check':
        eng.oblige(st, 'assertion', 'line %s' % eng.rel(i.get('line')), z3.BoolVal(False), i.get('line'))
    return False


def b_abort(eng, st, fr, i, a):
    if eng.opts.get('abort', 'check') == 'check':
        eng.oblige(st, 'no-abort', 'line %s' % eng.rel(i.get('line')), z3.BoolVal(False), i.get('line'))
    return False


def b_memcpy(eng, st, fr, i, a):
    d, s, n = a[0], a[1], a[2]
    if not isint(n):
        n = eng.unsigned(st, n, 64)
    if eng.opts['bounds'] and not (isint(n) and n == 0):
        for p, w in ((d, 'memcpy destination'), (s, 'memcpy source')):
            if isint(p.obj) and p.obj in st.priv:
                continue
            off = p.off.expr()
            goal = z3.Or(Z(n) == 0, z3.And(z3.Select(st.alive, Z(p.obj)), Z(off) >= 0, Z(add(off, n)) <= z3.Select(st.size, Z(p.obj))))
            eng.oblige(st, 'memory-safety', '%s line %s' % (w, eng.rel(i.get('line'))), goal, i.get('line'))
    eng.memcpy(st, d, s, n)
    return d


def b_memset(eng, st, fr, i, a):
    d, v, n = a[0], a[1], a[2]
    if not isint(v) or v != 0:
        raise Unsupported('memset of non-zero')
    if isint(n) and isint(d.obj) and d.obj in st.priv and d.off.const() is not None:
        o = d.off.const()
        cells = st.priv[d.obj]
        aty = None
        for fi in fr.fn['allocas'].values():
            if fr.env.get(fi['id']) is not None and isinstance(fr.env[fi['id']], Ptr) and fr.env[fi['id']].obj == d.obj:
                aty = fi['aty']
        if aty is not None:
            for off, t in flat_fields(aty):
                if o <= off < o + n:
                    eng.raw_store(st, Ptr(d.obj, off), t, eng.zero_of(t))
            return d
    if not isint(n):
        n = eng.unsigned(st, n, 64)
    eng.expose(st, d.obj)
    goal = z3.Or(Z(n) == 0, z3.And(z3.Select(st.alive, Z(d.obj)), Z(d.off.expr()) >= 0, Z(add(d.off.expr(), n)) <= z3.Select(st.size, Z(d.obj))))
    eng.oblige(st, 'memory-safety', 'memset line %s' % eng.rel(i.get('line')), goal, i.get('line'))
    for k in list(KSZ):
        M = eng.memk(st, k)
        eng.record(st, d, k)
        nk = Lin.of(n).div(KSZ[k])
        dk = d.off.div(KSZ[k])
        if nk is None or dk is None:
            eng.inner_havoc(st, k, d.obj)
            continue
        old = z3.Select(M, Z(d.obj))
        arr = fresh('set_' + k, z3.ArraySort(I, KSORT[k]))
        q = z3.Int('k!set')
        zero = z3.IntVal(0) if KSORT[k] == I else fzero(KSORT[k])
        st.pc.append(z3.ForAll([q], z3.Select(arr, q) == z3.If(z3.And(q >= Z(dk), q < Z(add(dk, nk))), zero, z3.Select(old, q)), patterns=[z3.Select(arr, q)]))
        st.mem[k] = z3.Store(M, Z(d.obj), arr)
    return d


def b_nop(eng, st, fr, i, a):
    return None


def b_stacksave(eng, st, fr, i, a):
    return Ptr(-999999, 0)


def b_io(eng, st, fr, i, a):
    """output only: returns an arbitrary value, no effect on modelled memory"""
    return None


_A8 = z3.ArraySort(I, I)
STRCMP = z3.Function('STRCMP', _A8, I, _A8, I, I, I)


def b_strcmp(eng, st, fr, i, a):
    """text comparison: an uninterpreted function of the contents"""
    n = a[2] if len(a) > 2 else -1
    M = eng.memk(st, 'i8')
    for p in a[:2]:
        eng.expose(st, p.obj)
        eng.oblige(st, 'memory-safety', 'comparison of a null string line %s' % eng.rel(i.get('line')), Z(p.obj) != 0, i.get('line'))
    M = eng.memk(st, 'i8')
    r = STRCMP(M[Z(a[0].obj)], Z(a[0].off.expr()), M[Z(a[1].obj)], Z(a[1].off.expr()), Z(n))
    eng.assume(st, signed_range(r, 32))
    return r


def b_expect(eng, st, fr, i, a):
    return a[0]


def b_smax(eng, st, fr, i, a):
    return norm(z3.If(Z(a[0]) > Z(a[1]), Z(a[0]), Z(a[1])))


def b_smin(eng, st, fr, i, a):
    return norm(z3.If(Z(a[0]) < Z(a[1]), Z(a[0]), Z(a[1])))


BUILTINS = {
    'malloc': b_malloc, 'calloc': b_calloc, 'free': b_free, '__assert_fail': b_assert_fail, 'abort': b_abort,
    'exit': b_abort,
    'llvm.memcpy.*': b_memcpy, 'llvm.memmove.*': b_memcpy, 'memcpy': b_memcpy, 'memmove': b_memcpy,
    'llvm.memset.*': b_memset, 'memset': b_memset,
    'llvm.stacksave*': b_stacksave, 'llvm.stackrestore*': b_nop, 'llvm.expect.*': b_expect,
    'llvm.dbg.*': b_nop, 'fprintf': b_io, 'printf': b_io, 'perror': b_io, 'puts': b_io, 'fflush': b_io, 'strcmp': b_strcmp, 'strncmp': b_strcmp,
    'llvm.smax.*': b_smax, 'llvm.smin.*': b_smin, 'llvm.trap': b_assert_fail,
}
