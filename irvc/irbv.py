"""Bit-precise contract verification of functions whose loops are fixed by their contract's constants.

Same extraction as irvc (clang -O0 -> irdump).  Integers are bit-vectors, floats IEEE (SMT FP theory,
round to nearest even), pointers have concrete objects and offsets.  Every path of the function under contract
is executed symbolically for ALL values of its inputs; a loop is followed only while its exit condition is decided
by constants (otherwise the function is reported out of reach).  Obligations: posts, asserts, signed overflow,
shift range, division, bounds, out-of-range float to integer conversions."""
import os, time, subprocess, tempfile, itertools, multiprocessing as mp
import z3
from irvc import Unsupported, Module, width
import frontend

FS = {'float': z3.Float32(), 'double': z3.Float64(), 'half': z3.Float16()}
FW = {'float': 32, 'double': 64, 'half': 16}
RNE = z3.RNE()
_n = itertools.count()


def S(e):
    return z3.simplify(e) if z3.is_expr(e) else e


class P:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'P(%s,%s)' % (self.obj, self.off)


NUL = P(0, 0)


def fresh(name, w):
    return z3.BitVec('%s!%d' % (name, next(_n)), w)


def nbytes(t):
    if t == 'ptr':
        return 8
    if t in FW:
        return FW[t] // 8
    if isinstance(t, str):
        return max(1, (width(t) + 7) // 8)
    raise Unsupported('bv access of type %s' % (t,))


def fpbits(v):
    # a float that is a reinterpreted bit pattern keeps that pattern (also for NaN)
    if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)):
        return v.arg(0)
    return z3.fpToIEEEBV(v)


class St:
    def __init__(self):
        self.pc = []
        self.mem = {}      # obj -> {off: (n, value)}
        self.size = {}
        self.frames = []

    def clone(self):
        s = St()
        s.pc = list(self.pc)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.size = dict(self.size)
        s.frames = [f.clone() for f in self.frames]
        return s


class Fr:
    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.blk = fn['blocks'][0]['id']
        self.prev = None
        self.ip = 0
        self.retid = None

    def clone(self):
        f = Fr(self.fn)
        f.env = dict(self.env)
        f.blk, f.prev, f.ip, f.retid = self.blk, self.prev, self.ip, self.retid
        return f


class BV:
    """one verification run of one contract"""

    def __init__(self, module, name, models=None, max_steps=400000, ub=('nsw', 'shift', 'div', 'bounds', 'fptosi')):
        self.m = module
        self.name = name
        self.models = dict(BUILTIN)
        self.models.update(models or {})
        self.obls = []
        self.leaves = []
        self.objid = 0
        self.steps = 0
        self.max_steps = max_steps
        self.ub = ub
        self.solver_cache = {}
        self.globals_obj = {}
        self.inlined = set()
        self.trusted = set()
        self.npaths = 0

    # -- memory
    def alloc(self, st, n):
        self.objid += 1
        st.mem[self.objid] = {}
        st.size[self.objid] = n
        return P(self.objid, 0)

    def store(self, st, p, n, v):
        if p.obj == 0 or p.obj not in st.mem or p.off < 0 or p.off + n > st.size[p.obj]:
            self.oblige(st, 'bounds', 'store', z3.BoolVal(False))
            raise Unsupported('store out of bounds at %s size %s' % (p, st.size.get(p.obj)))
        m = st.mem[p.obj]
        for o in list(m):
            cn, cv = m[o]
            if o < p.off + n and p.off < o + cn:
                if p.off <= o and o + cn <= p.off + n:
                    del m[o]
                else:
                    b = self.asbv(cv, cn)
                    del m[o]
                    for k in range(cn):
                        if not (p.off <= o + k < p.off + n):
                            m[o + k] = (1, S(z3.Extract(8 * k + 7, 8 * k, b)))
        m[p.off] = (n, v)

    def asbv(self, v, n):
        if isinstance(v, P):
            raise Unsupported('pointer read as bytes')
        if z3.is_fp(v):
            return fpbits(v)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        return v

    def load(self, st, p, n):
        if p.obj == 0 or p.obj not in st.mem or p.off < 0 or p.off + n > st.size[p.obj]:
            self.oblige(st, 'bounds', 'load', z3.BoolVal(False))
            raise Unsupported('load out of bounds at %s size %s' % (p, st.size.get(p.obj)))
        m = st.mem[p.obj]
        c = m.get(p.off)
        if c and c[0] == n:
            return c[1]
        bs = []
        k = 0
        while k < n:
            o = p.off + k
            hit = None
            for q, (cn, cv) in m.items():
                if q <= o < q + cn:
                    hit = (q, cn, cv)
                    break
            if hit is None:
                b = fresh('uninit', 8)
                m[o] = (1, b)
                bs.append(b)
                k += 1
                continue
            q, cn, cv = hit
            if isinstance(cv, P):
                raise Unsupported('partial pointer read')
            take = min(cn - (o - q), n - k)
            v = self.asbv(cv, cn)
            bs.append(S(z3.Extract(8 * (o - q + take) - 1, 8 * (o - q), v)))
            k += take
        v = bs[0] if len(bs) == 1 else S(z3.Concat(*reversed(bs)))
        return v

    def cast(self, v, t):
        """a loaded cell as type t"""
        if t == 'ptr':
            if isinstance(v, P):
                return v
            if z3.is_bv_value(S(v)) and S(v).as_long() == 0:
                return NUL
            raise Unsupported('integer read as pointer')
        if isinstance(v, P):
            raise Unsupported('pointer read as %s' % t)
        if t in FS:
            if z3.is_fp(v) and v.sort() == FS[t]:
                return v
            return z3.fpBVToFP(self.asbv(v, nbytes(t)), FS[t])
        if t == 'i1':
            b = self.asbv(v, 1)
            return S(z3.Extract(0, 0, b) == 1)
        w = width(t)
        b = self.asbv(v, nbytes(t))
        return S(z3.Extract(w - 1, 0, b)) if b.size() != w else b

    # -- constants
    def const(self, st, o):
        k = o['k']
        if k == 'int':
            if o['w'] == 1:
                return z3.BoolVal(int(o['v']) != 0)
            return z3.BitVecVal(int(o['v']), o['w'])
        if k == 'null':
            return NUL
        if k == 'fp':
            t = o['ty']
            if t not in FS:
                raise Unsupported('fp constant ' + str(t))
            return S(z3.fpBVToFP(z3.BitVecVal(int(o['bits']), FW[t]), FS[t]))
        if k == 'undef':
            return self.undef(o['ty'])
        if k == 'zero':
            return self.zero(o['ty'])
        if k == 'gv':
            return P(self.gobj(st, o['name']), o['off'])
        if k == 'fn':
            return P('fn:' + o['name'], 0)
        if k == 'agg':
            return [self.const(st, e) for e in o['elems']]
        raise Unsupported('bv constant %s' % k)

    def undef(self, t):
        if isinstance(t, dict):
            return [self.undef(x) for x in (t['struct'] if 'struct' in t else [t['elem']] * t['array'])]
        if t == 'ptr':
            return NUL
        if t in FS:
            return z3.fpBVToFP(fresh('undef', FW[t]), FS[t])
        if t == 'i1':
            return z3.Bool('undef!%d' % next(_n))
        return fresh('undef', width(t))

    def zero(self, t):
        if isinstance(t, dict):
            return [self.zero(x) for x in (t['struct'] if 'struct' in t else [t['elem']] * t['array'])]
        if t == 'ptr':
            return NUL
        if t in FS:
            return z3.FPVal(0.0, FS[t])
        if t == 'i1':
            return z3.BoolVal(False)
        return z3.BitVecVal(0, width(t))

    def gobj(self, st, name):
        if name in self.globals_obj:
            oid = self.globals_obj[name]
            if oid in st.mem:
                return oid
        g = self.m.globals.get(name)
        if g is None or 'init' not in g:
            raise Unsupported('global %s without a known value' % name)
        if not g.get('const', False):
            raise Unsupported('mutable global %s' % name)
        self.objid += 1
        oid = self.objid
        self.globals_obj[name] = oid
        st.mem[oid] = {}
        st.size[oid] = 1 << 20
        self.fill(st, P(oid, 0), g['init'])
        return oid

    def fill(self, st, p, c):
        k = c['k']
        if k == 'int':
            self.store(st, p, max(1, c['w'] // 8), z3.BitVecVal(int(c['v']), max(8, c['w'])))
        elif k == 'fp':
            self.store(st, p, FW[c['ty']] // 8, self.const(st, c))
        elif k == 'agg':
            from irvc import flat_fields
            t = c['ty']
            if 'array' in t:
                for n, e in enumerate(c['elems']):
                    self.fill(st, P(p.obj, p.off + n * t['stride']), e)
            else:
                from irvc import tsize, talign
                off = 0
                for n, (e, ty) in enumerate(zip(c['elems'], t['struct'])):
                    if 'offs' in t:
                        off = t['offs'][n]
                    else:
                        a = talign(ty)
                        off = (off + a - 1) // a * a
                    self.fill(st, P(p.obj, p.off + off), e)
                    off += tsize(ty)
        elif k == 'zero':
            from irvc import tsize
            n = tsize(c['ty'])
            for j in range(n):
                self.store(st, P(p.obj, p.off + j), 1, z3.BitVecVal(0, 8))
        elif k in ('null', 'gv', 'fn'):
            self.store(st, p, 8, self.const(st, c))
        else:
            raise Unsupported('initialiser ' + k)

    def val(self, st, fr, o):
        if o['k'] == 'v':
            if o['id'] not in fr.env:
                raise Unsupported('unavailable value')
            return fr.env[o['id']]
        return self.const(st, o)

    # -- solver side
    def feasible(self, st, c):
        c = S(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*st.pc)
        s.add(c)
        return s.check() != z3.unsat

    def oblige(self, st, kind, detail, goal):
        goal = S(goal)
        if z3.is_true(goal):
            if kind == 'post':
                self.obls.append(['%s:%s:%s' % (self.name, kind, detail), None, goal])
            return
        self.obls.append(['%s:%s:%s' % (self.name, kind, detail), list(st.pc), goal])

    # -- run
    def run(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('too many steps')
            fr = st.frames[-1]
            blk = fr.fn['bmap'][fr.blk]
            if fr.ip == 0:
                new, n = {}, 0
                for i in blk['insts']:
                    if i['op'] != 'phi':
                        break
                    n += 1
                    for x in i['in']:
                        if x['bb'] == fr.prev:
                            new[i['id']] = self.val(st, fr, x['v'])
                            break
                fr.env.update(new)
                fr.ip = n
            ins = blk['insts'][fr.ip]
            fr.ip += 1
            r = self.step(st, fr, ins)
            if r is False:
                return

    def jump(self, fr, b):
        fr.prev = fr.blk
        fr.blk = b
        fr.ip = 0

    def branch(self, st, alts):
        live = [(c, a) for c, a in alts if self.feasible(st, c)]
        self.npaths += max(0, len(live) - 1)
        if self.npaths > 3000:
            raise Unsupported('too many paths')
        for n, (c, act) in enumerate(live):
            last = n + 1 == len(live)
            s = st if last else st.clone()
            c = S(c)
            if not z3.is_true(c):
                s.pc.append(c)
            act(s, s.frames[-1])
            if last:
                return True
            self.run(s)
        return False

    def step(self, st, fr, i):
        op = i['op']
        env = fr.env
        t = i.get('ty')

        def v(n):
            return self.val(st, fr, i['ops'][n])
        if op == 'alloca':
            c = i.get('count') or {'k': 'int', 'v': '1', 'w': 32}
            if c['k'] != 'int':
                raise Unsupported('variable alloca')
            env[i['id']] = self.alloc(st, max(1, i['esize'] * int(c['v'])))
        elif op == 'load':
            p = v(0)
            if isinstance(t, dict):
                raise Unsupported('aggregate load')
            env[i['id']] = self.cast(self.load(st, p, nbytes(t)), t)
        elif op == 'store':
            p = v(1)
            x = v(0)
            if z3.is_expr(x) and z3.is_bool(x):
                x = z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if isinstance(x, list):
                raise Unsupported('aggregate store')
            n = 8 if isinstance(x, P) else (x.sort().ebits() + x.sort().sbits()) // 8 if z3.is_fp(x) else (x.size() + 7) // 8
            if not isinstance(x, P) and z3.is_bv(x) and x.size() % 8:
                x = z3.ZeroExt(8 - x.size() % 8, x)
            self.store(st, p, n, x)
        elif op == 'getelementptr':
            p = self.val(st, fr, i['base'])
            off = i['off']
            for x in i['var']:
                k = S(self.val(st, fr, x['v']))
                if not z3.is_bv_value(k):
                    raise Unsupported('symbolic pointer offset')
                off += k.as_signed_long() * x['s']
            env[i['id']] = P(p.obj, p.off + off)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = v(0), v(1)
            if t == 'i1':
                env[i['id']] = S({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor}[op](a, b))
                return
            w = a.size()
            if 'nsw' in self.ub and i.get('nsw') and op in ('add', 'sub', 'mul'):
                big = w if op == 'mul' else 1
                x, y = z3.SignExt(big, a), z3.SignExt(big, b)
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                self.oblige(st, 'no-signed-overflow', '%s line +%d' % (op, i.get('line', 0) - fr.fn.get('line', 0)), r == z3.SignExt(big, {'add': a + b, 'sub': a - b, 'mul': a * b}[op]))
            if 'shift' in self.ub and op in ('shl', 'lshr', 'ashr'):
                self.oblige(st, 'shift-in-range', 'line +%d' % (i.get('line', 0) - fr.fn.get('line', 0)), z3.ULT(b, w))
            if 'div' in self.ub and op in ('udiv', 'sdiv', 'urem', 'srem'):
                g = b != 0
                if op[0] == 's':
                    g = z3.And(g, z3.Not(z3.And(a == (1 << (w - 1)), b == -1)))
                self.oblige(st, 'division', 'line +%d' % (i.get('line', 0) - fr.fn.get('line', 0)), g)
            env[i['id']] = S({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                              'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
                              'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b)}[op]())
        elif op == 'icmp':
            a, b = v(0), v(1)
            p = i['pred']
            if isinstance(a, P) or isinstance(b, P):
                e = a.obj == b.obj and a.off == b.off
                if p not in ('eq', 'ne'):
                    if a.obj != b.obj:
                        raise Unsupported('pointer order')
                    e = {'ult': a.off < b.off, 'ule': a.off <= b.off, 'ugt': a.off > b.off, 'uge': a.off >= b.off}[p]
                    env[i['id']] = z3.BoolVal(e)
                else:
                    env[i['id']] = z3.BoolVal(e if p == 'eq' else not e)
                return
            env[i['id']] = S({'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                              'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[p]())
        elif op == 'fcmp':
            a, b = v(0), v(1)
            p = i['pred']
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': z3.fpEQ(a, b), 'ne': z3.And(z3.Not(z3.fpEQ(a, b)), z3.Not(un)), 'lt': z3.fpLT(a, b), 'gt': z3.fpGT(a, b), 'le': z3.fpLEQ(a, b), 'ge': z3.fpGEQ(a, b)}
            env[i['id']] = S(z3.Not(un) if p == 'ord' else un if p == 'uno' else z3.BoolVal(p == 'true') if p in ('true', 'false') else base[p[1:]] if p[0] == 'o' else z3.Or(un, base[p[1:]]))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            env[i['id']] = S(f(RNE, v(0), v(1)))
        elif op == 'fneg':
            env[i['id']] = S(z3.fpNeg(v(0)))
        elif op in ('fpext', 'fptrunc'):
            env[i['id']] = S(z3.fpFPToFP(RNE, v(0), FS[t]))
        elif op in ('sitofp', 'uitofp'):
            a = v(0)
            if z3.is_bool(a):
                a = z3.If(a, z3.BitVecVal(-1 if op[0] == 's' else 1, 8), z3.BitVecVal(0, 8))
            env[i['id']] = S((z3.fpSignedToFP if op[0] == 's' else z3.fpUnsignedToFP)(RNE, a, FS[t]))
        elif op in ('fptosi', 'fptoui'):
            a = v(0)
            w = width(t)
            if 'fptosi' in self.ub:
                lim = 2.0 ** (w - 1) if op == 'fptosi' else 2.0 ** w
                tr = z3.fpRoundToIntegral(z3.RTZ(), a)
                lo = z3.fpGEQ(tr, z3.FPVal(-lim, a.sort())) if op == 'fptosi' else z3.fpGEQ(tr, z3.FPVal(0.0, a.sort()))
                self.oblige(st, 'conversion-in-range', 'line +%d' % (i.get('line', 0) - fr.fn.get('line', 0)), z3.And(lo, z3.fpLT(tr, z3.FPVal(lim, a.sort()))))
            env[i['id']] = S((z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(w)))
        elif op in ('zext', 'sext'):
            a = v(0)
            w = width(t)
            if z3.is_bool(a):
                env[i['id']] = S(z3.If(a, z3.BitVecVal(1 if op == 'zext' else -1, w), z3.BitVecVal(0, w)))
            else:
                env[i['id']] = S((z3.ZeroExt if op == 'zext' else z3.SignExt)(w - a.size(), a))
        elif op == 'trunc':
            a = v(0)
            env[i['id']] = S(z3.Extract(0, 0, a) == 1) if t == 'i1' else S(z3.Extract(width(t) - 1, 0, a))
        elif op == 'bitcast':
            a = v(0)
            if t in FS and z3.is_bv(a):
                env[i['id']] = z3.fpBVToFP(a, FS[t])
            elif z3.is_expr(a) and z3.is_fp(a) and t not in FS:
                env[i['id']] = fpbits(a)
            else:
                env[i['id']] = a
        elif op == 'freeze':
            env[i['id']] = v(0)
        elif op == 'select':
            c, a, b = S(v(0)), v(1), v(2)
            if z3.is_true(c):
                env[i['id']] = a
            elif z3.is_false(c):
                env[i['id']] = b
            elif isinstance(a, (P, list)) or isinstance(b, (P, list)):
                return self.branch(st, [(c, lambda s, f: f.env.__setitem__(i['id'], a)), (z3.Not(c), lambda s, f: f.env.__setitem__(i['id'], b))])
            else:
                env[i['id']] = S(z3.If(c, a, b))
        elif op == 'extractvalue':
            x = v(0)
            for k in i['idx']:
                x = x[k]
            env[i['id']] = x
        elif op == 'insertvalue':
            def ins(a, idx, y):
                if not idx:
                    return y
                e = list(a)
                e[idx[0]] = ins(e[idx[0]], idx[1:], y)
                return e
            env[i['id']] = ins(v(0), i['idx'], v(1))
        elif op == 'br':
            if 'cond' not in i:
                self.jump(fr, i['succ'][0])
                return
            c = S(self.val(st, fr, i['cond']))
            a, b = i['succ']
            if z3.is_true(c) or z3.is_false(c):
                self.jump(fr, a if z3.is_true(c) else b)
                return
            return self.branch(st, [(c, lambda s, f: self.jump(f, a)), (z3.Not(c), lambda s, f: self.jump(f, b))])
        elif op == 'switch':
            x = S(self.val(st, fr, i['cond']))
            if z3.is_bv_value(x):
                for c in i['cases']:
                    if int(c['v']) % (1 << x.size()) == x.as_long():
                        self.jump(fr, c['bb'])
                        return
                self.jump(fr, i['default'])
                return
            alts = []
            by = {}
            for c in i['cases']:
                by.setdefault(c['bb'], []).append(int(c['v']))
            for b, vs in by.items():
                alts.append((z3.Or([x == q for q in vs]), lambda s, f, b=b: self.jump(f, b)))
            alts.append((z3.And([x != int(c['v']) for c in i['cases']]), lambda s, f: self.jump(f, i['default'])))
            return self.branch(st, alts)
        elif op == 'ret':
            x = v(0) if i.get('ops') else None
            if len(st.frames) == 1:
                self.leaves.append((st, x))
                return False
            st.frames.pop()
            c = st.frames[-1]
            if fr.retid is not None:
                c.env[fr.retid] = x
            if getattr(fr, 'retblk', None) is not None:
                self.jump(c, fr.retblk)
        elif op == 'unreachable':
            return False
        elif op in ('call', 'invoke'):
            return self.call(st, fr, i)
        else:
            raise Unsupported('bv op %s' % op)

    def call(self, st, fr, i):
        args = [self.val(st, fr, a) if a['k'] != 'md' else None for a in i['args']]
        name = i.get('callee')
        if name is None:
            p = self.val(st, fr, i['callptr'])
            if isinstance(p.obj, str):
                name = p.obj[3:]
            else:
                raise Unsupported('indirect call')
        dn = self.m.fns[name]['dname'] if name in self.m.fns else self.m.decls.get(name, name)
        for key in (name, dn, dn.split('(')[0]):
            if key in self.models:
                r = self.models[key](self, st, fr, i, args)
                if r is False:
                    return False
                self.trusted.add(key)
                if 'id' in i:
                    fr.env[i['id']] = r if r is not None else self.undef(i['ty'])
                return
        for k, mdl in self.models.items():
            if k.endswith('*') and (name.startswith(k[:-1]) or dn.startswith(k[:-1])):
                r = mdl(self, st, fr, i, args)
                if r is False:
                    return False
                if 'id' in i:
                    fr.env[i['id']] = r if r is not None else self.undef(i['ty'])
                return
        f = self.m.fns.get(name)
        if f is None:
            raise Unsupported('call to external function %s' % dn)
        if len(st.frames) > 40:
            raise Unsupported('deep inlining')
        self.inlined.add(dn.split('(')[0])
        nf = Fr(f)
        for p, a in zip(f['params'], args):
            if 'byval' in p:
                q = self.alloc(st, p['byval'])
                self.copy(st, q, a, p['byval'])
                a = q
            nf.env[p['id']] = a
        nf.retid = i.get('id')
        st.frames.append(nf)

    def copy(self, st, d, s, n):
        """copy n bytes keeping whole cells where possible"""
        src = st.mem.get(s.obj)
        if src is None or s.off < 0 or s.off + n > st.size[s.obj]:
            raise Unsupported('copy out of bounds')
        k = 0
        items = []
        while k < n:
            c = src.get(s.off + k)
            if c and k + c[0] <= n:
                items.append((k, c[0], c[1]))
                k += c[0]
            else:
                # a cell may cover this byte
                hit = any(q <= s.off + k < q + cn for q, (cn, cv) in src.items())
                items.append((k, 1, self.load(st, P(s.obj, s.off + k), 1)) if hit else (k, 0, None))
                k += 1
        for o, cn, cv in items:
            if cn:
                self.store(st, P(d.obj, d.off + o), cn, cv)


def b_memcpy(e, st, fr, i, a):
    n = S(a[2])
    if not z3.is_bv_value(n):
        raise Unsupported('memcpy of symbolic size')
    e.copy(st, a[0], a[1], n.as_long())
    return a[0]


def b_memset(e, st, fr, i, a):
    n = S(a[2])
    if not z3.is_bv_value(n):
        raise Unsupported('memset of symbolic size')
    c = a[1] if a[1].size() == 8 else z3.Extract(7, 0, a[1])
    for k in range(n.as_long()):
        e.store(st, P(a[0].obj, a[0].off + k), 1, S(c))
    return a[0]


def b_fail(e, st, fr, i, a):
    e.oblige(st, 'assertion', 'line +%d' % (i.get('line', 0) - fr.fn.get('line', 0)), z3.BoolVal(False))
    return False


def b_nop(e, st, fr, i, a):
    return None


def b_fabs(e, st, fr, i, a):
    return S(z3.fpAbs(a[0]))


def b_fpclass(e, st, fr, i, a):
    m = S(a[1]).as_long()
    x = a[0]
    b = fpbits(x)
    neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
    parts = []
    if m & 3:
        parts.append(z3.fpIsNaN(x))
    for bit, c in ((4, z3.And(z3.fpIsInf(x), neg)), (8, z3.And(z3.fpIsNormal(x), neg)), (16, z3.And(z3.fpIsSubnormal(x), neg)), (32, z3.And(z3.fpIsZero(x), neg)),
                   (64, z3.And(z3.fpIsZero(x), pos)), (128, z3.And(z3.fpIsSubnormal(x), pos)), (256, z3.And(z3.fpIsNormal(x), pos)), (512, z3.And(z3.fpIsInf(x), pos))):
        if m & bit:
            parts.append(c)
    return S(z3.Or(parts))


def b_bswap(e, st, fr, i, a):
    n = a[0].size() // 8
    return S(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a[0]) for k in range(n)]))


def b_first(e, st, fr, i, a):
    return a[0]


BUILTIN = {'llvm.memcpy.*': b_memcpy, 'llvm.memmove.*': b_memcpy, 'memcpy': b_memcpy, 'llvm.memset.*': b_memset, '__assert_fail': b_fail, 'abort': b_fail, 'llvm.trap': b_fail,
           'llvm.dbg.*': b_nop, 'llvm.fabs.*': b_fabs, 'llvm.is.fpclass.*': b_fpclass, 'llvm.bswap.*': b_bswap, 'llvm.expect.*': b_first, 'llvm.lifetime.*': b_nop,
           'llvm.stacksave*': b_nop, 'llvm.stackrestore*': b_nop, 'llvm_unreachable_internal': b_fail, 'llvm::llvm_unreachable_internal': b_fail}


class BVC:
    """contract: setup(eng, st) -> (args list or dict by parameter name, ctx); pre(ctx) -> [cond]; post(ctx, ret, eng, st) -> [(name, cond)]"""

    def __init__(self, fn, setup, post, pre=None, models=None, ub=None, label=None, split=None):
        self.fn, self.setup, self.post, self.pre, self.models, self.ub = fn, setup, post, pre, models, ub
        self.label = label or fn
        self.split = split      # ctx -> [cond]: cases proved separately


def vcs(module, c):
    f = module.find(c.fn)
    kw = {} if c.ub is None else {'ub': c.ub}
    e = BV(module, c.label, c.models, **kw)
    st = St()
    args, ctx = c.setup(e, st)
    if isinstance(args, dict):
        args = [args[p['name']] for p in f['params']]
    if len(args) != len(f['params']):
        raise Unsupported('parameters of %s changed' % c.fn)
    for g in (c.pre(ctx) if c.pre else ()):
        st.pc.append(g)
    npre = len(st.pc)
    fr = Fr(f)
    for p, a in zip(f['params'], args):
        fr.env[p['id']] = a
    st.frames.append(fr)
    e.run(st)
    for s, ret in e.leaves:
        for nm, g in c.post(ctx, ret, e, s):
            e.oblige(s, 'post', nm, g)
    if not e.leaves:
        raise Unsupported('no path returns')
    out = []
    names = {}
    for nm, pc, g in e.obls:
        if pc is None:                 # valid by simplification of the terms alone
            n = names[nm] = names.get(nm, 0) + 1
            out.append((nm if n == 1 else '%s#%d' % (nm, n), None))
            continue
        cs = c.split(ctx) if c.split else [None]
        for k, extra in enumerate(cs):
            n = names[nm] = names.get(nm, 0) + 1
            s = z3.Solver()
            s.add(*pc)
            if extra is not None:
                s.add(extra)
            s.add(z3.Not(g))
            out.append((nm if n == 1 else '%s#%d' % (nm, n), s.to_smt2()))
    return out, e


def _z3(txt, sec, exe='z3'):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        n = f.name
    try:
        cmd = [exe, '-T:%d' % sec, n] if exe.startswith('z3') else ['cvc5', '-q', '--tlimit=%d' % (sec * 1000), n]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=sec + 10)
        return p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(n)


def decide(job):
    nm, txt, sec = job
    if txt is None:
        return nm, 'proved', 0, 'simplification', None
    t = time.time()
    txt2 = txt.replace('(check-sat)', '(check-sat-using (then simplify propagate-values fpa2bv simplify propagate-values elim-uncnstr bv1-blast sat))')
    logic = '(set-logic ALL)\n' + txt
    for exe, tx, s in (('z3', txt, min(sec, 10)), ('cvc5', logic, sec), ('z3-new', txt, sec)):
        out = _z3(tx, s, exe)
        l = out.strip().split('\n')[0] if out.strip() else ''
        if l == 'unsat':
            return nm, 'proved', time.time() - t, exe, None
        if l == 'sat':
            m = _z3(txt + '\n(get-model)', s, exe) if exe != 'cvc5' else ''
            return nm, 'refuted', time.time() - t, exe, ' '.join(m.split())[:600]
    return nm, 'unknown', time.time() - t, 'z3+cvc5', None


def _one(job):
    label, srcs, flags, k = job
    c = _contracts[k]
    t0 = time.time()
    try:
        js = [frontend.extract(s, pats, flags=flags) for s, pats in srcs]
        m = Module(js)
        obs, e = vcs(m, c)
        return {'group': label, 'fn': c.label, 'vcs': obs, 'models': sorted(e.trusted), 'inlined': sorted(e.inlined), 'time': time.time() - t0}
    except (Unsupported, frontend.ExtractError) as x:
        return {'group': label, 'fn': c.label, 'err': '%s: %s' % (type(x).__name__, x), 'time': time.time() - t0}
    except Exception as x:
        import traceback
        return {'group': label, 'fn': c.label, 'err': 'internal: ' + traceback.format_exc()[-1500:], 'time': time.time() - t0}


_contracts = []


def verify(groups, budget, sec=60):
    """groups: [(label, srcs, flags, [BVC])] -> results for suite.extra_obligations"""
    global _contracts
    t0 = time.time()
    _contracts = []
    jobs = []
    frontend.irdump()
    for label, srcs, flags, cs in groups:
        for s, pats in srcs:
            try:
                frontend.extract(s, pats, flags=flags)
            except frontend.ExtractError:
                pass
        for c in cs:
            jobs.append((label, srcs, flags, len(_contracts)))
            _contracts.append(c)
    res = []
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as pool:
        gens = pool.map(_one, jobs, chunksize=1)
        pend = []
        for r in gens:
            if r.get('err'):
                res.append(r)
                continue
            r['async'] = [pool.apply_async(decide, ((nm, txt, sec),)) for nm, txt in r.pop('vcs')]  # trivial ones too: order is kept
            pend.append(r)
        for r in pend:
            obls = []
            for a in r.pop('async'):
                try:
                    nm, status, t, be, info = a.get(timeout=max(1, budget - (time.time() - t0)))
                    obls.append((nm, status, t, be, info))
                except mp.TimeoutError:
                    obls.append(('%s:timeout' % r['fn'], 'unknown', 0, 'z3+cvc5', 'out of time'))
            r['obls'] = obls
            res.append(r)
        pool.terminate()
    return res
