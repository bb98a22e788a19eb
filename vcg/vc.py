"""Verification condition generator: symbolic execution of LLVM IR between cut points (function entry, loop heads, calls),
with contracts for calls and invariants for loops.  See /verif/DESIGN.md section "The verifier" for the semantics and the list of
assumptions that are made about the machine."""
import re, itertools, time, os, sys
import z3
from ir import Unsupported

class AnnotationMismatch(Exception):
    """the annotations could not be attached to the current text of the function"""
class TooManyPaths(Exception):
    pass

_ser = itertools.count(1)
def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ser)), sort)
def serial_now():
    return next(_ser)

I = z3.IntSort(); B = z3.BoolSort()

# ------------------------------------------------------------------ pointers / values
class PE:        # element / object pointer
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0):
        self.obj = obj if z3.is_expr(obj) else z3.IntVal(obj)
        self.off = off
    def __repr__(self): return 'PE(%s,%s)' % (self.obj, self.off)
class PF:        # address of a field of the struct at (obj,off)
    __slots__ = ('st', 'idx', 'obj', 'off', 'fty')
    def __init__(self, st, idx, obj, off, fty): self.st, self.idx, self.obj, self.off, self.fty = st, idx, obj, off, fty
    def __repr__(self): return 'PF(%s.%d,%s,%s)' % (self.st, self.idx, self.obj, self.off)
class PL:        # address of a scalar local
    __slots__ = ('key', 'ty')
    def __init__(self, key, ty): self.key, self.ty = key, ty
    def __repr__(self): return 'PL(%s)' % (self.key,)
class PG:        # address of a scalar global
    __slots__ = ('name', 'ty')
    def __init__(self, name, ty): self.name, self.ty = name, ty
    def __repr__(self): return 'PG(%s)' % self.name
class PV:        # pointer to an rvalue (read only)
    __slots__ = ('val',)
    def __init__(self, val): self.val = val
    def __repr__(self): return 'PV(%s)' % (self.val,)
class PFun:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
class PVT:       # something derived from a vtable pointer
    __slots__ = ('obj', 'slot')
    def __init__(self, obj, slot): self.obj, self.slot = obj, slot
class Undef:
    def __repr__(self): return 'Undef'
UNDEF = Undef()
PTRS = (PE, PF, PL, PG, PV, PFun, PVT)

def is_ptr(v): return isinstance(v, PTRS)

# ------------------------------------------------------------------ arithmetic
class IntArith:
    """machine integers as mathematical integers (signed representative of the bit pattern)"""
    name = 'int'
    isort = I
    def sort(self, w): return I
    def val(self, n, w):
        n &= (1 << w) - 1
        if w > 1 and n >= 1 << (w - 1): n -= 1 << w
        return z3.IntVal(n)
    def u(self, x, w):
        if z3.is_int_value(x):
            n = x.as_long(); return z3.IntVal(n if n >= 0 else n + (1 << w))
        if x.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(c) and c.as_long() >= 0 for c in x.children()[1:]): return x
        return z3.If(x < 0, x + (1 << w), x)
    def wrapped(self, x, w):
        if z3.is_int_value(x): return self.val(x.as_long(), w)
        h = 1 << (w - 1)
        f = z3.Function('wrap%d' % w, I, I)
        return z3.If(z3.And(-h <= x, x < h), x, f(x))
    def binop(self, op, w, a, b, fl, ctx):
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op in ('sdiv', 'srem'):
            q = z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
            if z3.is_int_value(b):
                n = b.as_long()
                if n == 0: raise Unsupported('division by constant 0')
                if n > 0: q = z3.If(a >= 0, a / b, -((-a) / b))
            return q if op == 'sdiv' else a - b * q
        if op in ('udiv', 'urem'):
            ua, ub = self.u(a, w), self.u(b, w)
            return self.wrapped(ua / ub if op == 'udiv' else ua % ub, w)
        if op == 'shl' and z3.is_int_value(b): return self.wrapped(a * (1 << b.as_long()), w)
        if op == 'shl' and z3.is_int_value(a) and a.as_long() == 1:
            return z3.Function('pow2', I, I)(b)
        if op == 'lshr' and z3.is_int_value(b): return self.wrapped(self.u(a, w) / (1 << b.as_long()), w)
        if op == 'ashr' and z3.is_int_value(b): return a / (1 << b.as_long())
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y):
                    n = y.as_long()
                    if n >= 0 and (n & (n + 1)) == 0: return x % (n + 1)
        if op == 'xor' and z3.is_int_value(b) and b.as_long() == -1: return -a - 1
        return z3.Function('%s_%d' % (op, w), I, I, I)(a, b)
    def icmp(self, p, w, a, b):
        if p == 'eq': return a == b
        if p == 'ne': return a != b
        if p[0] == 'u': a, b = self.u(a, w), self.u(b, w)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
    def zext(self, x, w, w2): return self.u(x, w)
    def sext(self, x, w, w2): return x
    def trunc(self, x, w, w2): return self.wrapped(x, w2)
    def frombool(self, b, w): return z3.If(b, z3.IntVal(1), z3.IntVal(0))
    def tobool(self, x, w):
        if x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
            if x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0: return x.arg(0)
        if z3.is_int_value(x): return z3.BoolVal(x.as_long() != 0)
        return x != 0
    def off(self, x, w): return x
    def off_add(self, a, b, scale=1):
        if scale != 1: b = b * scale
        if isinstance(a, int) and a == 0: return b
        if isinstance(a, int): a = z3.IntVal(a)
        if z3.is_int_value(b) and b.as_long() == 0: return a
        return a + b
    def offz(self, o): return z3.IntVal(o) if isinstance(o, int) else o
    def ge0(self, o): return o >= 0

class BVArith(IntArith):
    """exact two's complement semantics"""
    name = 'bv'
    isort = z3.BitVecSort(64)
    def sort(self, w): return z3.BitVecSort(w)
    def val(self, n, w): return z3.BitVecVal(n, w)
    def binop(self, op, w, a, b, fl, ctx):
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b),
                'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
                'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
    def icmp(self, p, w, a, b):
        if p == 'eq': return a == b
        if p == 'ne': return a != b
        return {'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[p]()
    def zext(self, x, w, w2): return z3.ZeroExt(w2 - w, x)
    def sext(self, x, w, w2): return z3.SignExt(w2 - w, x)
    def trunc(self, x, w, w2): return z3.Extract(w2 - 1, 0, x)
    def frombool(self, b, w): return z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    def tobool(self, x, w): return z3.Extract(0, 0, x) == 1
    def off_add(self, a, b, scale=1):
        if scale != 1: b = b * scale
        if isinstance(a, int) and a == 0: return b
        if isinstance(a, int): a = z3.BitVecVal(a, 64)
        return a + b
    def offz(self, o): return z3.BitVecVal(o, 64) if isinstance(o, int) else o

def diff_const(a, b):
    """a and b are syntactically different integers for sure"""
    if z3.is_int_value(a) and z3.is_int_value(b): return a.as_long() != b.as_long()
    if z3.is_bv_value(a) and z3.is_bv_value(b): return a.as_long() != b.as_long()
    if z3.is_app(a) and z3.is_app(b) and a.num_args() == 2 and a.decl().eq(b.decl()) and (a.decl().name().startswith('sub_') or a.decl().name() == 'vdata'):
        return diff_const(a.arg(0), b.arg(0)) or diff_const(a.arg(1), b.arg(1))      # sub-object locations are injective
    if z3.is_int(a) and (z3.is_add(a) or z3.is_add(b)):
        d = z3.simplify(a - b)
        return z3.is_int_value(d) and d.as_long() != 0
    return False
def sel(m, o):
    """read over write, resolved syntactically where possible"""
    while z3.is_store(m):
        if m.arg(1).eq(o): return m.arg(2)
        if diff_const(m.arg(1), o): m = m.arg(0)
        else: break
    return z3.Select(m, o)
def upd(m, o, v):
    if z3.is_store(m) and m.arg(1).eq(o): m = m.arg(0)
    return z3.Store(m, o, v)

def is_zero(o):
    if isinstance(o, int): return o == 0
    if z3.is_int_value(o): return o.as_long() == 0
    if z3.is_bv_value(o): return o.as_long() == 0
    return False

# ------------------------------------------------------------------ loops of a function
class LoopInfo:
    def __init__(self, fn):
        self.fn = fn
        bl = fn.blocks
        succ = {}
        for b, ins in bl.items():
            t = ins[-1] if ins else None
            s = []
            if t is None: pass
            elif t.op == 'br':
                s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke':
                s = [t.a[3]]
            succ[b] = s
        self.succ = succ
        entry = fn.order[0]
        # dominators
        order = []; seen = set()
        st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for c in it:
                if c not in seen:
                    seen.add(c); st.append((c, iter(succ[c]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for c in succ[b]: pred[c].append(b)
        idom = {entry: entry}
        ch = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]: x = inter(x, p)
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        self.loops = {}          # header -> set(blocks)
        for b in order:
            for c in succ[b]:
                if num[c] <= num[b]:
                    if not dom(c, b): raise Unsupported('irreducible loop')
                    body = self.loops.setdefault(c, {c})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x); stk.extend(pred[x])
        self.headers = [b for b in fn.order if b in self.loops]

class Frame:
    __slots__ = ('fn', 'li', 'regs', 'block', 'idx', 'prev', 'ret', 'names', 'id', 'loops', 'allocas', 'lctx')
    def copy(self):
        f = Frame()
        f.fn, f.li, f.block, f.idx, f.prev, f.ret, f.id = self.fn, self.li, self.block, self.idx, self.prev, self.ret, self.id
        f.regs = dict(self.regs); f.names = self.names; f.allocas = self.allocas
        f.loops = list(self.loops)
        return f

class LoopCtx:
    def __init__(self, header, spec, ordinal):
        self.header, self.spec, self.ordinal = header, spec, ordinal
        self.variant = None; self.frames = []; self.entry = None; self.head = None

class State:
    def __init__(self):
        self.maps = {}; self.locals = {}; self.globals = {}; self.facts = []; self.ctr = None; self.frames = []; self.disc = None
        self.trace = []; self.ghost = {}
    def copy(self):
        s = State()
        s.maps = dict(self.maps); s.locals = dict(self.locals); s.globals = dict(self.globals)
        s.facts = list(self.facts); s.ctr = self.ctr; s.frames = [f.copy() for f in self.frames]
        s.disc = self.disc; s.trace = list(self.trace); s.ghost = dict(self.ghost)
        return s
    @property
    def fr(self): return self.frames[-1]

class Disc:
    """discovery of what a loop body writes"""
    def __init__(self):
        self.locals = set(); self.globals = set(); self.maps = {}; self.alloc = False; self.kinds = {}; self.iters = {}

class Obl:
    __slots__ = ('name', 'facts', 'goal', 'kind', 'trace', 'status', 'solver', 'time', 'model', 'loc')
    def __init__(self, name, facts, goal, kind, trace, loc):
        self.name, self.facts, self.goal, self.kind, self.trace, self.loc = name, facts, goal, kind, trace, loc
        self.status = None; self.solver = None; self.time = 0; self.model = None

# ------------------------------------------------------------------ spec-facing view of a state
class View:
    def __init__(self, ver, st, args=None, old=None):
        self.ver, self.st, self.args, self._old = ver, st, args, old
    @property
    def old(self): return self._old
    @property
    def ctr(self): return self.st.ctr
    def fkey(self, name): return self.ver.fkey(name)
    def f(self, p, name):
        """value of field 'Class.field' of the object p points to"""
        st, idx = self.ver.fkey(name)
        p = self.ver.canon(self.st, p)
        ty = self.ver.field_ty(st, idx)
        if ty[0] not in ('int', 'ptr', 'float', 'double'):
            return self.ver.subobj(self.st, st, idx, p.obj, p.off)
        return self.ver.read_field(self.st, st, idx, ty, p.obj, p.off)
    def ret(self, p, cname, idx):
        """member idx of the aggregate that function cname returns through memory at p"""
        fn = [f for f in self.ver.mod.bydem.get(cname, []) if f in self.ver.mod.funcs]
        if not fn or not self.ver.mod.funcs[fn[0]].sret: raise AnnotationMismatch('no structure returned by ' + cname)
        st = self.ver.mod.funcs[fn[0]].sret; p = self.ver.canon(self.st, p); ty = self.ver.field_ty(st, idx)
        if ty[0] not in ('int', 'ptr', 'float', 'double'): return self.ver.subobj(self.st, st, idx, p.obj, p.off)
        return self.ver.read_field(self.st, st, idx, ty, p.obj, p.off)
    def fmap(self, name):
        st, idx = self.ver.fkey(name)
        return self.ver.named(self.ver.getmap(self.st, ('F', st, idx), self.ver.field_ty(st, idx)))
    def heap0(self, ty):
        return self.ver.named(self.heap(ty))
    def heap(self, ty):
        return self.ver.getmap(self.st, ('H', ty), self.ver.parse_ty(ty))
    def arr(self, p, ty='i32'):
        """content of the array p points to (z3 array index -> value); p must point to offset 0"""
        p = self.ver.canon(self.st, p)
        if not is_zero(p.off): raise Unsupported('arr at offset')
        return self.ver.named(sel(self.heap(ty), p.obj))
    def at(self, p, i, ty='i32'):
        p = self.ver.canon(self.st, p)
        return sel(sel(self.heap(ty), p.obj), self.ver.A.off_add(p.off, i) if not is_zero(p.off) else self.ver.A.offz(i))
    def len(self, p):
        """allocation size in bytes"""
        p = self.ver.canon(self.st, p)
        return sel(self.ver.getmap(self.st, ('LEN',), None), p.obj)
    def pat(self, p, i):
        """pointer stored at p[i]"""
        return PE(self.at(p, i, 'ptr'))
    def vlen(self, v):
        v = self.ver.canon(self.st, v)
        r = sel(sel(self.ver.getmap(self.st, ('VLEN',), None), v.obj), self.ver.A.offz(v.off))
        if self.ver.mode == 'int' and not any(z3.is_var(x) for x in _leaves(r)): self.st.facts.append(r >= 0)
        return r
    def vdata(self, v):
        v = self.ver.canon(self.st, v)
        return PE(self.ver.vdata(self.st, v.obj, v.off))
    def varr(self, v, ty='i32'):
        return self.arr(self.vdata(v), ty)
    def smem(self, v):
        v = self.ver.canon(self.st, v)
        return self.ver.named(sel(sel(self.ver.getmap(self.st, ('SMEM',), None), v.obj), self.ver.A.offz(v.off)))
    def g(self, name):
        """ghost variable"""
        return self.ver.named(self.ver.getghost(self.st, name))
    def map(self, key):
        return self.ver.getmap(self.st, key, None)
    def glob(self, name):
        if not name.startswith('@'): name = self.ver.findglob(name)
        return self.ver.load(self.st, self.ver.globptr(self.st, name), self.ver.glob_ty(name))
    def local(self, name, n=None):
        return self.ver.find_local(self.st, name, n)
    def arg(self, i): return self.args[i]
    def iter(self, level=0):
        """position of the iterator of the innermost range-for (level 0) or explicit iterator loop"""
        for fr in reversed(self.st.frames):
            c = []
            hl = self.ver.header_line(fr, fr.loops[-1].header) if fr.loops else None
            for nm, l in fr.names.items():
                if re.match(r'__begin\d', nm):
                    for (k, ln) in l:
                        if hl is None or ln is None or ln <= hl: c.append((ln or 0, nm, k))
            if len(c) > level:
                c.sort(key=lambda x: x[:2])
                return self.iter_of(c[-1 - level][2])
        raise AnnotationMismatch('no range-for')
    def iter_of(self, p):
        v = self.ver
        if isinstance(p, PL): q = v.load(self.st, p, ('ptr',))
        elif isinstance(p, PE):
            at = v.alloca_ty(p)
            q = v.load(self.st, v.leaf_ptr(self.st, p, v.flat_fields(at)[0][1]), ('ptr',))
        else: q = self.st.locals.get(p)
        if not isinstance(q, PE): raise AnnotationMismatch('iterator value')
        return v.A.offz(q.off)
    def outer(self, level=1):
        """state at the start of the current iteration of an enclosing loop (level 1 = directly enclosing)"""
        lcs = [lc for fr in self.st.frames for lc in fr.loops]
        lc = lcs[-1 - level] if len(lcs) > level else None
        if lc is None or lc.head is None: raise AnnotationMismatch('no enclosing loop')
        return lc.head
    def entered(self, level=0):
        """state when the current (level 0) or an enclosing loop was entered"""
        lcs = [lc for fr in self.st.frames for lc in fr.loops]
        lc = lcs[-1 - level] if len(lcs) > level else None
        if lc is None or lc.entry is None: raise AnnotationMismatch('no enclosing loop')
        return lc.entry

def _leaves(t):
    todo = [t]; seen = set(); out = []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): out.append(x)
        elif z3.is_const(x): out.append(x)
        else: todo += x.children()
    return out
def notin(x, objs):
    """x is none of the objects (an entry may be a predicate)"""
    return [z3.Not(o(x)) if callable(o) else x != o for o in objs]
def conj(x):
    """flatten to a list of (name, formula)"""
    if x is None: return []
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], str) and not isinstance(x[1], str): return [(x[0], x[1])]
        r = []
        for e in x: r.extend(conj(e))
        return r
    if isinstance(x, bool): return [(None, z3.BoolVal(x))]
    if z3.is_and(x) and False: return [(None, c) for c in x.children()]
    return [(None, x)]

class Loop:
    def __init__(self, inv=None, variant=None, frame=None, lemma=None, unroll=None, init_lemma=None):
        self.inv, self.variant, self.frame, self.lemma, self.unroll = inv, variant, frame, lemma, unroll; self.init_lemma = init_lemma

class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=None, loops=None, allocs=False, mode='int', assumed=False, bounds=True,
                 inline_ok=False, lemma=None, globals_mod=(), ghost_mod=(), pure=False, opts=None, axioms=None, call_lemmas=None, virtual=None, entry=None, timeout=None, pre_return=None, decreases=None):
        self.decreases = decreases
        self.name, self.requires, self.ensures, self.modifies = name, requires, ensures, modifies
        self.loops = loops or {}; self.allocs = allocs; self.mode = mode; self.assumed = assumed; self.bounds = bounds
        self.lemma = lemma; self.globals_mod = globals_mod; self.ghost_mod = ghost_mod; self.opts = opts or {}; self.axioms = axioms
        self.call_lemmas = call_lemmas or {}; self.virtual = virtual or {}; self.entry = entry; self.timeout = timeout; self.pre_return = pre_return

TYRE = re.compile(r'i\d+$')

class Verifier:
    MAXPATHS = 6000
    def __init__(self, mod, contracts, models, axioms=(), mode='int', repo_prefix='/repo', opts=None):
        self.mod, self.contracts, self.models = mod, contracts, models
        self.A = BVArith() if mode == 'bv' else IntArith()
        self.mode = mode
        self.obls = []; self.axioms = list(axioms)
        self.fields = mod.build_fields()
        self.used_contracts = set(); self.used_models = set(); self.inlined = set()
        self.li_cache = {}
        self.repo_prefix = repo_prefix
        self.opts = opts or {}
        self.allocc = itertools.count(1)
        self.frameid = itertools.count(1)
        self.globid = {}
        self.ghost_sorts = dict(self.opts.get('ghost', {}))
        self.rename = {}
        self.unreach = 0
        self.subkinds = {}; self.names_ = {}; self.occ_ = {}; self.defs = {}
        x = z3.Int('x?'); rt = z3.Function('root', I, I)
        self.extra_axioms = [z3.ForAll([x], z3.Implies(x > -1000000, z3.And(rt(x) == x, z3.Function('kind', I, I)(x) == 0)), patterns=[rt(x)])]
        self.map_sorts = {}
        self.cur = None
        self.prune_cache = {}

    # ---------------- types
    def parse_ty(self, t):
        if isinstance(t, tuple): return t
        if t == 'ptr': return ('ptr',)
        if TYRE.match(t): return ('int', int(t[1:]))
        return (t,)
    def tykey(self, ty):
        if ty[0] == 'int': return 'i%d' % (8 if ty[1] == 1 else ty[1])
        return ty[0]
    def vsort(self, ty):
        if ty is None: return I
        if ty[0] == 'int': return self.A.sort(8 if ty[1] == 1 else ty[1])
        if ty[0] == 'ptr': return I
        if ty[0] in ('float', 'double', 'x86_fp80'): return z3.RealSort()
        raise Unsupported('value sort of %s' % (ty,))
    def resolve_ty(self, ty):
        while ty[0] == 'struct':
            if ty[1] not in self.mod.structs: raise Unsupported('opaque ' + ty[1])
            ty = self.mod.structs[ty[1]]
        return ty
    def anon_struct(self, ty):
        nm = '%anon:' + repr(ty)
        if nm not in self.mod.structs: self.mod.structs[nm] = ty
        return ('struct', nm)
    def field_ty(self, st, idx):
        return self.resolve_ty(('struct', st))[1][idx]
    def fkey(self, name):
        """'Class.field' -> (struct, idx)"""
        c, f = name.rsplit('.', 1)
        c = self.opts.get('classes', {}).get(c, c)
        cands = []
        for s, names in self.fields.items():
            b = s.strip('%').strip('"')
            b = re.sub(r'^(class|struct|union)\.', '', b)
            if b == c or b.endswith('::' + c):
                if f in names: return (s, names.index(f))
                cands.append(s)
        raise AnnotationMismatch('no field %s (structs %s)' % (name, cands))
    def sizeof(self, ty): return self.mod.size_align(ty)[0]

    # ---------------- maps
    def mapsort(self, key, ty):
        if key in self.map_sorts: return self.map_sorts[key]
        k = key[0]
        if k in ('H', 'F'):
            s = z3.ArraySort(I, z3.ArraySort(self.A.isort, self.vsort(ty)))
        elif k == 'FO':
            s = z3.ArraySort(I, z3.ArraySort(self.A.isort, self.A.isort))
        elif k == 'LEN': s = z3.ArraySort(I, self.A.isort)
        elif k in ('VLEN',): s = z3.ArraySort(I, z3.ArraySort(self.A.isort, self.A.isort))
        elif k in ('SMEM',): s = z3.ArraySort(I, z3.ArraySort(self.A.isort, z3.ArraySort(self.A.sort(32), B)))
        else: raise Unsupported('map sort ' + str(key))
        self.map_sorts[key] = s
        return s
    def mapname(self, key):
        if key[0] == 'F' or key[0] == 'FO':
            names = self.fields.get(key[1]); b = re.sub(r'^(class|struct|union)\.', '', key[1].strip('%').strip('"')).split('::')[-1]
            return '%s.%s%s' % (b, names[key[2]] if names and names[key[2]] else key[2], '' if key[0] == 'F' else '.off')
        return '_'.join(str(x) for x in key)
    def getmap(self, st, key, ty):
        m = st.maps.get(key)
        if m is None:
            m = z3.Const(self.mapname(key) + '@0', self.mapsort(key, ty))
            st.maps[key] = m
        return m
    def setmap(self, st, key, val, obj=None):
        if st.disc is not None: st.disc.maps.setdefault(key, []).append(obj)
        st.maps[key] = val
    def getghost(self, st, name):
        v = st.ghost.get(name)
        if v is None:
            if name not in self.ghost_sorts: raise Unsupported('ghost ' + name)
            v = z3.Const('ghost.%s@0' % name, self.ghost_sorts[name]); st.ghost[name] = v
        return v
    def setghost(self, st, name, v):
        if st.disc is not None: st.disc.globals.add(('ghost', name))
        st.ghost[name] = v

    def named(self, t, force=False):
        """a constant equal to t, so that t can occur in quantifier patterns"""
        if not has_store(t) and not (force and t.num_args() > 0): return t
        k = t.get_id()
        e = self.names_.get(k)
        if e is None:
            c = fresh('row', t.sort()); self.names_[k] = (c, t); self.defs[c.decl().name()] = (c, t); return c
        return e[0]
    def defs_for(self, fs):
        """definitions of the named terms that occur in fs"""
        if not self.defs: return []
        out = []; got = set(); todo = list(fs)
        while todo:
            for n in self.named_in(todo.pop()):
                if n not in got:
                    got.add(n); c, t = self.defs[n]; out.append(c == t); todo.append(t)
        return out
    def named_in(self, f):
        """names of the named terms that occur in f itself"""
        r = self.occ_.get(f.get_id())
        if r is None:
            seen = set(); st = [f]; ns = []
            while st:
                x = st.pop(); i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if z3.is_quantifier(x): st.append(x.body())
                elif z3.is_app(x):
                    if x.num_args() == 0:
                        n = x.decl().name()
                        if n in self.defs: ns.append(n)
                    else: st.extend(x.children())
            r = self.occ_[f.get_id()] = (ns, f)
        return r[0]

    # ---------------- sub objects
    def subobj(self, st, sname, idx, obj, off):
        """location of the field sub-object (struct / array typed field)"""
        f = z3.Function('sub_%s' % self.mapname(('F', sname, idx)), I, self.A.isort, I)
        k = self.subkinds.setdefault((sname, idx), len(self.subkinds) + 1)
        t = f(obj, self.A.offz(off))
        self._sub_facts(st, f, k, t, obj, off)
        return PE(t, 0)
    def vdata(self, st, obj, off):
        f = z3.Function('vdata', I, self.A.isort, I)
        k = self.subkinds.setdefault('vdata', len(self.subkinds) + 1)
        t = f(obj, self.A.offz(off))
        self._sub_facts(st, f, k, t, obj, off)
        return t
    def _sub_facts(self, st, f, k, t, obj, off):
        if 'subax%d' % k not in self.prune_cache:
            self.prune_cache['subax%d' % k] = True
            o = z3.Int('o?'); i = z3.Const('i?', self.A.isort)
            g = z3.Function('inv1_' + f.name(), I, I); h = z3.Function('inv2_' + f.name(), I, self.A.isort); kd = z3.Function('kind', I, I)
            rt = z3.Function('root', I, I)
            self.extra_axioms.append(z3.ForAll([o, i], z3.And(g(f(o, i)) == o, h(f(o, i)) == i, kd(f(o, i)) == k, f(o, i) <= -1000000, rt(f(o, i)) == rt(o)), patterns=[f(o, i)]))
    def canon(self, st, p):
        if isinstance(p, PE): return p
        if isinstance(p, PF): return self.subobj(st, p.st, p.idx, p.obj, p.off)
        if isinstance(p, int) and p == 0: return PE(0)
        raise Unsupported('object location of %r' % (p,))

    # ---------------- loads and stores
    def offkeyed(self, st):
        b = st
        return 'iterator' in b or '_Bit_reference' in b or b in self.opts.get('offkeyed', ())
    def read_field(self, st, sname, idx, ty, obj, off):
        m = self.getmap(st, ('F', sname, idx), ty)
        v = sel(sel(m, obj), self.A.offz(off))
        if ty[0] == 'ptr':
            if self.offkeyed(sname):
                mo = self.getmap(st, ('FO', sname, idx), None)
                return PE(v, sel(sel(mo, obj), self.A.offz(off)))
            return PE(v)
        return v
    def root(self, x):
        """the allocation a location belongs to (sub-objects belong to the allocation of their parent)"""
        if z3.is_int_value(x) and x.as_long() > -1000000: return x
        return z3.Function('root', I, I)(x)
    def nonalloc(self, st, v):
        """pointers read from memory are already allocated"""
        st.facts.append(self.root(v) < st.ctr)
    def bounds(self, st, p, sz, what):
        if not self.cur.bounds: return
        if st.disc is not None: return
        if z3.is_app(p.obj) and p.obj.decl().name() == 'vdata':
            n = sel(sel(self.getmap(st, ('VLEN',), None), p.obj.arg(0)), p.obj.arg(1)); o = self.A.offz(p.off)
            if p.prechecked if hasattr(p, 'prechecked') else False: return
            g = z3.ULT(o, n) if self.mode == 'bv' else z3.And(o >= 0, o < n)
            return self.check(st, 'bounds', g, what + ' (vector)')
        L = sel(self.getmap(st, ('LEN',), None), p.obj)
        o = self.A.offz(p.off)
        if z3.is_int_value(p.obj) and p.obj.as_long() < 0:
            pass
        if self.mode == 'bv':
            g = z3.And(z3.ULT(o, z3.BitVecVal(1 << 40, 64)), z3.ULE((o + 1) * sz, L), z3.ULT(L, z3.BitVecVal(1 << 50, 64)))
        else:
            g = z3.And(o >= 0, sz * (o + 1) <= L)
        self.check(st, 'bounds', g, what)
    def vec_bounds(self, st, p, what):
        pass
    def load(self, st, p, ty):
        if isinstance(p, PL):
            if p.key not in st.locals: return UNDEF
            v = st.locals[p.key]
            return v
        if isinstance(p, PV): return p.val
        if isinstance(p, PG):
            k = p.name
            v = st.globals.get(k)
            if v is None:
                v = self.fresh_val(k.strip('@') + '@0', ty, exact=True); st.globals[k] = v
            return v
        if isinstance(p, PF):
            if p.fty != ty:
                f = self.resolve_ty(p.fty) if p.fty[0] == 'struct' else p.fty
                if p.fty[0] in ('struct', 'anon'):
                    return self.load(st, self.canon(st, p), ty)
                if not (p.fty == ('int', 8) and ty == ('int', 1)) and self.tykey(p.fty) != self.tykey(ty):
                    raise Unsupported('load of %s from field of type %s' % (ty, p.fty))
            v = self.read_field(st, p.st, p.idx, p.fty, p.obj, p.off)
            if is_ptr(v): self.nonalloc(st, v.obj)
            self.typefact(st, v, p.fty)
            return v
        if isinstance(p, PE):
            if ty[0] in ('struct', 'anon'):
                at = self.alloca_ty(p)
                if at is None or at[0] not in ('struct', 'anon'): raise Unsupported('aggregate load')
                return ('agg', tuple(self.load(st, self.leaf_ptr(st, p, l[1]), l[2]) for l in self.flat_fields(at)), at)
            at = self.alloca_ty(p)
            if at is not None and at[0] in ('struct', 'anon'):
                return self.load_coerced(st, p, at, ty)
            self.bounds(st, p, self.sizeof(ty), 'load')
            m = self.getmap(st, ('H', self.tykey(ty)), ty)
            v = sel(sel(m, p.obj), self.A.offz(p.off))
            if ty[0] == 'ptr':
                self.nonalloc(st, v)
                return PE(v)
            self.typefact(st, v, ty)
            return v
        if isinstance(p, PVT):
            return PVT(p.obj, p.slot)
        raise Unsupported('load through %r' % (p,))
    def typefact(self, st, v, ty):
        if self.mode == 'int' and ty == ('int', 8) and z3.is_expr(v) and self.opts.get('bool8', True):
            st.facts.append(z3.And(v >= 0, v <= 1)) if self.opts.get('bool8', True) else None
    def alloca_ty(self, p):
        if z3.is_int_value(p.obj):
            return self.alloca_types.get(p.obj.as_long())
        return None
    def flat_fields(self, ty, path=()):
        """scalar leaves of a struct type: [(offset, access path)]"""
        if ty[0] == 'struct':
            rt = self.resolve_ty(ty); offs = self.mod.offsets(rt); r = []
            for i, e in enumerate(rt[1]):
                for (o, pth, lt) in self.flat_fields(e, path + ((ty[1], i),)): r.append((offs[i] + o, pth, lt))
            return r
        if ty[0] == 'anon': return self.flat_fields(self.anon_struct(ty), path)
        if ty[0] == 'array': return [(0, path, ty)]
        return [(0, path, ty)]
    def leaf_ptr(self, st, p, path):
        q = p
        for i, (sn, idx) in enumerate(path):
            q = self.canon(st, q)
            q = PF(sn, idx, q.obj, q.off, self.field_ty(sn, idx))
        return q
    def load_coerced(self, st, p, at, ty):
        """load of a register-coerced struct (clang passes small structs as integers / pointers)"""
        leaves = self.flat_fields(at)
        if len(leaves) >= 1 and leaves[0][2] == ty and self.sizeof(ty) != self.sizeof(at):
            return self.load(st, self.leaf_ptr(st, p, leaves[0][1]), ty)
        if len(leaves) == 1: return self.load(st, self.leaf_ptr(st, p, leaves[0][1]), leaves[0][2])
        return ('agg', tuple(self.load(st, self.leaf_ptr(st, p, l[1]), l[2]) for l in leaves), at)
    def fresh_val(self, name, ty, exact=False):
        mk = (lambda s: z3.Const(name, s)) if exact else (lambda s: fresh(name, s))
        if ty[0] == 'ptr': return PE(mk(I))
        if ty[0] == 'anon' and not exact: return ('agg', tuple(self.fresh_val(name, t) for t in ty[1]), None)
        if ty == ('int', 1): return mk(B)
        return mk(self.vsort(ty))
    def norm_store_val(self, v, ty):
        if ty == ('int', 8) or ty == ('int', 1):
            if z3.is_expr(v) and z3.is_bool(v): return self.A.frombool(v, 8)
        return v
    def store(self, st, p, v, ty):
        if isinstance(p, PL):
            if st.disc is not None: st.disc.locals.add(p.key)
            st.locals[p.key] = v
            return
        if isinstance(p, PG):
            if st.disc is not None: st.disc.globals.add(p.name)
            st.globals[p.name] = v
            return
        if isinstance(v, tuple) and v and v[0] == 'agg':
            at = v[2] if len(v) > 2 and v[2] else None
            pp = self.canon(st, p)
            dt = self.alloca_ty(pp) or at
            if dt is None: raise Unsupported('aggregate store')
            leaves = self.flat_fields(dt)
            if len(leaves) != len(v[1]): raise Unsupported('aggregate shape')
            for l, x in zip(leaves, v[1]): self.store(st, self.leaf_ptr(st, pp, l[1]), x, l[2])
            return
        if isinstance(p, PF):
            if p.fty[0] in ('struct', 'anon'):
                leaves = self.flat_fields(p.fty)
                q = self.canon(st, p)
                if p.fty == ty or len(leaves) != 1: raise Unsupported('struct store')
                return self.store(st, self.leaf_ptr(st, q, leaves[0][1]), v, leaves[0][2])
            if self.tykey(p.fty) != self.tykey(ty): raise Unsupported('store of %s to field of type %s' % (ty, p.fty))
            key = ('F', p.st, p.idx)
            m = self.getmap(st, key, p.fty); o = self.A.offz(p.off)
            if ty[0] == 'ptr':
                if isinstance(v, (PFun, PVT)): return
                if isinstance(v, Undef): v = PE(fresh('undef', I))
                q = self.canon(st, v)
                if self.offkeyed(p.st):
                    mo = self.getmap(st, ('FO', p.st, p.idx), None)
                    self.setmap(st, ('FO', p.st, p.idx), upd(mo, p.obj, upd(sel(mo, p.obj), o, self.A.offz(q.off))), p.obj)
                elif not is_zero(q.off) and (p.st, p.idx) not in [self.fkey(n) for n in self.opts.get('opaque_fields', ())]:      # opaque: an array of strings, never read
                    self.check(st, 'ptr-offset', self.A.offz(q.off) == self.A.offz(0), 'stored pointer points to the start of its object')
                v = q.obj
                if self.offkeyed(p.st) and sel(sel(m, p.obj), o).eq(v): return      # an iterator moved inside its container
            elif isinstance(v, Undef): v = fresh('undef', self.vsort(p.fty))
            else: v = self.norm_store_val(v, ty)
            self.setmap(st, key, upd(m, p.obj, upd(sel(m, p.obj), o, v)), p.obj)
            return
        if isinstance(p, PE):
            at = self.alloca_ty(p)
            if at is not None and at[0] in ('struct', 'anon'):
                leaves = self.flat_fields(at)
                if isinstance(v, tuple): raise Unsupported('agg')
                if isinstance(v, Undef): return
                if len(leaves) >= 1 and (self.tykey(leaves[0][2]) == self.tykey(ty)):
                    return self.store(st, self.leaf_ptr(st, p, leaves[0][1]), v, leaves[0][2])
                raise Unsupported('coerced store of %s into %s' % (ty, at))
            if ty[0] == 'ptr' and isinstance(v, PVT): return       # vtable pointer initialisation
            self.bounds(st, p, self.sizeof(ty), 'store')
            key = ('H', self.tykey(ty)); m = self.getmap(st, key, ty)
            if ty[0] == 'ptr':
                if isinstance(v, (PFun,)): return
                if isinstance(v, Undef): v = PE(fresh('undef', I))
                q = self.canon(st, v)
                if not is_zero(q.off): self.check(st, 'ptr-offset', self.A.offz(q.off) == self.A.offz(0), 'stored pointer points to the start of its object')
                v = q.obj
            elif isinstance(v, Undef): v = fresh('undef', self.vsort(ty))
            else: v = self.norm_store_val(v, ty)
            self.setmap(st, key, upd(m, p.obj, upd(sel(m, p.obj), self.A.offz(p.off), v)), p.obj)
            return
        raise Unsupported('store through %r' % (p,))

    # ---------------- allocation
    def alloc(self, st, nbytes=None):
        o = st.ctr
        st.ctr = z3.simplify(st.ctr + 1)
        if st.disc is not None: st.disc.alloc = True
        if nbytes is not None:
            m = self.getmap(st, ('LEN',), None)
            if st.disc is not None: st.disc.maps.setdefault(('LEN',), []).append(o)
            st.maps[('LEN',)] = upd(m, o, nbytes)
        return PE(o, 0)

    # ---------------- obligations
    def check(self, st, kind, goal, what=''):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if st.disc is not None:
            st.facts.append(goal); return
        if z3.is_true(goal): return
        loc = self.where(st)
        self.obls.append(Obl('%s: %s %s' % (self.cur.name, kind, what), list(st.facts), goal, kind, list(st.trace), loc))
        st.facts.append(goal)
    def where(self, st):
        try:
            fr = st.fr; ins = fr.fn.blocks[fr.block][min(fr.idx, len(fr.fn.blocks[fr.block]) - 1)]
            return '%s:%s' % (self.mod.dem.get(fr.fn.name, fr.fn.name), self.mod.line_of(ins.line))
        except Exception:
            return '?'
    def assume(self, st, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not z3.is_true(f): st.facts.append(f)

    # ---------------- values
    def val(self, st, v):
        k = v.k
        if k == 'reg':
            r = st.fr.regs
            if v.v not in r: raise Unsupported('register %s undefined' % v.v)
            return r[v.v]
        if k == 'int':
            if v.ty == ('int', 1): return z3.BoolVal(bool(v.v))
            return self.A.val(v.v, v.ty[1])
        if k == 'null': return PE(0)
        if k == 'undef': return UNDEF
        if k == 'zero':
            if v.ty[0] == 'ptr': return PE(0)
            if v.ty[0] == 'int': return self.A.val(0, v.ty[1])
            return UNDEF
        if k == 'fp':
            if v.v.startswith('0x'):
                import struct
                h = v.v[2:]
                if h.startswith('K'): return fresh('fp80', z3.RealSort())
                x = struct.unpack('>d', bytes.fromhex(h.zfill(16)))[0]
                if x != x or x in (float('inf'), float('-inf')): return fresh('fp', z3.RealSort())
                from fractions import Fraction
                fr = Fraction(x)
                return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))
            return z3.RealVal(v.v)
        if k == 'glob': return self.globptr(st, v.v)
        if k == 'cgep':
            sty, ops = v.v
            b = self.val(st, ops[0])
            if ops[0].k == 'glob' and ops[0].v.startswith('@_ZTV'): return PVT(None, None)
            return self.gep(st, sty, b, ops[1:])
        if k == 'ccast': return self.val(st, v.v[1])
        raise Unsupported('operand ' + k)
    def glob_ty(self, name):
        g = self.mod.globals.get(name)
        if g is None: raise AnnotationMismatch('no global ' + name)
        m = re.search(r'\b(global|constant) ', g)
        from ir import Toks, ptype
        return ptype(Toks(g[m.end():].split(', align')[0]))
    def globptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls or name in self.mod.aliases: return PFun(name)
        if name.startswith('@_ZTV'): return PVT(None, None)
        ty = self.glob_ty(name)
        if ty[0] in ('int', 'ptr', 'float', 'double'): return PG(name, ty)
        gid = self.globid.setdefault(name, -500000 - len(self.globid))
        return PE(z3.IntVal(gid), 0)
    def findglob(self, short):
        """global by source name"""
        c = []
        for g in self.mod.globals:
            d = g
            if g == '@' + short: return g
            if re.match(r'@_ZL?N?(\d+\w+?)*%d%sE?$' % (len(short), re.escape(short)), g): c.append(g)
        if len(c) == 1: return c[0]
        raise AnnotationMismatch('global ' + short)

    # ---------------- gep
    def gep(self, st, sty, b, ops):
        if isinstance(b, PVT):
            n = 0
            if ops and ops[-1].k == 'int': n = ops[-1].v
            return PVT(b.obj, n)
        if isinstance(b, Undef): raise Unsupported('gep on undef')
        idx0 = self.val(st, ops[0])
        zero0 = is_zero(idx0)
        p = b
        if not zero0:
            if isinstance(p, (PF, PL, PG, PV)) :
                if isinstance(p, PF): p = self.canon(st, p)
                else: raise Unsupported('pointer arithmetic on %r' % (p,))
            w = ops[0].ty[1]
            p = PE(p.obj, self.A.off_add(p.off, idx0 if self.mode != 'bv' or w == 64 else self.A.sext(idx0, w, 64)))
            st.ptrty = None
        ty = sty
        if sty[0] == 'anon' and len(ops) == 2 and isinstance(p, PE) and zero0:      # a struct returned in registers, stored member by member
            at = self.alloca_ty(p)
            if at is not None and at[0] == 'struct':
                leaves = [l for l in self.flat_fields(at) if l[2][0] != 'array']       # without tail padding
                if len(leaves) == len(sty[1]) and all(self.tykey(l[2]) == self.tykey(t) for l, t in zip(leaves, sty[1])): return self.leaf_ptr(st, p, leaves[ops[1].v][1])
        for o in ops[1:]:
            if ty[0] in ('struct', 'anon'):
                if ty[0] == 'anon': ty = self.anon_struct(ty)
                i = o.v
                q = self.canon(st, p)
                fty = self.field_ty(ty[1], i)
                if not is_zero(q.off) and self.cur.bounds: pass
                p = PF(ty[1], i, q.obj, q.off, fty)
                ty = fty
            elif ty[0] == 'array':
                q = self.canon(st, p)
                ix = self.val(st, o)
                if self.mode == 'bv' and o.ty[1] != 64: ix = self.A.sext(ix, o.ty[1], 64)
                if ty[2][0] == 'array': raise Unsupported('nested array')
                p = PE(q.obj, self.A.off_add(q.off, ix))
                ty = ty[2]
            else: raise Unsupported('gep into %s' % (ty,))
        return p

    # ---------------- frames
    def li(self, fn):
        x = self.li_cache.get(fn.name)
        if x is None:
            x = self.li_cache[fn.name] = LoopInfo(fn)
        return x
    def push_frame(self, st, fn, args, ret):
        f = Frame()
        f.fn = fn; f.li = self.li(fn); f.regs = {}; f.block = fn.order[0]; f.idx = 0; f.prev = None; f.ret = ret
        f.names = {}; f.id = next(self.frameid); f.loops = []; f.allocas = {}
        for (ty, nm), a in zip(fn.params, args):
            f.regs[nm] = a
        st.frames.append(f)
        return f

    # ---------------- locals by source name
    def find_local(self, st, name, n=None):
        want = self.rename.get(name, name)
        for fr in reversed(st.frames):
            c = fr.names.get(want)
            if c:
                if n is not None:
                    if n < len(c): return self.local_value(st, fr, c[n][0])
                    continue
                # innermost scope: the declaration with the largest line not after the current loop head
                cur = None
                ln = None
                if fr.loops:
                    ln = self.header_line(fr, fr.loops[-1].header)
                best = None
                for (key, line) in c:
                    if ln is None or line is None or line <= ln:
                        if best is None or (line or 0) >= (best[1] or 0): best = (key, line)
                if best is None: best = c[0]
                return self.local_value(st, fr, best[0])
        raise AnnotationMismatch('no local %s in %s' % (name, [self.mod.dem.get(f.fn.name) for f in st.frames]))
    def scope_line(self, md):
        sc = self.mod.mdattr(md, 'scope')
        if isinstance(sc, str): sc = int(sc.strip('!')) if sc.strip('!').isdigit() else None
        return self.mod.mdattr(sc, 'line') if sc is not None else None
    def header_line(self, fr, h):
        m = None
        for b in fr.li.loops[h]:
            for ins in fr.fn.blocks[b]:
                l = self.mod.line_of(ins.line)
                if l and (m is None or l < m): m = l
        return m
    def local_value(self, st, fr, key):
        if isinstance(key, PE): return key
        v = st.locals.get(key)
        if v is None or isinstance(v, Undef): raise AnnotationMismatch('local %s has no value' % (key,))
        return v
    def local_names(self, st):
        r = []
        for fr in st.frames:
            for nm, c in fr.names.items(): r.append((nm, fr.allocas.get(c[0][0]) if not isinstance(c[0][0], PE) else None))
        return r

    # ---------------- verification of one function
    def verify(self, c):
        """generate all obligations of contract c; returns list"""
        self.cur = c
        name = self.find_function(c.name)
        if name is None: raise AnnotationMismatch('function not found: ' + c.name)
        fn = self.mod.funcs[name]
        st = State()
        st.ctr = z3.Int('ctr@0')
        st.facts.append(st.ctr >= 1)
        self.alloca_types = {}
        args = []
        for k, (ty, nm) in enumerate(fn.params):
            v = self.fresh_val('arg%d_%s' % (k, nm.strip('%')), ty, exact=True)
            if is_ptr(v):
                st.facts.append(z3.And(self.root(v.obj) < st.ctr, self.root(v.obj) >= 0, z3.Or(v.obj >= 0, v.obj <= -1000000)))
            args.append(v)
        self.entry_args = args
        self.fn_name = name
        self.push_frame(st, fn, args, None)
        pre = View(self, st, args)
        reqs = conj(c.requires(pre, *args)) if c.requires else []
        for (nm, f) in reqs: self.assume(st, f)
        self.entry = st.copy()
        self.entry_view = View(self, self.entry, args)
        pre._old = self.entry_view
        if c.entry: c.entry(View(self, st, args, self.entry_view))
        self.pre_facts = list(st.facts)
        self.mods = self.eval_mods(c, self.entry_view, args)
        self.paths = 0
        self.loop_ordinals = self.number_loops(fn, c)
        self.run([st], None)
        for o in self.obls: o.facts = self.defs_for(o.facts + [o.goal]) + o.facts
        return self.obls
    def find_function(self, dem):
        c = self.mod.bydem.get(dem.split(' #')[0])
        if not c:
            return None
        for n in c:
            n2 = self.mod.resolve(n)
            if n2 in self.mod.funcs:
                return n2
        return None
    def eval_mods(self, c, view, args):
        """list of (key, obj or None)"""
        if not c.modifies: return []
        r = []
        for m in c.modifies(view, *args):
            k, o = m
            if isinstance(k, str):
                if '.' in k: s, i = self.fkey(k); k = ('F', s, i)
                elif k in ('VLEN', 'SMEM', 'LEN'): k = (k,)
                else: k = ('H', k)
            if is_ptr(o): o = self.canon(view.st, o).obj
            r.append((k, o))
        return r
    def inlinable(self, fname):
        fn = self.mod.funcs.get(fname)
        return fn is not None
    def number_loops(self, fn, c):
        """ordinals of loops in inlined pre-order: {(callpath, header): ordinal}"""
        res = {}
        cnt = itertools.count(0)
        def walk(f, path, depth):
            li = self.li(f)
            for b in f.order:
                if b in li.loops: res[(path, b)] = next(cnt)
                if depth > 6: continue
                for ii, ins in enumerate(f.blocks[b]):
                    if ins.op in ('call', 'invoke') and ins.a[1].k == 'glob':
                        nm = self.mod.resolve(ins.a[1].v)
                        d = self.mod.dem.get(nm, nm)
                        if nm in self.mod.funcs and d not in self.contracts and not self.model_for(d) and nm != f.name:
                            if self.mod.funcs[nm] is not f and all(nm != x for x in path):
                                walk(self.mod.funcs[nm], path + (nm,), depth + 1)
        walk(fn, (), 0)
        return res
    def model_for(self, d):
        for rx, fnc in self.models:
            m = rx.match(d)
            if m: return (rx, fnc, m)
        return None

    # ---------------- exploration
    def run(self, work, stop_loop):
        """explore all states; stop_loop = (frame depth, header) for discovery runs"""
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.MAXPATHS: raise TooManyPaths()
            nxt = self.step_path(st, stop_loop)
            work.extend(nxt)
    def step_path(self, st, stop):
        while True:
            fr = st.fr
            ins = fr.fn.blocks[fr.block][fr.idx]
            op = ins.op
            if op == 'br':
                if ins.a[0] is None:
                    r = self.goto(st, ins.a[1], stop)
                    if r is None: return []
                    st = r
                    continue
                cv = self.val(st, ins.a[0])
                if isinstance(cv, Undef): cv = fresh('undefbr', B)
                cv = z3.simplify(cv) if not (z3.is_true(cv) or z3.is_false(cv)) else cv
                out = []
                if z3.is_true(cv) and st.disc is None: targets = [(None, ins.a[1])]
                elif z3.is_false(cv) and st.disc is None: targets = [(None, ins.a[2])]
                else: targets = [(cv, ins.a[1]), (z3.Not(cv), ins.a[2])]
                if len(targets) == 1:
                    r = self.goto(st, targets[0][1], stop)
                    if r is None: return []
                    st = r; continue
                for (cnd, tgt) in targets:
                    s2 = st.copy()
                    s2.facts.append(cnd)
                    s2.trace.append('%s:%s->%s' % (self.mod.dem.get(fr.fn.name, '?').split('(')[0].split('::')[-1], self.mod.line_of(ins.line), tgt))
                    if st.disc is None and not self.feasible(s2): continue
                    r = self.goto(s2, tgt, stop)
                    if r is not None: out.append(r)
                return out
            if op == 'switch':
                v = self.val(st, ins.a[0]); out = []
                neg = []
                for (cval, tgt) in ins.a[2]:
                    e = v == self.val(st, cval); neg.append(z3.Not(e))
                    s2 = st.copy(); s2.facts.append(e)
                    if st.disc is None and not self.feasible(s2): continue
                    r = self.goto(s2, tgt, stop)
                    if r is not None: out.append(r)
                st.facts.extend(neg)
                if st.disc is not None or self.feasible(st):
                    r = self.goto(st, ins.a[1], stop)
                    if r is not None: out.append(r)
                return out
            if op == 'ret':
                rv = self.val(st, ins.a[0]) if ins.a[0] is not None else None
                if len(st.frames) == 1:
                    if stop is None: self.finish(st, rv)
                    return []
                if stop is not None and len(st.frames) <= stop[0]: return []     # left the discovery loop
                ret = fr.ret
                st.frames.pop()
                if ret is not None:
                    if ret[0]: st.fr.regs[ret[0]] = rv
                    if ret[1]:
                        r = self.goto(st, ret[1], stop)
                        if r is None: return []
                        st = r; continue
                st.fr.idx += 1
                continue
            if op in ('unreachable', 'resume'):
                return []
            if op in ('call', 'invoke'):
                r = self.call(st, ins, stop)
                if isinstance(r, str) and r == 'dead': return []
                if isinstance(r, list): return r
                if isinstance(r, str) and r == 'pushed': continue
                if op == 'invoke':
                    q = self.goto(st, ins.a[3], stop)
                    if q is None: return []
                    st = q; continue
                fr.idx += 1
                continue
            self.simple(st, fr, ins)
            fr.idx += 1

    def feasible(self, st):
        """cheap refutation of a path using quantifier-free facts only"""
        s = z3.SimpleSolver()
        s.set('timeout', 150)
        for f in self.defs_for(st.facts[-1:]) + st.facts:
            if not has_quant(f): s.add(f)
        return s.check() != z3.unsat

    def goto(self, st, tgt, stop):
        fr = st.fr
        prev = fr.block
        # leave loops
        while fr.loops and tgt not in fr.li.loops[fr.loops[-1].header]:
            lc = fr.loops.pop()
        if stop is not None and len(st.frames) == stop[0] and tgt not in fr.li.loops[stop[1]]:
            return None
        if tgt in fr.li.loops:
            # phi at loop head unsupported at -O0 except arrayctor loops
            if prev in fr.li.loops[tgt] and fr.loops and fr.loops[-1].header == tgt:
                if fr.loops[-1].spec is not None and fr.loops[-1].spec.unroll:
                    lc = fr.loops[-1]
                    lc.count += 1
                    if lc.count > lc.spec.unroll:
                        self.check(st, 'unwinding', z3.BoolVal(False), 'loop %s unrolled %d times' % (lc.ordinal, lc.spec.unroll))
                        return None
                    self.enter_block(st, tgt, prev); return st
                # back edge
                self.back_edge(st, fr.loops[-1], prev)
                return None
            if stop is not None and len(st.frames) == stop[0] and tgt == stop[1] and not (fr.loops and fr.loops[-1].header == tgt):
                # back edge of discovery loop
                self.disc_back(st)
                return None
            return self.enter_loop(st, tgt, prev, stop)
        self.enter_block(st, tgt, prev)
        return st
    def enter_block(self, st, tgt, prev):
        fr = st.fr
        ins = fr.fn.blocks[tgt]
        vals = []
        for i in ins:
            if i.op != 'phi': break
            for v, l in i.a[1]:
                if l == prev:
                    vals.append((i.res, self.val(st, v))); break
            else: raise Unsupported('phi without incoming')
        for r, v in vals: fr.regs[r] = v
        fr.prev = prev; fr.block = tgt; fr.idx = len(vals)
    def disc_back(self, st):
        for k in st.disc.locals:
            v = st.locals.get(k)
            st.disc.kinds.setdefault(k, set()).add(type(v).__name__)

    def loop_spec(self, st, header):
        fr = st.fr
        path = tuple(f.fn.name for f in st.frames[1:])
        o = self.loop_ordinals.get((path, header))
        # loops of other (contracted) functions never appear here
        return self.cur.loops.get(o), o

    def havoc_ptr(self, kinds, entryv):
        ks = set(kinds)
        if ks <= {'PE'} and (entryv is None or isinstance(entryv, (PE, Undef))):
            return PE(fresh('hp', I), fresh('hoff', self.A.isort))
        return UNDEF

    def enter_loop(self, st, header, prev, stop):
        fr = st.fr
        spec, o = self.loop_spec(st, header)
        has_phi = fr.fn.blocks[header][0].op == 'phi'
        lc = LoopCtx(header, spec, o)
        if spec is not None and spec.unroll:
            lc.count = 0
            fr.loops.append(lc)
            self.enter_block(st, header, prev); return st
        if has_phi:
            return self.phi_loop(st, header, prev, stop)
        if spec is None:
            if self.opts.get('noinv') or self.cur.opts.get('noinv'):
                spec = lc.spec = Loop()
            else:
                raise AnnotationMismatch('loop %s (%s) of %s has no invariant' % (o, header, self.mod.dem.get(fr.fn.name)))
        base = View(self, st, self.entry_args, self.entry_view)
        # 1. invariants hold on entry
        lc.entry = View(self, st.copy(), self.entry_args, self.entry_view)
        fr.loops.append(lc)
        if st.disc is None:
            if spec.init_lemma:
                for (nm, f) in conj(spec.init_lemma(base)): self.assume(st, f)
            n0 = len(st.facts)
            for i, (nm, f) in enumerate(conj(spec.inv(base)) if spec.inv else []):
                self.check(st, 'loop%s-init' % o, f, nm or '#%d' % i)
            if self.opts.get('forget'): st.facts[n0:] = [f for f in st.facts[n0:] if not z3.is_quantifier(f)]
        # 2. what does the body write
        W = Disc()
        k = 0
        while True:
            d = Disc()
            s2 = st.copy()
            s2.frames[-1].loops.pop()
            s2.disc = d
            ser = serial_now()
            hctr = self.havoc(s2, W, first=(k == 0))
            depth = len(s2.frames)
            lc.head = View(self, s2.copy(), self.entry_args, self.entry_view)
            self.enter_block(s2, header, prev)
            saved = self.paths
            self.run([s2], (depth, header))
            self.paths = saved
            new = False
            d.locals = {kk for kk in d.locals if any(kk in f_.allocas for f_ in st.frames)}      # not the locals of inlined callees
            d.kinds = {kk: vv for kk, vv in d.kinds.items() if kk in d.locals}
            if not d.locals <= W.locals: new = True
            if not d.globals <= W.globals: new = True
            if not set(d.maps) <= set(W.maps): new = True
            if d.alloc and not W.alloc: new = True
            for kk, vv in d.kinds.items():
                if not vv <= W.kinds.get(kk, set()): new = True
            W.locals |= d.locals; W.globals |= d.globals; W.alloc |= d.alloc
            for kk, vv in d.kinds.items(): W.kinds.setdefault(kk, set()).update(vv)
            last = d.maps
            for m, objs in d.maps.items():
                if m[0] == 'F' and self.offkeyed(m[1]) and (m not in W.maps or m in W.iters):
                    io = sorted({ob.as_long() for ob in objs if ob is not None and z3.is_int_value(ob)})
                    if len(io) == len({str(ob) for ob in objs}):
                        io2 = sorted({*io, *[x.as_long() for x in W.iters.get(m, [])]})
                        if m not in W.iters or len(io2) > len(W.iters[m]): new = True
                        W.iters[m] = [z3.IntVal(x) for x in io2]
                    elif m in W.iters: del W.iters[m]; new = True
                W.maps.setdefault(m, [])
            k += 1
            if not new and k > 1: break
            if not new and not W.maps and not W.locals and not W.globals: break
            if k > 8: raise Unsupported('discovery does not stabilise')
        # 3. havoc
        plan = {}
        for m in W.maps:
            objs = last.get(m, [])
            inv = []; ok = True; al = False
            for ob in objs:
                if ob is None: ok = False; break
                sy = syms(ob)
                if any(s > ser for s in sy):
                    if hctr is not None and is_ctr_based(ob, hctr): al = True; continue
                    ok = False; break
                if not any(ob.eq(x) for x in inv): inv.append(ob)
            frame_objs = None
            if spec.frame is not None:
                fr_spec = spec.frame(base)
                for kk, oo in fr_spec.items():
                    key = kk
                    if isinstance(kk, str):
                        if '.' in kk: s_, i_ = self.fkey(kk); key = ('F', s_, i_)
                        elif kk in ('VLEN', 'SMEM', 'LEN'): key = (kk,)
                        else: key = ('H', kk)
                    if key == m:
                        frame_objs = [self.canon(st, x).obj if is_ptr(x) else x for x in oo]
            if frame_objs is not None: plan[m] = ('checked', frame_objs, W.alloc)
            elif ok: plan[m] = ('auto', inv, al)
            else:
                fm = [oo for (kk, oo) in self.mods if kk == m]
                if fm and all(x is not None for x in fm) or (not fm and m in self.fn_frame_keys):
                    plan[m] = ('checked', list(fm), W.alloc)
                elif not fm and W.alloc:
                    plan[m] = ('checked', [], W.alloc)
                else: plan[m] = ('all', None, False)
        self.apply_havoc(st, W, plan)
        lc.plan = plan; lc.entry_maps = self._pre_maps; lc.entry_ctr = self._pre_ctr
        # 4. assume invariants, variant
        v2 = View(self, st, self.entry_args, self.entry_view)
        if st.disc is None:
            for (nm, f) in (conj(spec.inv(v2)) if spec.inv else []): self.assume(st, f)
            if spec.lemma:
                for (nm, f) in conj(spec.lemma(v2)): self.assume(st, f)
        lc.head = View(self, st.copy(), self.entry_args, self.entry_view)
        if spec.variant and st.disc is None: lc.variant = spec.variant(v2)
        st.trace.append('loop%s' % o)
        self.enter_block(st, header, prev)
        return st
    fn_frame_keys = ()
    def havoc(self, st, W, first=False):
        """discovery havoc: everything in W fresh"""
        for k in W.locals:
            old = st.locals.get(k)
            self.set_havoc(st, k, old, W)
        for k in W.globals: self.havoc_global(st, k)
        for m in W.maps:
            old = self.getmap(st, m, None) if m in W.iters else None; M = fresh('hv_' + self.mapname(m), self.mapsort(m, None))
            if m in W.iters:        # iterators in local variables: only those written (the set of written ones is iterated to a fixed point as well)
                M = old
                for ob in W.iters[m]: M = upd(M, ob, fresh('hv_' + self.mapname(m), M.sort().range()))
            st.maps[m] = M
        if W.alloc or first:
            c = fresh('ctr', I); st.facts.append(c >= st.ctr); st.ctr = c
            return c
        return None
    def havoc_global(self, st, k):
        if isinstance(k, tuple) and k[0] == 'ghost':
            st.ghost[k[1]] = fresh('g_' + k[1], self.ghost_sorts[k[1]])
        else:
            ty = self.glob_ty(k)
            st.globals[k] = self.fresh_val('g_' + k.strip('@'), ty)
    def set_havoc(self, st, k, old, W):
        if not any(k in fr.allocas for fr in st.frames):
            st.locals.pop(k, None); return          # local of a function inlined in the loop body: created anew in each iteration
        st.locals[k] = self.havoc_local(st, k, old, W)
    def havoc_local(self, st, k, old, W):
        ty = None
        for fr in st.frames:
            if k in fr.allocas: ty = fr.allocas[k]
        if ty is None: raise Unsupported('type of local')
        if ty[0] == 'ptr': return self.havoc_ptr(W.kinds.get(k, set()), old)
        v = self.fresh_val('h_%s' % (k[1].strip('%'),), ty)
        if ty == ('int', 8) and self.mode == 'int' and self.opts.get('bool8', True):
            st.facts.append(z3.And(v >= 0, v <= 1))
        return v
    def apply_havoc(self, st, W, plan):
        self._pre_maps = dict(st.maps); self._pre_ctr = st.ctr
        if W.alloc:
            c = fresh('ctr', I); st.facts.append(c >= st.ctr); st.ctr = c
        for k in W.locals: self.set_havoc(st, k, st.locals.get(k), W)
        for k in W.globals: self.havoc_global(st, k)
        for m, (kind, objs, al) in plan.items():
            M = self.getmap(st, m, None)
            if st.disc is not None: st.disc.maps.setdefault(m, []).extend(objs if objs is not None and kind != 'all' and not any(callable(o) for o in objs) else [None])
            rs = M.sort().range()
            if kind == 'all':
                st.maps[m] = fresh('hv_' + self.mapname(m), M.sort())
            elif not al and not any(callable(o) for o in objs):
                N = M
                for ob in objs: N = upd(N, ob, fresh('hv_' + self.mapname(m), rs))
                st.maps[m] = N
            else:
                N = fresh('hv_' + self.mapname(m), M.sort())
                x = z3.Int('x?')
                st.facts.append(z3.ForAll([x], z3.Implies(z3.And(self.root(x) < self._pre_ctr, *notin(x, objs)), z3.Select(N, x) == z3.Select(M, x)), patterns=[z3.Select(N, x)]))
                st.maps[m] = N
        if st.disc is not None:
            st.disc.locals |= W.locals; st.disc.globals |= W.globals; st.disc.alloc |= W.alloc
            for kk, vv in W.kinds.items(): st.disc.kinds.setdefault(kk, set()).update(vv)
        # keep LEN monotone facts: lengths of existing objects never change
    def back_edge(self, st, lc, prev):
        if st.disc is not None: 
            return
        self.obls.append(Obl('%s: loop %s can repeat' % (self.cur.name, lc.ordinal), list(st.facts), z3.BoolVal(False), 'cover', list(st.trace), ''))
        v = View(self, st, self.entry_args, self.entry_view)
        if lc.spec.lemma:
            for (nm, f) in conj(lc.spec.lemma(v)): self.assume(st, f)
        for i, (nm, f) in enumerate(conj(lc.spec.inv(v)) if lc.spec.inv else []):
            self.check(st, 'loop%s-preserved' % lc.ordinal, f, nm or '#%d' % i)
        if lc.spec.variant:
            nv = lc.spec.variant(v)
            if isinstance(nv, (list, tuple)):
                old = lc.variant; alts = []
                for i in range(len(nv)):
                    alts.append(z3.And(*[nv[j] == old[j] for j in range(i)], nv[i] < old[i], old[i] >= 0))
                self.check(st, 'loop%s-variant' % lc.ordinal, z3.Or(*alts), 'decreases')
            else:
                self.check(st, 'loop%s-variant' % lc.ordinal, z3.And(nv < lc.variant, lc.variant >= 0), 'decreases and is bounded')
        for m, (kind, objs, al) in lc.plan.items():
            if kind != 'checked': continue
            M0 = lc.entry_maps.get(m); M1 = self.getmap(st, m, None)
            if M0 is None: M0 = z3.Const(self.mapname(m) + '@0', M1.sort())
            x = fresh('fx', I)
            self.check(st, 'loop%s-frame' % lc.ordinal, z3.Implies(z3.And(x != 0, self.root(x) < lc.entry_ctr, *notin(x, objs)), sel(M1, x) == sel(M0, x)), self.mapname(m))
    def phi_loop(self, st, header, prev, stop):
        """clang's array construction / destruction loops (arrayctor.loop, arraydestroy.body): apply the element constructor's model"""
        fr = st.fr
        h = self.opts.get('array_ctor')
        blk = fr.fn.blocks[header]
        cs = [i for i in blk if i.op in ('call', 'invoke') and i.a[1].k == 'glob']
        if len(cs) != 1: raise Unsupported('loop with phi')
        d = self.mod.dem.get(self.mod.resolve(cs[0].a[1].v), cs[0].a[1].v)
        exits = [s for s in fr.li.succ[header] if s != header]
        # base pointer and end
        phi = blk[0]
        ini = [v for v, l in phi.a[1] if l == prev][0]
        p = self.val(st, ini)
        from models import array_ctor
        if not array_ctor(self, st, d, p, fr, header): raise Unsupported('array constructor of ' + d)
        return self.goto(st, exits[0], stop)

    # ---------------- function exit
    def finish(self, st, rv):
        c = self.cur
        if st.disc is not None: return
        self.obls.append(Obl('%s: return reachable' % c.name, list(st.facts), z3.BoolVal(False), 'cover', list(st.trace), ''))
        v = View(self, st, self.entry_args, self.entry_view)
        if c.pre_return: c.pre_return(v, rv)
        if c.lemma:
            for (nm, f) in conj(c.lemma(v, rv, *self.entry_args)): self.assume(st, f)
        for i, (nm, f) in enumerate(conj(c.ensures(v, rv, *self.entry_args)) if c.ensures else []):
            self.check(st, 'ensures', f, nm or '#%d' % i)
        # frame
        for m, M1 in st.maps.items():
            M0 = self.entry.maps.get(m)
            if M0 is None: M0 = z3.Const(self.mapname(m) + '@0', M1.sort())
            if M0.eq(M1): continue
            if m[0] == 'LEN': continue
            objs = [o for (k, o) in self.mods if k == m]
            if any(o is None for o in objs): continue
            x = fresh('fx', I)
            # locals and newly allocated objects (and their sub-objects) are not observable
            cond = [x != 0, self.pre_existing(x)] + notin(x, objs)
            self.check(st, 'frame', z3.Implies(z3.And(*cond), sel(M1, x) == sel(M0, x)), self.mapname(m))
        for g in st.globals:
            g0 = self.entry.globals.get(g)
            v1 = st.globals[g]
            if g0 is None: g0 = self.fresh_val(g.strip('@') + '@0', self.glob_ty(g), exact=True)
            a, b = (g0.obj, v1.obj) if is_ptr(v1) and isinstance(v1, PE) else (g0, v1)
            if a.eq(b): continue
            if any(g == x or self._gshort(x) == g for x in c.globals_mod): continue
            self.check(st, 'frame', a == b, 'global ' + g)
        for g in st.ghost:
            if g in c.ghost_mod: continue
            g0 = self.entry.ghost.get(g)
            if g0 is None: g0 = z3.Const('ghost.%s@0' % g, self.ghost_sorts[g])
            if not g0.eq(st.ghost[g]): self.check(st, 'frame', g0 == st.ghost[g], 'ghost ' + g)
    def _gshort(self, x):
        try: return self.findglob(x)
        except Exception: return x
    def pre_existing(self, x):
        """x is (part of) an object that existed when the function was called and is not a local of it"""
        r = self.root(x)
        return z3.And(z3.Or(z3.And(r >= 0, r < self.entry.ctr), z3.And(r <= -500000, r > -1000000)), z3.Or(x >= 0, x <= -500000))

    # ---------------- simple instructions
    def simple(self, st, fr, ins):
        op = ins.op; R = fr.regs; A = self.A
        if op == 'alloca':
            ty = ins.a[0]
            if ins.a[1] is not None and not (ins.a[1].k == 'int' and ins.a[1].v == 1): raise Unsupported('variable length array')
            if ty[0] in ('int', 'ptr', 'float', 'double', 'x86_fp80'):
                key = (fr.id, ins.res); fr.allocas[key] = ty
                R[ins.res] = PL(key, ty)
            else:
                oid = -next(self.allocc)
                if ty[0] == 'anon': ty = self.anon_struct(ty)
                self.alloca_types[oid] = ty if ty[0] != 'array' else None
                R[ins.res] = PE(z3.IntVal(oid), 0)
                if ty[0] == 'array':
                    m = self.getmap(st, ('LEN',), None)
                    st.maps[('LEN',)] = upd(m, z3.IntVal(oid), A.val(self.sizeof(ty), 64) if self.mode == 'bv' else z3.IntVal(self.sizeof(ty)))
            return
        if op == 'store':
            v = self.val(st, ins.a[0]); p = self.val(st, ins.a[1])
            self.store(st, p, v, ins.a[0].ty); return
        if op == 'load':
            p = self.val(st, ins.a[1])
            v = self.load(st, p, ins.a[0])
            if ins.a[0] == ('ptr',) and isinstance(v, PE) and isinstance(p, PE) and ins.res.startswith('%vtable'):
                v = PVT(p, 0)
            if ins.res.startswith('%vtable'):
                v = PVT(p, 0)
            R[ins.res] = v; return
        if op == 'getelementptr':
            b = self.val(st, ins.a[1][0])
            r = self.gep(st, ins.a[0], b, ins.a[1][1:])
            R[ins.res] = r
            return
        if op == 'icmp':
            pred, ty, a, b = ins.a; a = self.val(st, a); b = self.val(st, b)
            if ty[0] == 'ptr': R[ins.res] = self.ptrcmp(st, pred, a, b)
            elif ty == ('int', 1):
                R[ins.res] = (a == b) if pred == 'eq' else (a != b) if pred == 'ne' else UNDEF
            else:
                if isinstance(a, Undef): a = fresh('undef', A.sort(ty[1]))
                if isinstance(b, Undef): b = fresh('undef', A.sort(ty[1]))
                R[ins.res] = A.icmp(pred, ty[1], a, b)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'fneg', 'frem'):
            return self.fp(st, fr, ins)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            ty, a, b, fl = ins.a; a = self.val(st, a); b = self.val(st, b)
            if ty == ('int', 1):
                R[ins.res] = {'and': lambda: z3.And(a, b), 'or': lambda: z3.Or(a, b), 'xor': lambda: z3.Xor(a, b) if not z3.is_true(b) else z3.Not(a),
                              'add': lambda: z3.Xor(a, b)}[op](); return
            if isinstance(a, Undef): a = fresh('undef', A.sort(ty[1]))
            if isinstance(b, Undef): b = fresh('undef', A.sort(ty[1]))
            if op in ('sdiv', 'udiv', 'srem', 'urem') and not (z3.is_int_value(b) or z3.is_bv_value(b)):
                self.check(st, 'div-by-zero', b != A.val(0, ty[1]), '')
            if is_ptr(a) or is_ptr(b): raise Unsupported('integer arithmetic on pointers')
            r = A.binop(op, ty[1], a, b, fl, self)
            if self.cur.opts.get('overflow') and 'nsw' in fl and self.mode == 'int' and op in ('add', 'sub', 'mul'):
                h = 1 << (ty[1] - 1)
                self.check(st, 'overflow', z3.And(r >= -h, r < h), op)
            R[ins.res] = r
            return
        if op in ('zext', 'sext', 'trunc'):
            ty, v, ty2 = ins.a; v = self.val(st, v)
            if isinstance(v, Undef): v = fresh('undef', A.sort(ty[1])) if ty[1] != 1 else fresh('undef', B)
            if ty[1] == 1:
                R[ins.res] = (A.frombool(v, ty2[1]) if op == 'zext' else z3.If(v, A.val(-1, ty2[1]), A.val(0, ty2[1])))
            elif ty2[1] == 1: R[ins.res] = A.tobool(v, ty[1])
            else: R[ins.res] = getattr(A, op)(v, ty[1], ty2[1])
            return
        if op == 'select':
            c = self.val(st, ins.a[0]); a = self.val(st, ins.a[1]); b = self.val(st, ins.a[2])
            if z3.is_true(c): R[ins.res] = a; return
            if z3.is_false(c): R[ins.res] = b; return
            if is_ptr(a):
                if isinstance(a, PE) and isinstance(b, PE):
                    R[ins.res] = PE(z3.If(c, a.obj, b.obj), 0 if is_zero(a.off) and is_zero(b.off) else z3.If(c, A.offz(a.off), A.offz(b.off)))
                    return
                raise Unsupported('select on pointers')
            R[ins.res] = z3.If(c, a, b); return
        if op == 'extractvalue':
            v = self.val(st, ins.a[0])
            if isinstance(v, Undef): R[ins.res] = UNDEF; return
            for i in ins.a[1]: v = v[1][i]
            R[ins.res] = v; return
        if op == 'insertvalue':
            ty, v, w, idx = ins.a; v = self.val(st, v); w = self.val(st, w)
            n = len(ty[1]) if ty[0] == 'anon' else len(self.resolve_ty(ty)[1])
            cur = list(v[1]) if isinstance(v, tuple) else [UNDEF] * n
            cur[idx[0]] = w
            R[ins.res] = ('agg', tuple(cur), None); return
        if op in ('bitcast', 'freeze'):
            R[ins.res] = self.val(st, ins.a[1]); return
        if op in ('sitofp', 'uitofp'):
            v = self.val(st, ins.a[1])
            if self.mode == 'bv': R[ins.res] = fresh('fp', z3.RealSort()); return
            R[ins.res] = z3.ToReal(v if op == 'sitofp' else A.u(v, ins.a[0][1])); return
        if op in ('fpext', 'fptrunc'): R[ins.res] = self.val(st, ins.a[1]); return
        if op in ('fptosi', 'fptoui'):
            v = self.val(st, ins.a[1])
            if self.mode == 'bv': R[ins.res] = fresh('fpi', A.sort(ins.a[2][1])); return
            R[ins.res] = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)); return
        if op == 'ptrtoint':
            raise Unsupported('ptrtoint')
        if op in ('landingpad', 'fence'):
            R[ins.res] = UNDEF; return
        if op == 'phi': raise Unsupported('phi in the middle of a block')
        raise Unsupported(op)
    def fp(self, st, fr, ins):
        op = ins.op
        if op == 'fcmp':
            pred, ty, a, b = ins.a; a = self.val(st, a); b = self.val(st, b)
            p = pred[1:] if pred not in ('true', 'false', 'ord', 'uno') else pred
            fr.regs[ins.res] = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'ord': z3.BoolVal(True), 'uno': z3.BoolVal(False)}[p]
            return
        if op == 'fneg': fr.regs[ins.res] = -self.val(st, ins.a[1]); return
        ty, a, b, fl = ins.a; a = self.val(st, a); b = self.val(st, b)
        fr.regs[ins.res] = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
    def ptrcmp(self, st, pred, a, b):
        def isnull(x): return isinstance(x, PE) and is_zero(x.obj) if isinstance(x, PE) else False
        for x, y in ((a, b), (b, a)):
            if isnull(x) and isinstance(y, (PF, PL, PG, PV, PFun)):
                return z3.BoolVal(pred == 'ne')
        if isinstance(a, (PF,)): a = self.canon(st, a)
        if isinstance(b, (PF,)): b = self.canon(st, b)
        if isinstance(a, PL) and isinstance(b, PL): e = z3.BoolVal(a.key == b.key)
        elif isinstance(a, PE) and isinstance(b, PE):
            e = a.obj == b.obj
            if not (is_zero(a.off) and is_zero(b.off)): e = z3.And(e, self.A.offz(a.off) == self.A.offz(b.off))
        else: raise Unsupported('pointer comparison')
        if pred == 'eq': return e
        if pred == 'ne': return z3.Not(e)
        raise Unsupported('pointer order comparison')

    # ---------------- calls
    def call(self, st, ins, stop):
        rty, callee, argv, nxt = ins.a
        fr = st.fr
        if callee.k == 'reg':
            f = self.val(st, callee)
            if isinstance(f, PFun): name = self.mod.resolve(f.name)
            elif isinstance(f, PVT):
                return self.virtual_call(st, ins, f, stop)
            else: raise Unsupported('indirect call')
        else:
            if callee.v.startswith('@llvm.'): return self.intrinsic(st, ins, callee.v[1:], stop)
            name = self.mod.resolve(callee.v)
        d = self.mod.dem.get(name, name)
        d = self.opts.get('callmap', {}).get(d, d)
        args = [self.val(st, a) for a in argv]
        c = self.contracts.get(d)
        if c is not None and d not in self.cur.opts.get('inline', ()):
            return self.call_contract(st, ins, c, args, d)
        m = self.model_for(d)
        if m is not None:
            self.used_models.add(m[0].pattern)
            r = m[1](self, st, d, args, ins, m[2])
            if isinstance(r, str) and r == 'dead': return 'dead'
            if ins.res is not None: fr.regs[ins.res] = r
            return None
        if name in self.mod.funcs:
            if any(f.fn.name == name for f in st.frames): raise Unsupported('recursive call without contract: ' + d)
            if len(st.frames) > 12: raise Unsupported('inline depth')
            fl = self.mod.func_loc(self.mod.funcs[name])
            self.inlined.add(d)
            self.push_frame(st, self.mod.funcs[name], args, (ins.res, nxt if ins.op == 'invoke' else None))
            return 'pushed'
        raise Unsupported('call to %s (no contract, model or body)' % d)
    def virtual_call(self, st, ins, f, stop):
        args = [self.val(st, a) for a in ins.a[2]]
        tgt = self.cur.virtual.get(f.slot)
        if tgt is None: tgt = self.opts.get('virtual', {}).get(f.slot)
        if tgt is None:
            if ins.a[0] == ('void',) and len(args) == 1 and f.slot in (0, 1) and self.opts.get('virtual_dtor', True):
                self.used_models.add('virtual destructor (no observable effect)')
                return None
            raise Unsupported('virtual call slot %s' % f.slot)
        c = self.contracts.get(tgt)
        if c is None: raise Unsupported('virtual target without contract ' + tgt)
        return self.call_contract(st, ins, c, args, tgt)
    def call_contract(self, st, ins, c, args, d):
        self.used_contracts.add(d)
        fr = st.fr
        args = [PE(0) if isinstance(a, Undef) else a for a in args]
        pre = View(self, st, args)
        for i, (nm, f) in enumerate(conj(c.requires(pre, *args)) if c.requires else []):
            self.check(st, 'precondition of %s' % d.split('(')[0], f, nm or '#%d' % i)
        if c is self.cur and c.decreases and st.disc is None:
            m1 = c.decreases(pre, *args); m0 = c.decreases(self.entry_view, *self.entry_args)
            self.check(st, 'recursion', z3.And(m1 < m0, m0 >= 0), 'measure decreases')
        old = st.copy()
        oldv = View(self, old, args)
        mods = self.eval_mods(c, oldv, args)
        if c.allocs:
            cc = fresh('ctr', I); st.facts.append(cc >= st.ctr); st.ctr = cc
            if st.disc is not None: st.disc.alloc = True
        bykey = {}
        for k, o in mods: bykey.setdefault(k, []).append(o)
        if c.allocs and ('LEN',) not in bykey: bykey[('LEN',)] = []
        for k, objs in bykey.items():
            ty = None
            if k[0] == 'H': ty = self.parse_ty(k[1])
            elif k[0] == 'F': ty = self.field_ty(k[1], k[2])
            M = self.getmap(st, k, ty)
            if any(o is None for o in objs):
                N = fresh('c_' + self.mapname(k), M.sort())
                self.setmap(st, k, N, None)
            elif c.allocs or any(callable(o) for o in objs):
                N = fresh('c_' + self.mapname(k), M.sort())
                x = z3.Int('x?')
                st.facts.append(z3.ForAll([x], z3.Implies(z3.And(self.root(x) < old.ctr, *notin(x, objs)), z3.Select(N, x) == z3.Select(M, x)), patterns=[z3.Select(N, x)]))
                st.maps[k] = N
                if st.disc is not None:
                    L = st.disc.maps.setdefault(k, [])
                    L.extend([None if callable(o) else o for o in objs]); L.append(old.ctr)
            else:
                for ob in objs:
                    M = upd(M, ob, fresh('c_' + self.mapname(k), M.sort().range()))
                    self.setmap(st, k, M, ob)
        for g in c.globals_mod:
            gn = self.findglob(g)
            if st.disc is not None: st.disc.globals.add(gn)
            self.havoc_global(st, gn)
        for g in c.ghost_mod:
            if st.disc is not None: st.disc.globals.add(('ghost', g))
            st.ghost[g] = fresh('g_' + g, self.ghost_sorts[g])
        rv = None
        if ins.a[0] != ('void',):
            rv = self.fresh_val('ret_' + d.split('(')[0].split('::')[-1], ins.a[0])
            for q in (rv[1] if isinstance(rv, tuple) else [rv]):
                if is_ptr(q): st.facts.append(self.root(q.obj) < st.ctr)
            if ins.res is not None: fr.regs[ins.res] = rv
        post = View(self, st, args, oldv)
        for (nm, f) in conj(c.ensures(post, rv, *args)) if c.ensures else []: self.assume(st, f)
        lm = self.cur.call_lemmas.get(d)
        if lm:
            cv = View(self, st, self.entry_args, self.entry_view)
            for (nm, f) in conj(lm(cv, View(self, old, args), post, rv, *args)): self.assume(st, f)
        return None
    def intrinsic(self, st, ins, name, stop):
        R = st.fr.regs
        args = ins.a[2]
        if name.startswith('llvm.dbg.declare'):
            a = args[0].v; md = args[1].v
            if a[0] == '%' and a in R and md.startswith('!'):
                nm = self.mod.mdattr(int(md[1:]), 'name'); ln = self.mod.mdattr(int(md[1:]), 'line') or self.scope_line(int(md[1:]))
                p = R[a]
                k = p.key if isinstance(p, PL) else p
                lst = st.fr.names.setdefault(nm, [])
                if nm and not any((x[0] == k) if not isinstance(k, PE) else (isinstance(x[0], PE) and x[0].obj.eq(k.obj)) for x in lst):
                    lst.append((k, int(ln) if ln else None))
            return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore')): 
            return None
        if name.startswith('llvm.umul.with.overflow'):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            R[ins.res] = ('agg', (a * b, z3.BoolVal(False)), None); return None
        if name.startswith('llvm.uadd.with.overflow'):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            R[ins.res] = ('agg', (a + b, z3.BoolVal(False)), None); return None
        if name.startswith('llvm.trap'): return 'dead'
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            from models import mem_intrinsic
            mem_intrinsic(self, st, name, [self.val(st, a) for a in args], args, ins); return None
        if name.startswith('llvm.ctlz'):
            a = self.val(st, args[0]); w = args[0].ty[1]
            if self.mode != 'bv':
                R[ins.res] = z3.Function('ctlz%d' % w, I, I)(a); return None
            r = z3.BitVecVal(w, w)
            for i in range(w): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
            R[ins.res] = r; return None
        if name.startswith(('llvm.smax', 'llvm.smin')):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            R[ins.res] = z3.If(a > b, a, b) if 'smax' in name else z3.If(a < b, a, b); return None
        if name.startswith('llvm.abs'):
            a = self.val(st, args[0]); R[ins.res] = z3.If(a < 0, -a, a); return None
        if name in ('llvm.ceil.f64', 'llvm.floor.f64'):
            a = self.val(st, args[0]); R[ins.res] = z3.Function('fp_' + name.split('.')[1], z3.RealSort(), z3.RealSort())(a); return None
        raise Unsupported('intrinsic ' + name)

_hs = {}
def has_store(t):
    k = t.get_id(); r = _hs.get(k)
    if r is not None and r[1].eq(t): return r[0]
    seen = set(); st = [t]; res = False
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if z3.is_store(x) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY)): res = True; break
        st.extend(x.children())
    _hs[k] = (res, t)
    return res
_q = {}
def has_quant(f):
    k = f.get_id()
    r = _q.get(k)
    if r is not None and r[1].eq(f): return r[0]
    seen = set(); st = [f]; res = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x): res = True; break
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        st.extend(x.children())
    _q[k] = (res, f)
    return res
def syms(t):
    """serial numbers of fresh symbols in t"""
    r = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if '!' in n:
                try: r.add(int(n.rsplit('!', 1)[1]))
                except ValueError: pass
        st.extend(x.children())
    return r
def is_ctr_based(t, ctr):
    if t.eq(ctr): return True
    if z3.is_add(t): return any(c.eq(ctr) for c in t.children()) and all(c.eq(ctr) or z3.is_int_value(c) for c in t.children())
    if z3.is_const(t) and t.decl().name().startswith('ctr!'): return True
    return False
