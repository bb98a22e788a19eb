"""Parser for the subset of textual LLVM IR (clang 18, -O0) that the verifier consumes.

Nothing is simplified here: every instruction of a requested function is kept or the parser raises
Unsupported, which makes the function undecided (never "proved")."""
import re, subprocess

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!\d+|!DIExpression\([^)]*\)|!"[^"]*"|![a-zA-Z_.][-a-zA-Z_.0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[0-9A-Fa-fK]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[a-zA-Z_][-a-zA-Z_.0-9]*)
 | (?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)

class Toks:
    def __init__(self, s):
        self.t = []
        pos = 0
        n = len(s)
        while pos < n:
            if s[pos].isspace():
                pos += 1
                continue
            if s[pos] == ';':
                break
            m = TOK.match(s, pos)
            if not m:
                raise Unsupported('token at: ' + s[pos:pos + 40])
            self.t.append(m.group())
            pos = m.end()
        self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %s got %s in %s' % (x, y, ' '.join(self.t)))
    def done(self):
        return self.i >= len(self.t)

# ---------------------------------------------------------------- types
# ('int',w) ('ptr',) ('float',) ('double',) ('void',) ('array',n,T) ('struct',name) ('anon',(T..),packed) ('x86_fp80',)
def ptype(t):
    x = t.next()
    if re.fullmatch(r'i\d+', x):
        r = ('int', int(x[1:]))
    elif x == 'ptr':
        r = ('ptr',)
    elif x in ('float', 'double', 'void', 'label', 'metadata', 'x86_fp80', 'token', 'half'):
        r = (x,)
    elif x == '[':
        n = int(t.next()); t.expect('x'); e = ptype(t); t.expect(']')
        r = ('array', n, e)
    elif x == '<' and t.peek() == '{':
        t.next(); es = []
        while not t.accept('}'):
            es.append(ptype(t)); t.accept(',')
        t.expect('>')
        r = ('anon', tuple(es), True)
    elif x == '<':
        n = int(t.next()); t.expect('x'); e = ptype(t); t.expect('>')
        r = ('vector', n, e)
    elif x == '{':
        es = []
        while not t.accept('}'):
            es.append(ptype(t)); t.accept(',')
        r = ('anon', tuple(es), False)
    elif x[0] == '%':
        r = ('struct', x)
    else:
        raise Unsupported('type ' + x)
    # function type suffix  "T (args)" appears only in call; handled by the caller
    return r

class Val:
    """operand: kind in reg, glob, int, null, undef, fp, zero, expr, meta"""
    __slots__ = ('k', 'v', 'ty')
    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty
    def __repr__(self):
        return '%s:%s' % (self.k, self.v)

CASTS = ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast')
BINOPS = ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem')
FLAGS = ('nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'inrange', 'nusw')

def pval(t, ty):
    x = t.peek()
    if x is None:
        raise Unsupported('value')
    if x[0] == '%':
        t.next(); return Val('reg', x, ty)
    if x[0] == '@':
        t.next(); return Val('glob', x, ty)
    if x in ('true', 'false'):
        t.next(); return Val('int', 1 if x == 'true' else 0, ty)
    if x == 'null':
        t.next(); return Val('null', None, ty)
    if x in ('undef', 'poison'):
        t.next(); return Val('undef', None, ty)
    if x == 'zeroinitializer':
        t.next(); return Val('zero', None, ty)
    if x == 'getelementptr':
        t.next()
        while t.peek() in FLAGS: t.next()
        t.expect('(')
        st = ptype(t); t.expect(',')
        ops = []
        while True:
            while t.peek() in FLAGS: t.next()
            ty2 = ptype(t); ops.append(pval(t, ty2))
            if not t.accept(','): break
        t.expect(')')
        return Val('cgep', (st, ops), ty)
    if x in CASTS:
        op = t.next(); t.expect('('); ty1 = ptype(t); v = pval(t, ty1); t.expect('to'); ty2 = ptype(t); t.expect(')')
        return Val('ccast', (op, v), ty2)
    if x in ('{', '[') or x == '<':
        # constant aggregate
        close = {'{': '}', '[': ']', '<': '>'}[x]
        t.next(); es = []
        while not t.accept(close):
            ty2 = ptype(t); es.append(pval(t, ty2)); t.accept(',')
        return Val('agg', es, ty)
    if x[0] == 'c' and x[1:2] == '"' or x[0] == '"':
        t.next(); return Val('cstr', x, ty)
    t.next()
    if x.startswith('0x'):
        return Val('fp', x, ty)
    if ty[0] in ('float', 'double'):
        return Val('fp', x, ty)
    return Val('int', int(x), ty)

PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
              'inreg', 'immarg', 'allocptr', 'allocalign', 'noreturn', 'nest', 'swiftself', 'nofree', 'writable', 'dead_on_unwind'}

def skip_param_attrs(t):
    while True:
        x = t.peek()
        if x in PARAM_ATTR:
            t.next()
        elif x in ('align', ):
            t.next()
            if t.accept('('):
                t.next(); t.expect(')')
            else:
                t.next()
        elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca'):
            t.next(); t.expect('(')
            d = 1
            while d:
                y = t.next()
                if y == '(': d += 1
                if y == ')': d -= 1
        else:
            return

class Instr:
    __slots__ = ('op', 'res', 'a', 'line', 'text')
    def __init__(self, op, res, a, line, text):
        self.op, self.res, self.a, self.line, self.text = op, res, a, line, text
    def __repr__(self):
        return self.text

LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external',
        'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'thread_local'}

def parse_params(t):
    ps = []
    t.expect('(')
    varargs = False
    while not t.accept(')'):
        if t.accept('...'):
            varargs = True; continue
        ty = ptype(t); sret = False
        # attributes
        save = t.i
        skip_param_attrs(t)
        name = None
        if t.peek() not in (',', ')'):
            name = t.next()
        ps.append((ty, name))
        t.accept(',')
    return ps, varargs

def parse_instr(line, text=None):
    s = line.strip()
    text = s
    md = re.search(r', !dbg !(\d+)', s)
    dbg = int(md.group(1)) if md else None
    t = Toks(s)
    res = None
    if t.peek()[0] == '%' and t.peek(1) == '=':
        res = t.next(); t.next()
    op = t.next()
    if op in ('tail', 'musttail', 'notail'):
        op = t.next()
    def mk(a): return Instr(op, res, a, dbg, text)
    if op == 'alloca':
        t.accept('inalloca')
        ty = ptype(t); n = None
        if t.accept(','):
            if t.peek() != 'align':
                ty2 = ptype(t); n = pval(t, ty2)
        return mk((ty, n))
    if op == 'store':
        t.accept('volatile')
        ty = ptype(t); v = pval(t, ty); t.expect(','); ty2 = ptype(t); p = pval(t, ty2)
        return mk((v, p))
    if op == 'load':
        t.accept('volatile')
        ty = ptype(t); t.expect(','); ty2 = ptype(t); p = pval(t, ty2)
        return mk((ty, p))
    if op == 'getelementptr':
        while t.peek() in FLAGS: t.next()
        st = ptype(t); t.expect(',')
        ops = []
        while True:
            ty2 = ptype(t); ops.append(pval(t, ty2))
            if not t.accept(','): break
            if t.peek()[0] == '!': break
        return mk((st, ops))
    if op in ('call', 'invoke'):
        while t.peek() in FLAGS or t.peek() in LINK: t.next()
        skip_param_attrs(t)
        rty = ptype(t)
        if t.peek() == '(':        # explicit function type (varargs)
            d = 0
            while True:
                x = t.next()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
        callee = pval(t, ('ptr',)) if t.peek() != 'asm' else None
        if callee is None: raise Unsupported('inline asm')
        t.expect('(')
        args = []
        while not t.accept(')'):
            ty = ptype(t)
            if ty == ('metadata',):
                x = t.next()
                if x == 'ptr' or re.fullmatch(r'i\d+', x):
                    x = t.next()
                args.append(Val('meta', x, ty))
            else:
                skip_param_attrs(t)
                args.append(pval(t, ty))
            t.accept(',')
        nxt = None
        if op == 'invoke':
            while t.peek() != 'to': t.next()
            t.next(); t.next(); nxt = t.next()
        return mk((rty, callee, args, nxt))
    if op == 'br':
        if t.accept('label'):
            return mk((None, t.next()))
        ptype(t); c = pval(t, ('int', 1)); t.expect(','); t.expect('label'); a = t.next(); t.expect(','); t.expect('label'); b = t.next()
        return mk((c, a, b))
    if op == 'switch':
        ty = ptype(t); v = pval(t, ty); t.expect(','); t.expect('label'); d = t.next(); t.expect('[')
        cases = []
        while not t.accept(']'):
            ty2 = ptype(t); c = pval(t, ty2); t.expect(','); t.expect('label'); cases.append((c, t.next()))
        return mk((v, d, cases))
    if op == 'ret':
        ty = ptype(t)
        return mk((None,) if ty == ('void',) else (pval(t, ty),))
    if op in ('icmp', 'fcmp'):
        while t.peek() in FLAGS: t.next()
        pred = t.next(); ty = ptype(t); a = pval(t, ty); t.expect(','); b = pval(t, ty)
        return mk((pred, ty, a, b))
    if op in BINOPS:
        fl = []
        while t.peek() in FLAGS: fl.append(t.next())
        ty = ptype(t); a = pval(t, ty); t.expect(','); b = pval(t, ty)
        return mk((ty, a, b, fl))
    if op in CASTS:
        while t.peek() in FLAGS: t.next()
        ty = ptype(t); v = pval(t, ty); t.expect('to'); ty2 = ptype(t)
        return mk((ty, v, ty2))
    if op == 'phi':
        while t.peek() in FLAGS: t.next()
        ty = ptype(t); inc = []
        while True:
            t.expect('['); v = pval(t, ty); t.expect(','); l = t.next(); t.expect(']')
            inc.append((v, l))
            if not t.accept(','): break
            if t.peek()[0] == '!': break
        return mk((ty, inc))
    if op == 'select':
        ty0 = ptype(t); c = pval(t, ty0); t.expect(','); ty = ptype(t); a = pval(t, ty); t.expect(','); ty2 = ptype(t); b = pval(t, ty2)
        return mk((c, a, b))
    if op == 'extractvalue':
        ty = ptype(t); v = pval(t, ty); idx = []
        while t.accept(','):
            if t.peek()[0] == '!': break
            idx.append(int(t.next()))
        return mk((v, idx))
    if op == 'insertvalue':
        ty = ptype(t); v = pval(t, ty); t.expect(','); ty2 = ptype(t); w = pval(t, ty2); idx = []
        while t.accept(','):
            if t.peek()[0] == '!': break
            idx.append(int(t.next()))
        return mk((ty, v, w, idx))
    if op == 'unreachable':
        return mk(())
    if op in ('fneg', 'freeze'):
        while t.peek() in FLAGS: t.next()
        ty = ptype(t); return mk((ty, pval(t, ty)))
    if op in ('landingpad', 'resume', 'cleanup', 'catch', 'fence'):
        return mk(())
    raise Unsupported('instruction ' + op)

class Function:
    def __init__(self, name, rty, params, lines, sp):
        self.name, self.rty, self.params, self._lines, self.sp = name, rty, params, lines, sp
        self._blocks = None
    @property
    def blocks(self):
        if self._blocks is None:
            self.parse()
        return self._blocks
    def parse(self):
        bl = {}; order = []
        cur = None
        buf = None
        for ln in self._lines:
            s = ln.rstrip()
            if not s.strip(): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                cur = '%' + m.group(1); bl[cur] = []; order.append(cur); continue
            if cur is None:
                cur = '%entry' if False else '%0'
                bl[cur] = []; order.append(cur)
            if buf is not None:
                buf += ' ' + s.strip()
                if ']' in s:
                    bl[cur].append(parse_instr(buf)); buf = None
                continue
            st = s.strip()
            if st.startswith('switch') and ']' not in st:
                buf = st; continue
            if st.startswith(('cleanup', 'catch ', 'filter')) : continue
            bl[cur].append(parse_instr(st))
        self._blocks = bl; self.order = order

class Module:
    def __init__(self, path):
        self.funcs = {}; self.structs = {}; self.globals = {}; self.aliases = {}; self.md = {}; self.decls = {}
        txt = open(path).read().split('\n')
        i = 0; n = len(txt)
        while i < n:
            ln = txt[i]
            if ln.startswith('define'):
                j = i + 1
                while txt[j] != '}': j += 1
                self._define(ln, txt[i + 1:j]); i = j + 1; continue
            if ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m: self.decls['@' + m.group(1)] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                if body.strip() != 'opaque':
                    self.structs[nm] = ptype(Toks(body))
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
                if m:
                    if ' alias ' in m.group(2):
                        tgt = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', m.group(2))
                        self.aliases[m.group(1)] = tgt[-1]
                    else:
                        self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('!') and ' = ' in ln:
                k, v = ln.split(' = ', 1)
                if k[1:].isdigit(): self.md[int(k[1:])] = v
            i += 1
        self._demangle()
        self._fields = {}
    def _define(self, ln, body):
        sp = re.search(r'!dbg !(\d+)', ln)
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = '@' + m.group(1)
        pre = ln[len('define'):m.start()]
        t = Toks(pre)
        while t.peek() in LINK: t.next()
        skip_param_attrs(t)
        rty = ptype(t)
        # matching paren
        d = 0; k = m.end() - 1
        e = k
        while True:
            if ln[e] == '(': d += 1
            elif ln[e] == ')':
                d -= 1
                if d == 0: break
            e += 1
        ps, va = parse_params(Toks(ln[k:e + 1]))
        ps = [(ty, nm if nm else '%' + str(i)) for i, (ty, nm) in enumerate(ps)]
        self.funcs[name] = Function(name, rty, ps, body, int(sp.group(1)) if sp else None)
        sr = re.search(r'sret\((%"[^"]+"|%[\w.:$-]+)\)', ln[k:e + 1]); self.funcs[name].sret = sr.group(1) if sr else None
    def _demangle(self):
        names = list(self.funcs) + list(self.decls) + list(self.aliases)
        inp = '\n'.join(n[1:].strip('"') for n in names)
        out = subprocess.run(['c++filt'], input=inp, capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.bydem = {}
        for n in names:
            if n in self.aliases and n in self.funcs: continue
            self.bydem.setdefault(self.dem[n], []).append(n)
    def resolve(self, name):
        seen = 0
        while name in self.aliases and name not in self.funcs and seen < 10:
            name = self.aliases[name]; seen += 1
        return name
    # ---- debug info
    def mdattr(self, k, attr):
        v = self.md.get(k)
        if v is None: return None
        m = re.search(r'\b' + attr + r': ("(?:[^"\\]|\\.)*"|![0-9]+|[^,)]+)', v)
        if not m: return None
        x = m.group(1)
        if x.startswith('"'): return x[1:-1]
        if x.startswith('!'): return int(x[1:])
        return x.strip()
    def mdlist(self, k):
        v = self.md.get(k)
        if v is None: return []
        return [int(x[1:]) for x in re.findall(r'![0-9]+', v)]
    def line_of(self, dbg):
        if dbg is None: return None
        x = self.mdattr(dbg, 'line')
        return int(x) if x else None
    def func_loc(self, f):
        if f.sp is None: return (None, None)
        fl = self.mdattr(f.sp, 'file')
        return (self.mdattr(fl, 'filename') if fl is not None else None, self.mdattr(f.sp, 'line'))
    def build_fields(self):
        """struct name -> list of field names aligned with the LLVM struct (None for padding)"""
        if self._fields: return self._fields
        comps = {}
        for k, v in self.md.items():
            if 'DICompositeType(' in v and ('DW_TAG_class_type' in v or 'DW_TAG_structure_type' in v or 'DW_TAG_union_type' in v):
                nm = self.mdattr(k, 'name'); el = self.mdattr(k, 'elements')
                if nm is None or not isinstance(el, int): continue
                scope = self.mdattr(k, 'scope'); full = nm
                while isinstance(scope, int):
                    sv = self.md.get(scope, '')
                    if 'DINamespace' in sv or 'DICompositeType' in sv:
                        sn = self.mdattr(scope, 'name')
                        if sn: full = sn + '::' + full
                        scope = self.mdattr(scope, 'scope')
                    else: break
                mem = []
                for e in self.mdlist(el):
                    ev = self.md.get(e, '')
                    if 'DW_TAG_member' in ev and 'DIFlagStaticMember' not in ev:
                        off = int(self.mdattr(e, 'offset') or 0)
                        mem.append((off, self.mdattr(e, 'name'), self.mdattr(e, 'flags') or ''))
                    elif 'DW_TAG_inheritance' in ev:
                        off = int(self.mdattr(e, 'offset') or 0)
                        mem.append((off, '<base>', ''))
                comps.setdefault(full, mem)
        self.comps = comps
        for s, ty in self.structs.items():
            if ty[0] != 'anon': continue
            base = s.strip('%').strip('"')
            m = re.match(r'(class|struct|union)\.(.*?)(\.\d+)?(\.base)?$', base)
            if not m: continue
            nm = m.group(2)
            nm = re.sub(r'^\(anonymous namespace\)::', '', nm)
            mem = comps.get(nm)
            if mem is None:         # class template instance: every instance with this layout has the same members
                c = [v for k, v in comps.items() if k.startswith(nm + '<') and v]
                if c and all(v == c[0] for v in c): mem = c[0]
            if mem is None: continue
            offs = self.offsets(ty)
            byoff = {}
            for (o, name, fl) in mem:
                byoff.setdefault(o, []).append(name)
            names = []
            for o in offs:
                c = byoff.get(o * 8)
                names.append(c[-1] if c else None)
            self._fields[s] = names
        return self._fields
    def size_align(self, ty):
        k = ty[0]
        if k == 'int':
            b = 1
            while b * 8 < ty[1]: b *= 2
            return b, b
        if k == 'ptr' or k == 'double': return 8, 8
        if k == 'float': return 4, 4
        if k == 'x86_fp80': return 16, 16
        if k == 'array':
            s, a = self.size_align(ty[2]); return s * ty[1], a
        if k == 'struct':
            if ty[1] not in self.structs: raise Unsupported('opaque struct size ' + ty[1])
            return self.size_align(self.structs[ty[1]])
        if k == 'anon':
            off = 0; al = 1
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise Unsupported('size of %s' % (ty,))
    def offsets(self, ty):
        off = 0; r = []
        for e in ty[1]:
            s, a = self.size_align(e)
            if ty[2]: a = 1
            off = (off + a - 1) // a * a
            r.append(off); off += s
        return r

# z3's python binding lets the arguments of MultiPattern be freed before the pattern is registered (crashes in Z3_mk_quantifier_const_ex):
# keep them referenced
import z3 as _z3
_keep = []
if not getattr(_z3.MultiPattern, 'keeps', False):
    _mp = _z3.MultiPattern
    def MultiPattern(*a):
        _keep.extend(a); r = _mp(*a); _keep.append(r); return r
    MultiPattern.keeps = True
    _z3.MultiPattern = MultiPattern; _z3.z3.MultiPattern = MultiPattern
