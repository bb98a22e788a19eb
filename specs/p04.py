"""P04: integer lists of the input language (Model::readIntList, Model::readConditionalIntList).
A string is its sequence of integer tokens tok(string, 0..ntok); std::istream >> int& delivers the next one (assumed contract of the standard library)."""
from mlib import *
import re
from models import vlen_get, vlen_set, copy_elems, vd, loc
TU = '#include "Model.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append
I = z3.IntSort(); AR = z3.ArraySort(I, I)
OPTS = {'ghost': {'spos': AR, 'ssrc': AR, 'tup0': AR, 'tup1': AR, 'tup2': AR}}
tok = z3.Function('tok', I, I, I); ntok = z3.Function('ntok', I, I)
start = z3.Function('start', I, I, I); nA = z3.Function('nUncond', I, I, I); nB = lambda S, k: k - nA(S, k)
S_, k_, j_ = Ints('S? k? j?')
AXIOMS = [ForAll([S_, k_], And(-2**31 <= tok(S_, k_), tok(S_, k_) < 2**31), patterns=[tok(S_, k_)]),
          ForAll([S_], And(start(S_, IntVal(0)) == 0, nA(S_, IntVal(0)) == 0), patterns=[start(S_, IntVal(0)), nA(S_, IntVal(0))]),
          # definitions by recursion on k: entry k starts at token start(k) with the number of its conditions
          ForAll([S_, k_], Implies(k_ >= 0, And(start(S_, k_ + 1) == start(S_, k_) + tok(S_, start(S_, k_)) + 2, nA(S_, k_ + 1) == nA(S_, k_) + b2i(tok(S_, start(S_, k_)) == 0))), patterns=[start(S_, k_ + 1), nA(S_, k_ + 1)]),
          ForAll([S_, j_, k_], Implies(And(0 <= j_, j_ <= k_), And(nA(S_, j_) <= nA(S_, k_), nB(S_, j_) <= nB(S_, k_))), patterns=[z3.MultiPattern(nA(S_, j_), nA(S_, k_))]),
          ForAll([S_, j_, k_], Implies(And(0 <= j_, j_ < k_), And(nA(S_, j_) + b2i(tok(S_, start(S_, j_)) == 0) <= nA(S_, k_), nB(S_, j_) + b2i(tok(S_, start(S_, j_)) != 0) <= nB(S_, k_))), patterns=[z3.MultiPattern(start(S_, j_), nA(S_, k_))]),
          ForAll([S_, k_], Implies(k_ >= 0, And(0 <= nA(S_, k_), nA(S_, k_) <= k_)), patterns=[nA(S_, k_)])]
def prove_lemmas():
    r = {}; S, j, k, d = Ints('S j k d'); step = nA(S, k + 1) == nA(S, k) + b2i(tok(S, start(S, k)) == 0)
    q = z3.Solver(); q.add(0 <= j, j <= k, nA(S, j) <= nA(S, k), nB(S, j) <= nB(S, k), step, Not(And(nA(S, j) <= nA(S, k + 1), nB(S, j) <= nB(S, k + 1)))); r['number of unconditional / conditional entries of a prefix is monotone (induction on the longer prefix)'] = q.check() == z3.unsat
    q = z3.Solver(); stepj = nA(S, j + 1) == nA(S, j) + b2i(tok(S, start(S, j)) == 0); q.add(0 <= j, j + 1 <= k, stepj, nA(S, j + 1) <= nA(S, k), nB(S, j + 1) <= nB(S, k), Not(And(nA(S, j) + b2i(tok(S, start(S, j)) == 0) <= nA(S, k), nB(S, j) + b2i(tok(S, start(S, j)) != 0) <= nB(S, k)))); r['an earlier entry counts (from monotonicity)'] = q.check() == z3.unsat
    q = z3.Solver(); q.add(k >= 0, 0 <= nA(S, k), nA(S, k) <= k, step, Not(And(0 <= nA(S, k + 1), nA(S, k + 1) <= k + 1))); r['number of unconditional entries is bounded by the number of entries (induction)'] = q.check() == z3.unsat
    return r
class Rx:
    def __init__(self, p): self.pattern = p; self.rx = re.compile(p)
    def match(self, d): return self.rx.match(d)
def ss_ctor(ver, st, d, args, ins, m):
    p = loc(ver, st, args[0]); src = loc(ver, st, args[1])
    ver.setghost(st, 'ssrc', z3.Store(ver.getghost(st, 'ssrc'), p.obj, src.obj)); ver.setghost(st, 'spos', z3.Store(ver.getghost(st, 'spos'), p.obj, IntVal(0))); return None
def ss_get(ver, st, d, args, ins, m):
    p = loc(ver, st, args[0]); S = z3.Select(ver.getghost(st, 'ssrc'), p.obj); k = z3.Select(ver.getghost(st, 'spos'), p.obj)
    any_ = ver.fresh_val('failed', ('int', 32)); ok = k < ntok(S)      # after the last token the extraction fails and the value is arbitrary
    ver.store(st, args[1], If(ok, tok(S, k), any_), ('int', 32)); ver.setghost(st, 'spos', z3.Store(ver.getghost(st, 'spos'), p.obj, If(ok, k + 1, k))); return args[0]
def pair_struct(ver):
    r = [s for s, t in ver.mod.structs.items() if re.match(r'%?"?struct\.std::pair', s) and len(t[1]) >= 2 and t[1][0][0] == 'struct' and 'class.std::vector' in t[1][0][1] and t[1][1] == ('int', 32)]
    if len(r) != 1: from ir import Unsupported; raise Unsupported('struct of std::pair<std::vector<int>, int>')
    return r[0]
def pair_parts(ver, st, p):
    ps = pair_struct(ver); return ver.subobj(st, ps, 0, p.obj, p.off), (ps, 1)
def put_pair(ver, st, dst, vec, val):
    v, key = pair_parts(ver, st, dst); L = vlen_get(ver, st, vec); copy_elems(ver, st, vec, v, 'int'); vlen_set(ver, st, v, L)
    k = ('F',) + key; mm = ver.getmap(st, k, ('int', 32)); from vc import upd, sel
    ver.setmap(st, k, upd(mm, dst.obj, upd(sel(mm, dst.obj), ver.A.offz(dst.off), val)), dst.obj)
def m_make_pair(ver, st, d, args, ins, m): put_pair(ver, st, loc(ver, st, args[0]), args[1], ver.load(st, args[2], ('int', 32))); return None
def m_push(ver, st, d, args, ins, m):
    th = args[0]; n = vlen_get(ver, st, th); a = loc(ver, st, args[1]); v, key = pair_parts(ver, st, a); val = ver.read_field(st, key[0], key[1], ('int', 32), a.obj, a.off)
    put_pair(ver, st, PE(vd(ver, st, th), n), v, val); vlen_set(ver, st, th, n + 1); return None
def m_tuple(ver, st, d, args, ins, m):
    p = loc(ver, st, args[0])
    for i, a in enumerate(args[1:]): g = 'tup%d' % i; v = ver.canon(st, ver.load(st, a, ('ptr',))); ver.setghost(st, g, z3.Store(ver.getghost(st, g), p.obj, v.obj))
    return None
VP = r'std::vector<std::pair<std::vector<int, .*>, int>, .*>::'
MODELS = [(Rx(r'std::__cxx11::basic_stringstream<.*>::basic_stringstream\(std::__cxx11::basic_string<.*const&, '), ss_ctor), (Rx(r'std::basic_istream<.*>::operator>>\(int&\)'), ss_get),
          (Rx(r'.*std::make_pair<std::vector<int, .*>&, int&>'), m_make_pair), (Rx(VP + r'push_back\('), m_push), (Rx(r'std::pair<std::vector<int, .*>, int>::~pair'), lambda *a: None), (Rx(r'.*std::make_tuple<'), m_tuple)]
P = 'progression::Model::'
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
# ---------------------------------------------------------------- readIntList
conv = lambda x: If(x < 0, x + 1, x)
N = z3.Function('numEntries', I, I)                         # position of the terminator
def src(s): a = (s.old if s.old is not None else s).args; return a[2] if len(a) > 3 else a[1]
def at(s): return z3.Select(s.g('spos'), s.local('sStream').obj)
def str_ok(s): return [('stream', And(z3.Select(s.g('ssrc'), s.local('sStream').obj) == src(s).obj))]
def place(s, p, w=4): o = s.ver.A.offz(p.off); return And(p.obj > 0, p.obj < s.ctr, o >= 0, w * (o + 1) <= s.len(p))
def others(s, p, ty='i32'):
    p = s.ver.canon(s.st, p); o = s.ver.A.offz(p.off); q = PE(p.obj); return ForAll([K], Implies(K != o, Select(s.arr(q, ty), K) == Select(s.old.arr(q, ty), K)), patterns=[Select(s.arr(q, ty), K)])
def ri_req(s, t, S, size): S0 = S; S = S.obj; return [('size', place(s, size)), ('terminated by -1', And(0 <= N(S), N(S) < ntok(S), tok(S, N(S)) == -1, N(S) < 2**31)), ('entries', ForAll([K], Implies(And(0 <= K, K < N(S)), tok(S, K) != -1), patterns=[tok(S, K)]))]
def ri_ens(s, rv, t, S, size):
    S = S.obj; n = s.at(size, IntVal(0)); return [('number of entries', n == N(S)), ('entries in order', Implies(n > 0, And(s.len(rv) == 4 * n, ForAll([K], Implies(And(0 <= K, K < n), Select(s.arr(rv), K) == conv(tok(S, K))), patterns=[Select(s.arr(rv), K)])))), ('no list', Implies(n == 0, rv.obj == 0)), ('nothing else', others(s, size))]
def rd(s, k):
    S = src(s).obj; return str_ok(s) + [('values so far', ForAll([K], Implies(And(0 <= K, K < k), Select(s.varr(s.local('v')), K) == conv(tok(S, K))), patterns=[Select(s.varr(s.local('v')), K)]))]
def ri0(s): S = src(s).obj; k = s.vlen(s.local('v')); return [('others', others(s, s.args[2])), ('next', And(k <= N(S), at(s) == k + 1, s.local('x') == tok(S, k)))] + rd(s, k)
def ri1(s):
    S = src(s).obj; i = s.local('i'); r = s.local('res'); n = N(S)
    return [('others', others(s, s.args[2])), ('range', And(0 <= i, i <= n, s.vlen(s.local('v')) == n, s.at(s.args[2], IntVal(0)) == n, s.len(r) == 4 * n))] + rd(s, n) + [('copied', ForAll([K], Implies(And(0 <= K, K < i), Select(s.arr(r), K) == conv(tok(S, K))), patterns=[Select(s.arr(r), K)]))]
add(Contract(P + 'readIntList(%s, int&)' % STR, requires=ri_req, ensures=ri_ens, modifies=lambda s, t, S, size: [('i32', size)], ghost_mod=('spos', 'ssrc'), allocs=True,
    loops={0: Loop(ri0, variant=lambda s: N(src(s).obj) - s.vlen(s.local('v'))), 1: Loop(ri1, variant=lambda s: N(src(s).obj) - s.local('i'))}))

# ---------------------------------------------------------------- readConditionalIntList
E_ = z3.Function('numCondEntries', I, I)                    # number of entries before the terminator
st0 = lambda S, k: tok(S, start(S, k))
def rc_req(s, t, S, a, b, c):
    S = S.obj; n = E_(S)
    return [('out parameters', And(place(s, a), place(s, b), place(s, c, 8), a.obj != b.obj)), ('terminated by a negative number', And(0 <= n, n < 2**30, st0(S, n) < 0, start(S, n) < ntok(S))),
            ('entries', ForAll([K], Implies(And(0 <= K, K < n), And(st0(S, K) >= 0, start(S, K) >= 0, start(S, K) + st0(S, K) + 1 < ntok(S))), patterns=[start(S, K)]))]
def B2(s): return s.local('conds')
def cvec(s, k):
    st, idx = pair_struct(s.ver), 0; d = s.vdata(B2(s)); return s.ver.subobj(s.st, st, idx, d.obj, k)
def second(s): st = pair_struct(s.ver); return s.ver.named(sel(s.ver.getmap(s.st, ('F', st, 1), ('int', 32)), s.vdata(B2(s)).obj))
def entries(s, k):
    """v and conds hold the entries before entry k"""
    S = src(s).obj; c = cvec(s, nB(S, K)); V_ = s.varr(s.local('v')); X = second(s); L = s.vlen(c); D = s.vdata(c).obj; e = st0(S, K); H = s.heap0('i32'); VL = s.ver.named(s.map(('VLEN',)))
    L = Select(Select(VL, c.obj), 0); LJ = Select(Select(VL, cvec(s, J).obj), 0); T = start(S, K); in_ = And(0 <= K, K < k)
    return [('sizes', And(s.vlen(s.local('v')) == nA(S, k), s.vlen(B2(s)) == nB(S, k))),
            ('condition sizes', ForAll([J], Implies(And(0 <= J, J < nB(S, k)), And(0 <= LJ, LJ < 2**31)), patterns=[LJ])),
            ('unconditional', ForAll([K], Implies(And(in_, e == 0), Select(V_, nA(S, K)) == tok(S, T + 1)), patterns=[T])),
            ('conditional', ForAll([K], Implies(And(in_, e > 0), And(Select(X, nB(S, K)) == tok(S, T + e + 1), L == e)), patterns=[T])),
            ('conditions', ForAll([K, J], Implies(And(in_, e > 0, 0 <= J, J < e), Select(Select(H, D), J) == tok(S, T + 1 + J)), patterns=[z3.MultiPattern(T, Select(Select(H, D), J))]))]

def outs(s): a = s.args; return [s.at(a[3], IntVal(0)), s.at(a[4], IntVal(0)), PE(s.at(a[5], IntVal(0), 'ptr'))]
def kk(s): return s.vlen(s.local('v')) + s.vlen(B2(s))
def rc0(s): S = src(s).obj; k = kk(s); return str_ok(s) + [('next', And(k <= E_(S), at(s) == start(S, k) + 1, s.local('x') == st0(S, k)))] + entries(s, k)
def rc1(s):
    S = src(s).obj; k = kk(s); i = s.local('i'); c = s.local('c')
    return str_ok(s) + [('same entry', And(s.vlen(s.local('v')) == s.outer().vlen(s.local('v')), s.vlen(B2(s)) == s.outer().vlen(B2(s)))), ('next', And(0 <= i, i <= s.local('x'), s.vlen(c) == i, k < E_(S), s.local('x') == st0(S, k), at(s) == start(S, k) + 1 + i))] + entries(s, k) + [('conditions so far', ForAll([J], Implies(And(0 <= J, J < i), Select(s.varr(c), J) == tok(S, start(S, k) + 1 + J)), patterns=[Select(s.varr(c), J)]))]
def done(s):
    S = src(s).obj; n = E_(S); a, b, c = outs(s); return entries(s, n) + [('numbers', And(a == nA(S, n), b == nB(S, n), kk(s) == n))] + [('others', And(*others_rc(s)))]
def others_rc(s):
    a = s.args; same_ = s.ver.canon(s.st, a[3]).obj == s.ver.canon(s.st, a[4]).obj; oa, ob = s.ver.A.offz(a[3].off), s.ver.A.offz(a[4].off); r = []
    for p in (a[3], a[4]): q = PE(p.obj); r.append(ForAll([K], Implies(And(Or(p.obj != a[3].obj, K != oa), Or(p.obj != a[4].obj, K != ob)), Select(s.arr(q), K) == Select(s.old.arr(q), K)), patterns=[Select(s.arr(q), K)]))
    return r + [others(s, a[5], 'ptr')]
def cp(s, p, vec, k): return ForAll([K], Implies(And(0 <= K, K < k), Select(s.arr(p), K) == Select(vec, K)), patterns=[Select(s.arr(p), K)])
def rc2(s): a, b, c = outs(s); i = s.local('i'); A = s.local('A'); return [('range', And(0 <= i, i <= a, s.len(A) == 4 * a, c.obj == 0))] + done(s) + [('copied', cp(s, A, s.varr(s.local('v')), i))]
def fixA(s): S = src(s).obj; a, b, c = outs(s); A = s.local('A'); return [('A', If(a > 0, And(A.obj >= s.old.ctr, A.obj < s.ctr, s.len(A) == 4 * a, cp(s, A, s.varr(s.local('v')), a)), A.obj == 0))]
def crow(s, k): return Select(s.arr(s.local('C'), 'ptr'), k)
def cond_done(s, i):
    a, b, c = outs(s); B, C = s.local('B'), s.local('C'); X = second(s); VL = s.ver.named(s.map(('VLEN',))); H = s.heap0('i32'); cv = cvec(s, K); L = Select(Select(VL, cv.obj), 0); D = s.vdata(cv).obj; r = crow(s, K); LN = s.ver.named(s.map(('LEN',)))
    return [('storage', And(B.obj >= s.old.ctr, B.obj < s.ctr, C.obj >= s.old.ctr, C.obj < s.ctr, c.obj >= s.old.ctr, c.obj < s.ctr, s.len(B) == 4 * b, s.len(C) == 8 * b, s.len(c) == 4 * b, B.obj != c.obj, *[Or(q.obj == 0, And(q.obj != B.obj, q.obj != c.obj)) for q in (s.local('A'),)])), ('effects', cp(s, B, X, i)),
            ('lengths', ForAll([K], Implies(And(0 <= K, K < i), Select(s.arr(c), K) == L), patterns=[Select(s.arr(c), K)])),
            ('rows', ForAll([K], Implies(And(0 <= K, K < i), And(r > 0, r < s.ctr, r > B.obj, r > C.obj, r > c.obj, r > s.local('A').obj, Select(LN, r) == 4 * L)), patterns=[r])),
            ('condition entries', ForAll([K, J], Implies(And(0 <= K, K < i, 0 <= J, J < L), Select(Select(H, r), J) == Select(Select(H, D), J)), patterns=[Select(Select(H, r), J)]))]
def rc3(s): i = s.local('i'); a, b, c = outs(s); return [('range', And(0 <= i, i <= b, b > 0))] + done(s) + fixA(s) + cond_done(s, i)
def rc4(s):
    i, j = s.local('i'), s.local('j'); a, b, c = outs(s); r = PE(crow(s, i)); cv = cvec(s, i); L = s.vlen(cv); B, C = s.local('B'), s.local('C')
    return [('range', And(0 <= i, i < b, 0 <= j, j <= L)), ('this effect', Select(s.arr(B), i) == Select(second(s), i)), ('this length', Select(s.arr(c), i) == L), ('this row', And(r.obj > 0, r.obj < s.ctr, r.obj > B.obj, r.obj > C.obj, r.obj > c.obj, r.obj > s.local('A').obj, s.len(r) == 4 * L)), ('row is new', ForAll([K], Implies(And(0 <= K, K < i), crow(s, K) != r.obj), patterns=[crow(s, K)]))] + done(s) + fixA(s) + cond_done(s, i) + \
           [('condition so far', ForAll([J], Implies(And(0 <= J, J < j), Select(s.arr(r), J) == Select(s.varr(cv), J)), patterns=[Select(s.arr(r), J)]))]
def inst(s): S = src(s).obj; k = kk(s); return [('definitions', And(start(S, k + 1) == start(S, k) + st0(S, k) + 2, nA(S, k + 1) == nA(S, k) + b2i(st0(S, k) == 0)))]
def own(s): new = lambda x: Not(s.ver.pre_existing(x)); return {'i32': [new], 'VLEN': [new], ('F', pair_struct(s.ver), 1): [new]}
def rc_ens(s, rv, r, t, S, a, b, c):
    S = S.obj; n = E_(S); na, nb = s.at(a, IntVal(0)), s.at(b, IntVal(0)); sc = PE(s.at(c, IntVal(0), 'ptr')); A, B, C = (PE(z3.Select(s.g('tup%d' % i), r.obj)) for i in range(3)); e = st0(S, K); T = start(S, K); in_ = And(0 <= K, K < n); H = s.heap0('i32'); row_ = Select(s.arr(C, 'ptr'), nB(S, K))
    return [('numbers', And(na == nA(S, n), nb == nB(S, n))), ('nothing there', And(Implies(na == 0, A.obj == 0), Implies(nb == 0, And(B.obj == 0, C.obj == 0, sc.obj == 0)))),
            ('unconditional part', ForAll([K], Implies(And(in_, e == 0), Select(s.arr(A), nA(S, K)) == tok(S, T + 1)), patterns=[T])),
            ('conditional effects', ForAll([K], Implies(And(in_, e > 0), And(Select(s.arr(B), nB(S, K)) == tok(S, T + e + 1), Select(s.arr(sc), nB(S, K)) == e)), patterns=[T])),
            ('conditions', ForAll([K, J], Implies(And(in_, e > 0, 0 <= J, J < e), Select(Select(H, row_), J) == tok(S, T + 1 + J)), patterns=[z3.MultiPattern(T, Select(Select(H, row_), J))])), ('nothing else', And(*others_rc(s)))]
add(Contract(P + 'readConditionalIntList(%s, int&, int&, int*&)' % STR, requires=lambda s, r, t, S, a, b, c: rc_req(s, t, S, a, b, c), ensures=rc_ens, modifies=lambda s, r, t, S, a, b, c: [('i32', a), ('i32', b), ('ptr', c)], ghost_mod=('spos', 'ssrc', 'tup0', 'tup1', 'tup2'), allocs=True,
    loops={0: Loop(rc0, lemma=inst, frame=own, variant=lambda s: E_(src(s).obj) - kk(s)), 1: Loop(rc1, lemma=inst, frame=own, variant=lambda s: s.local('x') - s.local('i')), 2: Loop(rc2, variant=lambda s: outs(s)[0] - s.local('i')), 3: Loop(rc3, frame=own, variant=lambda s: outs(s)[1] - s.local('i')), 4: Loop(rc4, frame=own, variant=lambda s: s.vlen(cvec(s, s.local('i'))) - s.local('j'))}))
