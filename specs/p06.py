"""P06: ordering constraints of methods: transitive closure and reduction (computeTransitiveChangeOfMethodOrderings)."""
from mlib import *
TU = '#include "Model.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append
I = z3.IntSort(); a, b, c = Ints('a? b? c?')
P = z3.Function('any_transitive_superset', I, I, z3.BoolSort())     # an arbitrary transitive relation that contains the constraints
pos = z3.Function('position', I, I, I)                               # 2 * number of pairs of the final relation before (a,b)
vdt = z3.Function('vdata', I, z3.IntSort(), I)
N_ = lambda s: num(s.old, s.old.args[0], 'numSubTasks', s.old.args[2])
def OR(s, *x):
    o = s.old if s.old is not None else s; t, _, i = (x or o.args); return Select(o.heap0('i32'), row(o, t, 'ordering', i)), num(o, t, 'numOrderings', i)
class Rel:
    """a vector<vector<bool>> as a relation; raw(x, y) is the stored value"""
    def __init__(self, H, v): self.H, self.v = H, v
    def raw(self, x, y): return Select(Select(self.H, vdt(vdt(self.v.obj, 0), x)), y)
    def __call__(self, x, y): return self.raw(x, y) != 0
def Tr(s, v, H=None): s.vdata(PE(v.obj, IntVal(0))); return Rel(s.ver.named(s.heap('i8')) if H is None else H, v)
def VL(s, v): s.vdata(PE(v.obj, IntVal(0))); L = s.ver.named(sel(s.map(('VLEN',)), vdt(v.obj, 0))); return lambda x: Select(L, x)
def rows(s, v, full): L = VL(s, v); n = N_(s); return [('rows', And(s.vlen(v) == n, ForAll([a], Implies(And(0 <= a, a < n), full(a, L(a))), patterns=[L(a)])))]
def inb(*xs): return lambda n: And(*[And(0 <= x, x < n) for x in xs])
def req(s, t, cl, i):
    A, H = OR(s, t, cl, i); n = num(s, t, 'numSubTasks', i); M_ = mf(s, t, 'numMethods'); r = row(s, t, 'ordering', i)
    return [('model', And(obj(s, t), 0 <= i, i < M_, iarr(s, t, 'numSubTasks', M_), iarr(s, t, 'numOrderings', M_), iarr(s, t, 'ordering', M_, 8), iarr(s, t, 'decomposedTask', M_), n >= 0, n < 2**15, H >= 0, H % 2 == 0, Implies(H > 0, And(r > 0, r < s.ctr, s.len(PE(r)) >= 4 * H)))),
            ('pairs', all_in(A, 0, H, lambda k, x: And(0 <= x, x < n))),
            ('superset', ForAll([K], Implies(And(0 <= K, K < H, K % 2 == 0), P(Select(A, K), Select(A, K + 1))), patterns=[Select(A, K)])), ('transitive', ForAll([a, b, c], Implies(And(P(a, b), P(b, c)), P(a, c)), patterns=[z3.MultiPattern(P(a, b), P(b, c))]))]
def V(s): return s.local('trans')
def closed(T, n, k): return ForAll([a, b, c], Implies(And(inb(a, b, c)(n), c < k, T(a, c), T(c, b)), T(a, b)), patterns=[z3.MultiPattern(T.raw(a, c), T.raw(c, b))])
def sound(T, n): return ForAll([a, b], Implies(And(inb(a, b)(n), T(a, b)), P(a, b)), patterns=[T.raw(a, b)])
def contains(s, T, h): A, H = OR(s); return ForAll([K], Implies(And(0 <= K, K < h, K % 2 == 0), T(Select(A, K), Select(A, K + 1))), patterns=[Select(A, K)])
def f0(s): x = s.local('x'); n = N_(s); return [And(0 <= x, x <= n)] + rows(s, V(s), lambda q, l: l == If(q < x, n, 0)) + [('empty', ForAll([a, b], Implies(And(0 <= a, a < x, 0 <= b, b < n), Not(Tr(s, V(s))(a, b)))))]
def f1(s): x, y = s.local('x'), s.local('y'); n = N_(s); return [And(0 <= x, x < n, 0 <= y, y <= n)] + rows(s, V(s), lambda q, l: l == If(q < x, n, If(q == x, y, 0))) + [('empty', ForAll([a, b], Implies(And(0 <= a, a < n, 0 <= b, b < VL(s, V(s))(a)), Not(Tr(s, V(s))(a, b)))))]
full = lambda s, v: rows(s, v, lambda q, l: l == N_(s))
def f2(s): o = s.local('o'); T = Tr(s, V(s)); return [And(0 <= o, o <= OR(s)[1], o % 2 == 0)] + full(s, V(s)) + [('sound', sound(T, N_(s))), ('contains', contains(s, T, o))]
def base(s): T = Tr(s, V(s)); n = N_(s); return full(s, V(s)) + [('sound', sound(T, n)), ('contains', contains(s, T, OR(s)[1]))]
def f3(s): k = s.local('k'); n = N_(s); return [And(0 <= k, k <= n)] + base(s) + [('closed', closed(Tr(s, V(s)), n, k))]
def stage(s, h, k, x, y):
    """rows before x, and row x before y, are updated with respect to k; h is the state at the start of the round"""
    T, T0 = Tr(s, V(s)), Tr(h, V(s)); n = N_(s)
    return [('stage', ForAll([a, b], Implies(inb(a, b)(n), T(a, b) == Or(T0(a, b), And(Or(a < x, And(a == x, b < y)), T0(a, k), T0(k, b)))), patterns=[T.raw(a, b)]))]
def f4(s): k, x = s.local('k'), s.local('x'); n = N_(s); return [And(0 <= k, k < n, 0 <= x, x <= n, k == s.outer().local('k'))] + base(s) + stage(s, s.outer(), k, x, IntVal(0))
def f5(s): k, x, y = s.local('k'), s.local('x'), s.local('y'); n = N_(s); return [And(0 <= k, k < n, 0 <= x, x < n, 0 <= y, y <= n, k == s.outer(2).local('k'), x == s.outer().local('x'))] + base(s) + stage(s, s.outer(2), k, x, y)
# ---- reduction
Cl = z3.Function('closure', I, I, z3.BoolSort()); F = z3.Function('final', I, I, z3.BoolSort())
R_ = lambda s: s.local('transRed')
def define(sym, T): return ForAll([a, b], sym(a, b) == T(a, b), patterns=[sym(a, b), T.raw(a, b)])
def fr_red(s): r = R_(s); return {'i8': [lambda x: s.ver.root(x) == r.obj]}
def cdef(s): return [('definition of closure', define(Cl, Tr(s, V(s))))]
def same_T(s): return full(s, V(s)) + [('trans unchanged', ForAll([a, b], Implies(inb(a, b)(N_(s)), Tr(s, V(s))(a, b) == Cl(a, b)), patterns=[Tr(s, V(s)).raw(a, b), Cl(a, b)]))] + facts_C(s)
def facts_C(s):
    n = N_(s); A, H = OR(s)
    return [('closure: sound', ForAll([a, b], Implies(And(inb(a, b)(n), Cl(a, b)), P(a, b)), patterns=[Cl(a, b)])), ('closure: contains', ForAll([K], Implies(And(0 <= K, K < H, K % 2 == 0), Cl(Select(A, K), Select(A, K + 1))), patterns=[Select(A, K)])),
            ('closure: transitive', ForAll([a, b, c], Implies(And(inb(a, b, c)(n), Cl(a, c), Cl(c, b)), Cl(a, b)), patterns=[z3.MultiPattern(Cl(a, c), Cl(c, b))]))]
def r0(s): x = s.local('x'); n = N_(s); return [And(0 <= x, x <= n)] + same_T(s) + rows(s, R_(s), lambda q, l: l == If(q < x, n, 0)) + [('copied', ForAll([a, b], Implies(And(0 <= a, a < x, 0 <= b, b < n), Tr(s, R_(s))(a, b) == Cl(a, b)), patterns=[Tr(s, R_(s)).raw(a, b)]))]
def r1(s): x, y = s.local('x'), s.local('y'); n = N_(s); return [And(0 <= x, x < n, 0 <= y, y <= n)] + same_T(s) + rows(s, R_(s), lambda q, l: l == If(q < x, n, If(q == x, y, 0))) + [('copied', ForAll([a, b], Implies(And(0 <= a, a < n, 0 <= b, b < VL(s, R_(s))(a)), Tr(s, R_(s))(a, b) == Cl(a, b)), patterns=[Tr(s, R_(s)).raw(a, b)]))]
def red(s, done):
    """reduced: exactly the pairs of the closure without an intermediate c with done(a, b, c)"""
    T = Tr(s, R_(s)); n = N_(s); w = lambda q: And(0 <= c, c < n, done(a, b, c), Cl(a, c), Cl(c, b))
    return [('reduced pairs', ForAll([a, b], Implies(And(inb(a, b)(n), T(a, b)), Cl(a, b)), patterns=[T.raw(a, b)])),
            ('not implied', ForAll([a, b, c], Implies(And(inb(a, b)(n), T(a, b)), Not(w(c))), patterns=[z3.MultiPattern(T.raw(a, b), Cl(a, c), Cl(c, b))])),
            ('only implied pairs dropped', ForAll([a, b], Implies(And(inb(a, b)(n), Cl(a, b), Not(T(a, b))), Exists([c], w(c), patterns=[z3.MultiPattern(Cl(a, c), Cl(c, b))])), patterns=[T.raw(a, b), Cl(a, b)]))]
def g3(s): k = s.local('k'); n = N_(s); return [And(0 <= k, k <= n)] + same_T(s) + full(s, R_(s)) + red(s, lambda a, b, c: c < k)
def g4(s): k, x = s.local('k'), s.local('x'); n = N_(s); return [And(0 <= k, k < n, 0 <= x, x <= n, k == s.outer().local('k'))] + same_T(s) + full(s, R_(s)) + red(s, lambda a, b, c: Or(c < k, And(c == k, a < x)))
def g5(s): k, x, y = s.local('k'), s.local('x'), s.local('y'); n = N_(s); return [And(0 <= k, k < n, 0 <= x, x < n, 0 <= y, y <= n, k == s.outer(2).local('k'), x == s.outer().local('x'))] + same_T(s) + full(s, R_(s)) + red(s, lambda a, b, c: Or(c < k, And(c == k, Or(a < x, And(a == x, b < y)))))
# ---- listing
O_ = lambda s: s.local('ord')
before = lambda a, b, x, y: Or(a < x, And(a == x, b < y))
def listing(s, R, L, x, y):
    n = N_(s)
    return [('listed', ForAll([K], Implies(And(0 <= K, K < L, K % 2 == 0), And(inb(Select(R, K), Select(R, K + 1))(n), F(Select(R, K), Select(R, K + 1)), pos(Select(R, K), Select(R, K + 1)) == K, K + 1 < L)), patterns=[Select(R, K)])),
            ('all listed', ForAll([a, b], Implies(And(inb(a, b)(n), before(a, b, x, y), F(a, b)), And(0 <= pos(a, b), pos(a, b) + 2 <= L, pos(a, b) % 2 == 0, Select(R, pos(a, b)) == a, Select(R, pos(a, b) + 1) == b)), patterns=[F(a, b), pos(a, b)]))]
def final(s): n = N_(s); T = Tr(s, V(s)); cl = boolean(s.old.args[1]); return full(s, V(s)) + [('final relation', ForAll([a, b], Implies(inb(a, b)(n), T(a, b) == F(a, b)), patterns=[T.raw(a, b), F(a, b)]))]
def what(s):
    n = N_(s); cl = boolean(s.old.args[1])
    return facts_C(s) + [('closure kept', Implies(cl, ForAll([a, b], Implies(inb(a, b)(n), F(a, b) == Cl(a, b)), patterns=[F(a, b), Cl(a, b)]))),
        ('reduction: only constraints', Implies(Not(cl), ForAll([a, b], Implies(And(inb(a, b)(n), F(a, b)), Cl(a, b)), patterns=[F(a, b)]))),
        ('reduction: none is implied', Implies(Not(cl), ForAll([a, b, c], Implies(And(inb(a, b, c)(n), F(a, b)), Not(And(Cl(a, c), Cl(c, b)))), patterns=[z3.MultiPattern(F(a, b), Cl(a, c), Cl(c, b))]))),
        ('reduction: only implied ones dropped', Implies(Not(cl), ForAll([a, b], Implies(And(inb(a, b)(n), Cl(a, b), Not(F(a, b))), Exists([c], And(0 <= c, c < n, Cl(a, c), Cl(c, b)), patterns=[z3.MultiPattern(Cl(a, c), Cl(c, b))])), patterns=[F(a, b), Cl(a, b)])))]
def fdef(s): cl = boolean(s.old.args[1]); return [Implies(cl, define(Cl, Tr(s, V(s)))), define(F, Tr(s, V(s))), pos(0, 0) == 0]
vecI = lambda s, v: s.ver.named(s.varr(v, 'i32'))
def o0(s): x = s.local('x'); n = N_(s); return [And(0 <= x, x <= n, s.vlen(O_(s)) == pos(x, 0), pos(x, 0) >= 0, pos(x, 0) % 2 == 0, pos(x, 0) <= 65536 * x)] + final(s) + what(s) + listing(s, vecI(s, O_(s)), pos(x, 0), x, IntVal(0))
def o1(s): x, y = s.local('x'), s.local('y'); n = N_(s); return [And(0 <= x, x < n, 0 <= y, y <= n, s.vlen(O_(s)) == pos(x, y), pos(x, y) >= 0, pos(x, y) % 2 == 0, pos(x, y) <= 65536 * x + 2 * y)] + final(s) + what(s) + listing(s, vecI(s, O_(s)), pos(x, y), x, y)
def stepx(s): x = s.local('x'); return [pos(x + 1, 0) == pos(x, N_(s))]
def stepy(s): x, y = s.local('x'), s.local('y'); return [pos(x, y + 1) == pos(x, y) + If(F(x, y), 2, 0)]
def lst(s): n = N_(s); return [And(s.vlen(O_(s)) == pos(n, 0), pos(n, 0) % 2 == 0, pos(n, 0) >= 0, pos(n, 0) < 2**31)] + what(s) + listing(s, vecI(s, O_(s)), pos(n, 0), n, IntVal(0))
def p0(s): y = s.local('y'); return [And(0 <= y, y <= N_(s))] + full(s, V(s)) + lst(s)
def p1(s): x, y = s.local('x'), s.local('y'); return [And(0 <= y, y < N_(s), 0 <= x, x <= N_(s))] + full(s, V(s)) + lst(s)
def c0(s):
    x = s.local('x'); t, _, i = s.old.args; r = row(s, t, 'ordering', i)
    return [And(0 <= x, x <= s.vlen(O_(s)), r >= s.old.ctr, r < s.ctr, s.len(PE(r)) == 4 * s.vlen(O_(s)))] + lst(s) + [('copied', all_in(Select(s.heap('i32'), r), 0, x, lambda k, e: e == Select(vecI(s, O_(s)), k)))]
def post(s, rv, t, cl, i):
    n = N_(s); R = s.ver.named(Select(s.heap('i32'), row(s, t, 'ordering', i))); L = num(s, t, 'numOrderings', i)
    return [('length', And(L == pos(n, 0), L % 2 == 0, s.len(PE(row(s, t, 'ordering', i))) == 4 * L))] + listing(s, R, L, n, IntVal(0)) + what(s)
lv = lambda n: (lambda s: N_(s) - s.local(n))
L = {0: Loop(f0, variant=lv('x'), frame=lambda s: {'i8': [lambda x: s.ver.root(x) == V(s).obj]}), 1: Loop(f1, variant=lv('y')), 2: Loop(f2, variant=lambda s: OR(s)[1] - s.local('o'), frame=lambda s: {'i8': [lambda x: s.ver.root(x) == V(s).obj]}),
     6: Loop(r0, init_lemma=cdef, variant=lv('x'), frame=fr_red), 7: Loop(r1, variant=lv('y'), frame=fr_red),
     11: Loop(o0, init_lemma=fdef, lemma=stepx, variant=lv('x')), 12: Loop(o1, lemma=stepy, variant=lv('y')), 13: Loop(p0, variant=lv('y')), 14: Loop(p1, variant=lv('x')), 15: Loop(c0, variant=lambda s: s.vlen(O_(s)) - s.local('x'))}
for q, (g, nm) in {3: (f3, 'k'), 4: (f4, 'x'), 5: (f5, 'y')}.items(): L[q] = Loop(g, variant=lv(nm), frame=lambda s: {'i8': [lambda x: s.ver.root(x) == V(s).obj]})
for q, (g, nm) in {8: (g3, 'k'), 9: (g4, 'x'), 10: (g5, 'y')}.items(): L[q] = Loop(g, variant=lv(nm), frame=fr_red)
add(Contract(MP + 'computeTransitiveChangeOfMethodOrderings(bool, int)', requires=req, ensures=post, loops=L, allocs=True, opts=dict(forget=True),
    modifies=lambda s, t, cl, i: [('ptr', mf(s, t, 'ordering')), ('i32', mf(s, t, 'numOrderings'))] + [('Model.' + f, t) for f in ('isTotallyOrdered', 'isUniquePaths', 'isParallelSequences')]))
SPLIT = {CONTRACTS[0].name: 8}
