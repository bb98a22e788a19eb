"""P16: the best-first fringe (OneQueueWAStarFringe over std::priority_queue)."""
import re
from lib import *
from mlib import nf, obj
from models import Rx, method_name, loc
from vc import PV, Unsupported, fresh
TU = '#include "search/fringes/OneQueueWAStarFringe.cpp"\nvoid h_use() { new OneQueueWAStarFringe(gValNone, 1, 1); }\n'
CONTRACTS = []; add = CONTRACTS.append
I = z3.IntSort(); BAG = z3.ArraySort(I, z3.ArraySort(I, I))
# ghost state, per priority queue object: how often each node is contained, and the number of contained nodes
OPTS = {'ghost': {'bag': BAG, 'cnt': z3.ArraySort(I, I), 'ncmp': z3.ArraySort(I, I)}}
A1 = z3.ArraySort(I, I); A2 = z3.ArraySort(I, A1)
LESS = z3.Function('comes_after', A2, A2, A2, A2, I, I, I, z3.BoolSort())
def definition(H, P, F, R, a, b, n):
    """a comes after b: larger f value, or equal ones and the first different further heuristic is larger, or all equal and the larger random number"""
    at = lambda m, x: Select(Select(m, x), 0); hv = lambda x, i: Select(Select(H, at(P, x)), i)
    eq = lambda hi: ForAll([J], Implies(And(1 <= J, J < hi), hv(a, J) == hv(b, J)), patterns=[hv(a, J)])
    return If(at(F, a) != at(F, b), at(F, a) > at(F, b), Or(Exists([K], And(1 <= K, K < n, hv(a, K) > hv(b, K), eq(K))), And(eq(n), at(R, a) > at(R, b))))
_m = z3.Consts('lH? lP? lF? lR?', A2); _x = Ints('la? lb? ln?')
AXIOMS = [ForAll(list(_m) + list(_x), LESS(*_m, *_x) == definition(*_m, *_x), patterns=[LESS(*_m, *_x)])]
def less(s, a, b, n): return LESS(s.heap0('i32'), s.fmap('searchNode.heuristicValue'), s.fmap('searchNode.fValue'), s.fmap('searchNode.hRand'), a, b, n)
fv = lambda s, n: s.f(PE(n), 'searchNode.fValue'); hv = lambda s, n, i: Select(Select(s.heap0('i32'), s.f(PE(n), 'searchNode.heuristicValue').obj), i)
def prove_lemmas():
    """the relation is a strict weak order: irreflexive, transitive, and not-less-both-ways is transitive (for arbitrary values and any number of heuristics)"""
    H = z3.Function('H', I, I, I); F = z3.Function('F', I, I); R = z3.Function('R', I, I); a, b, c, n, j, k = Ints('a b c n j k')
    d = z3.Function('d', I, I, I)       # first position where two nodes differ (n if none), with its definition
    D = [ForAll([a, b], And(1 <= d(a, b), d(a, b) <= n, Implies(d(a, b) < n, H(a, d(a, b)) != H(b, d(a, b))), ForAll([j], Implies(And(1 <= j, j < d(a, b)), H(a, j) == H(b, j)), patterns=[H(a, j)])), patterns=[d(a, b)]), n >= 1]
    L = lambda x, y: If(F(x) != F(y), F(x) > F(y), If(d(x, y) < n, H(x, d(x, y)) > H(y, d(x, y)), R(x) > R(y)))
    def full(x, y): return If(F(x) != F(y), F(x) > F(y), Or(Exists([k], And(1 <= k, k < n, H(x, k) > H(y, k), ForAll([j], Implies(And(1 <= j, j < k), H(x, j) == H(y, j))))), And(ForAll([j], Implies(And(1 <= j, j < n), H(x, j) == H(y, j))), R(x) > R(y))))
    touchH = []
    r = {}
    def valid(nm, f, *hyp):
        s = z3.Solver(); s.set('timeout', 20000); s.add(*D); s.add(*hyp); s.add(Not(f)); r[nm] = s.check() == z3.unsat
    # the values at the three relevant positions of the three nodes
    pos = [d(a, b), d(b, c), d(a, c), d(b, a), d(c, b), d(c, a)]
    term = And(*[H(x, q) == H(x, q) + 0 * q for x in (a, b, c) for q in pos])
    inst = And(*[Implies(And(1 <= q, q < d(x, y)), H(x, q) == H(y, q)) for q in pos for x in (a, b, c) for y in (a, b, c) if not x.eq(y)])
    valid('less in terms of the first difference', full(a, b) == L(a, b), d(a, b) >= 1)
    valid('irreflexive', Not(L(a, a)), d(a, a) >= 1)
    valid('transitive', Implies(And(L(a, b), L(b, c)), L(a, c)), inst)
    inc = lambda x, y: And(Not(L(x, y)), Not(L(y, x)))
    valid('incomparability transitive', Implies(And(inc(a, b), inc(b, c)), inc(a, c)), inst)
    return r
NM = 'TieBreakingNodePointerComaprator'
CMP = NM + '::operator()(progression::searchNode const*, progression::searchNode const*) const'
hs_ok = lambda s, n, a: And(s.f(a, 'searchNode.heuristicValue').obj > 0, s.len(s.f(a, 'searchNode.heuristicValue')) >= 4 * n)
def cinv(s):
    t, a, b = s.args; i, n = s.local('i'), s.f(t, NM + '.numOfHeuristics')
    return [('range', And(1 <= i, fv(s, a.obj) == fv(s, b.obj))), ('equal so far', ForAll([J], Implies(And(1 <= J, J < i), hv(s, a.obj, J) == hv(s, b.obj, J)), patterns=[hv(s, a.obj, J)])), ('upto', Or(i <= n, i == 1))]
add(Contract(CMP, requires=lambda s, t, a, b: [obj(s, t), obj(s, a), obj(s, b), hs_ok(s, s.f(t, NM + '.numOfHeuristics'), a), hs_ok(s, s.f(t, NM + '.numOfHeuristics'), b)],
    ensures=lambda s, rv, t, a, b: [('ordering', rv == less(s, a.obj, b.obj, s.f(t, NM + '.numOfHeuristics')))], loops={0: Loop(cinv, variant=lambda s: If(s.f(s.args[0], NM + '.numOfHeuristics') > s.local('i'), s.f(s.args[0], NM + '.numOfHeuristics') - s.local('i'), 0))}))
# ---- model of std::priority_queue: a bag of nodes; top returns an element that no other element precedes in the order of the comparator
def key(ver, st, p): p = loc(ver, st, p); return ver.named(p.obj * 1)
def pq(ver, st, d, args, ins, m):
    nm, sig = method_name(d); p = loc(ver, st, args[0]); o = p.obj; s = __import__('vc').View(ver, st, st, ())
    bag = ver.getghost(st, 'bag'); c = ver.getghost(st, 'cnt'); nc = ver.getghost(st, 'ncmp'); row = ver.named(Select(bag, o)); n = Select(c, o); x = Int('pq?')
    st.facts.append(And(n >= 0, ForAll([x], And(Select(row, x) >= 0, Implies(n == 0, Select(row, x) == 0)), patterns=[Select(row, x)])))
    if nm == 'priority_queue':
        cp = loc(ver, st, args[1]); ver.setghost(st, 'bag', Store(bag, o, z3.K(I, IntVal(0)))); ver.setghost(st, 'cnt', Store(c, o, IntVal(0)))
        ver.setghost(st, 'ncmp', Store(nc, o, ver.load(st, ver.leaf_ptr(st, cp, ver.flat_fields(('struct', [k for k in ver.mod.structs if NM in k][0]))[0][1]), ('int', 32)))); return None
    if nm == 'size': return n
    if nm == 'empty':
        w = fresh('pqw', I); st.facts.append(Implies(n > 0, Select(row, w) > 0)); return n == 0
    if nm == 'push':
        v = ver.canon(st, ver.load(st, args[1], ('ptr',))).obj; ver.setghost(st, 'bag', Store(bag, o, Store(row, v, Select(row, v) + 1))); ver.setghost(st, 'cnt', Store(c, o, n + 1)); return None
    ver.check(st, 'bounds', n > 0, nm + ' of an empty priority queue')
    t = z3.Function('pq_top', row.sort(), I)(row)      # the same element for top and pop
    st.facts.append(And(Select(row, t) > 0, ForAll([x], Implies(Select(row, x) > 0, Not(less(s, t, x, Select(nc, o)))), patterns=[Select(row, x)])))
    if nm == 'top': return PV(PE(t))
    if nm == 'pop':
        ver.setghost(st, 'bag', Store(bag, o, Store(row, t, Select(row, t) - 1))); ver.setghost(st, 'cnt', Store(c, o, n - 1)); return None
    raise Unsupported(d)
MODELS = [(Rx(r'std::priority_queue<.*TieBreakingNodePointerComaprator>::'), pq)]
F = 'OneQueueWAStarFringe'
fr = lambda s, t: s.f(t, F + '.fringe').obj
bag = lambda s, t, x: Select(Select(s.g('bag'), fr(s, t)), x)
size = lambda s, t: Select(s.g('cnt'), fr(s, t))
G = ('bag', 'cnt', 'ncmp')
def others(s, t): return ('other fringes', And(*[ForAll([K], Implies(K != fr(s, t), Select(s.g(g), K) == Select(s.old.g(g), K)), patterns=[Select(s.g(g), K)]) for g in G]))
def bags(s, t, delta): return ('contents', ForAll([K], bag(s, t, K) == bag(s.old, t, K) + delta(K), patterns=[bag(s, t, K)]))
add(Contract(F + '::isEmpty()', requires=lambda s, t: [obj(s, t)], ensures=lambda s, rv, t: [('empty iff it has no node', rv == (size(s, t) == 0)), ('no node', Implies(rv, ForAll([K], bag(s, t, K) == 0, patterns=[bag(s, t, K)])))]))
add(Contract(F + '::size()', requires=lambda s, t: [obj(s, t), ('fits an int', size(s, t) < 2**31)], ensures=lambda s, rv, t: [('number of nodes', rv == size(s, t))]))
GV = {0: lambda s, n: IntVal(0), 1: lambda s, n: nf(s, n, 'modificationDepth'), 2: lambda s, n: nf(s, n, 'actionCosts'), 3: lambda s, n: nf(s, n, 'mixedModificationDepth')}
def fval(s, t, n):
    o = s.f(t, F + '.aStarOption'); g = IntVal(0)
    for k in (1, 2, 3): g = If(o == k, GV[k](s, n), g)
    return Select(s.arr(nf(s, n, 'heuristicValue')), 0) * s.f(t, F + '.hWeight') + g
add(Contract(F + '::push(progression::searchNode*)', requires=lambda s, t, n: [obj(s, t), obj(s, n), ('has a heuristic value', hs_ok(s, IntVal(1), n)), ('known option', And(0 <= s.f(t, F + '.aStarOption'), s.f(t, F + '.aStarOption') <= 3))],
    ensures=lambda s, rv, t, n: [('priority', nf(s, n, 'fValue') == fval(s.old, t, n)), ('one node more', size(s, t) == size(s.old, t) + 1), bags(s, t, lambda k: b2i(k == n.obj)), others(s, t)],
    modifies=lambda s, t, n: [('searchNode.fValue', n), ('searchNode.hRand', n)], ghost_mod=('bag', 'cnt')))
add(Contract(F + '::pop()', requires=lambda s, t: [obj(s, t), ('not empty', size(s, t) > 0)],
    ensures=lambda s, rv, t: [('a node of the fringe', bag(s.old, t, rv.obj) > 0), ('minimal', ForAll([K], Implies(bag(s.old, t, K) > 0, Not(less(s.old, rv.obj, K, Select(s.g('ncmp'), fr(s, t))))), patterns=[bag(s.old, t, K)])),
        ('one node less', size(s, t) == size(s.old, t) - 1), bags(s, t, lambda k: -b2i(k == rv.obj)), others(s, t)], ghost_mod=('bag', 'cnt')))
add(Contract(F + '::%s(aStar, int, int)' % F, requires=lambda s, t, o, w, h: [obj(s, t)],
    ensures=lambda s, rv, t, o, w, h: [('options', And(s.f(t, F + '.aStarOption') == o, s.f(t, F + '.hWeight') == w)), ('empty', And(size(s, t) == 0, ForAll([K], bag(s, t, K) == 0, patterns=[bag(s, t, K)]))), ('compares all heuristics', Select(s.g('ncmp'), fr(s, t)) == h)],
    modifies=lambda s, t, o, w, h: [(F + '.aStarOption', t), (F + '.hWeight', t)], ghost_mod=G, allocs=True))
