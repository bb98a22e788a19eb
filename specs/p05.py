"""P05: indexes from facts to actions and from tasks to methods."""
from mlib import *
TU = '#include "Model.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append
acts = lambda s, t: mf(s, t, 'numActions'); nbit = lambda s, t: mf(s, t, 'numStateBits')
def adds_model(s, t): return [('model', obj(s, t)), ('facts', And(nbit(s, t) >= 0, acts(s, t) < 2**31))] + lists(s, t, 'numAdds', 'addLists', acts(s, t), 0, nbit(s, t))
x, y = Ints('x? y?')
ADDS = lambda s, t: (lambda a, j: ent(s, t, 'addLists', a, j)); NADD = lambda s, t: (lambda a: num(s, t, 'numAdds', a))
# hit(S, n): every action below n that adds f is in S[f], and S[f] contains nothing else
def has(s, t, a, f): return Exists([J], And(0 <= J, J < num(s, t, 'numAdds', a), ent(s, t, 'addLists', a, J) == f))
def only(s, t, S, n, last=None):
    """every member of S[f] is an action below n (or the action n, through one of its first `last` adds) that adds f"""
    h = lambda lim: Exists([J], And(0 <= J, J < lim, ent(s, t, 'addLists', x, J) == K - OFF))
    m = Select(Select(S, K), x)
    c = And(0 <= x, x < n, h(num(s, t, 'numAdds', x)))
    if last is not None: c = Or(c, And(x == n, h(last)))
    return ForAll([K, x], Implies(And(OFF <= K, K < OFF + nbit(s, t), m), c), patterns=[m])
def all_in_sets(s, t, S, n, last=None):
    e = ent(s, t, 'addLists', x, J); c = Implies(And(0 <= x, x < n, 0 <= J, J < num(s, t, 'numAdds', x)), Select(Select(S, e + OFF), x))
    if last is None: return ForAll([x, J], c, patterns=[e])
    return ForAll([x, J], And(c, Implies(And(x == n, 0 <= J, J < last), Select(Select(S, e + OFF), x))), patterns=[e])
OFF = 8     # an array of sets starts after its length word
def T0(s): return s.args[0]
tmp = lambda s: s.local('addToActionTemp')
def l0(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i')
    return [('range', And(0 <= i, i <= acts(s, t))), ('only', only(s, t, S, i)), ('all', all_in_sets(s, t, S, i))]
def l1(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i'); j = s.local('j')
    return [('range', And(0 <= j, j <= num(s, t, 'numAdds', i))), ('only', only(s, t, S, i, j)), ('all', all_in_sets(s, t, S, i, j))]
SZ = lambda s, t, f: num(s, t, 'addToActionSize', f); E = lambda s, t, f, k: ent(s, t, 'addToAction', f, k)
def filled(s, t, S, n):
    r = lambda f: row(s, t, 'addToAction', f); fresh_ = lambda f: And(r(f) >= s.old.ctr, r(f) < s.ctr, r(f) != tmp(s).obj, r(f) != mf(s, t, 'addToActionSize').obj, r(f) != mf(s, t, 'addToAction').obj, s.len(PE(r(f))) == 4 * SZ(s, t, f))
    return [('sizes', ForAll([K], Implies(And(0 <= K, K < n), And(SZ(s, t, K) == s_card(Select(S, K + OFF)), fresh_(K))), patterns=[SZ(s, t, K), r(K)])),
            ('rows differ', ForAll([K, J], Implies(And(0 <= K, K < J, J < n), r(K) != r(J)), patterns=[z3.MultiPattern(r(K), r(J))])),
            ('entries', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < SZ(s, t, K)), E(s, t, K, J) == s_en(Select(S, K + OFF), J)), patterns=[E(s, t, K, J)]))]
def l2(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i')
    return [('range', And(0 <= i, i <= nbit(s, t)))] + filled(s, t, S, i)
def l3(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i'); it = s.iter()
    r = row(s, t, 'addToAction', i)
    return [('range', And(0 <= it, it <= s_card(Select(S, i + OFF)), s.local('cur') == it, SZ(s, t, i) == s_card(Select(S, i + OFF))))] + filled(s, t, S, i) + \
        [('this row', And(r >= s.old.ctr, r < s.ctr, r != tmp(s).obj, r != mf(s, t, 'addToActionSize').obj, r != mf(s, t, 'addToAction').obj, s.len(PE(r)) == 4 * SZ(s, t, i), ForAll([K], Implies(And(0 <= K, K < i), row(s, t, 'addToAction', K) != r), patterns=[row(s, t, 'addToAction', K)]))),
         ('this entries', ForAll([J], Implies(And(0 <= J, J < it), E(s, t, i, J) == s_en(Select(S, i + OFF), J)), patterns=[E(s, t, i, J)]))]
def post(s, rv, t):
    n = nbit(s, t); o = s.old
    return [('listed actions add the fact', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < SZ(s, t, K)), And(0 <= E(s, t, K, J), E(s, t, K, J) < acts(s, t), Exists([x], And(0 <= x, x < num(o, t, 'numAdds', E(s, t, K, J)), ent(o, t, 'addLists', E(s, t, K, J), x) == K)))), patterns=[E(s, t, K, J)])),
            ('adding actions are listed', ForAll([x, J, V], Implies(And(0 <= x, x < acts(s, t), 0 <= J, J < num(o, t, 'numAdds', x), V == ent(o, t, 'addLists', x, J)), Exists([K], And(0 <= K, K < SZ(s, t, V), E(s, t, V, K) == x))), patterns=[z3.MultiPattern(ent(o, t, 'addLists', x, J), SZ(s, t, V))])),
            ('ascending, each once', ForAll([K, J, x], Implies(And(0 <= K, K < n, 0 <= J, J < x, x < SZ(s, t, K)), E(s, t, K, J) < E(s, t, K, x)), patterns=[z3.MultiPattern(E(s, t, K, J), E(s, t, K, x))])),
            ('list lengths', ForAll([K], Implies(And(0 <= K, K < n), SZ(s, t, K) >= 0), patterns=[SZ(s, t, K)]))]
def small(s):
    t = T0(s); S = sets(s, tmp(s))
    return [('a set is finite', ForAll([K], s_fin(Select(S, K)), patterns=[Select(S, K)])), ('finite set of small numbers', ForAll([K], Implies(And(OFF <= K, K < OFF + nbit(s, t)), card_bound(Select(S, K), acts(s, t))), patterns=[Select(S, K)]))]
def witness(s, rv, t):
    S = sets(s, tmp(s)); f = ent(s.old, t, 'addLists', x, J)
    return [ForAll([x, J], touch(E(s, t, f, s_rank(Select(S, f + OFF), x))), patterns=[f])]
add(Contract(MP + 'calcAddToActionMapping()', requires=lambda s, t: adds_model(s, t), ensures=post, modifies=lambda s, t: [('Model.addToActionSize', t), ('Model.addToAction', t)], allocs=True, lemma=witness,
    loops={1: Loop(l0, variant=lambda s: acts(s, T0(s)) - s.local('i')), 2: Loop(l1, variant=lambda s: num(s, T0(s), 'numAdds', s.local('i')) - s.local('j')),
           3: Loop(l2, init_lemma=small, variant=lambda s: nbit(s, T0(s)) - s.local('i')), 4: Loop(l3, variant=lambda s: s_card(Select(sets(s, tmp(s)), s.local('i') + OFF)) - s.iter())}))
import methodrep
METHODS = methodrep.contract(1); METHODS.axioms = M.AXIOMS + methodrep.DEFS
add(METHODS); SPLIT = {METHODS.name: 6}
prove_lemmas = prove_card      # and the counting lemmas (M.AXIOMS), see check.py
