"""P01: applicability, goal test, successor state."""
from mlib import *
TU = '#include "Model.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append
def acts(s, t): return mf(s, t, 'numActions')
def precs(s, t): return [('model', obj(s, t))] + lists(s, t, 'numPrecs', 'precLists', acts(s, t), 0, mf(s, t, 'numStateBits'))
def node(s, t, n): return [('node', And(obj(s, n), nbits(s, n) == mf(s, t, 'numStateBits')))]
def all_true(s, t, n, a, hi): return ForAll([K], Implies(And(0 <= K, K < hi), holds(bits(s, n), ent(s, t, 'precLists', a, K))), patterns=[ent(s, t, 'precLists', a, K)])
def goals(s, n, t, hi): return ForAll([K], Implies(And(0 <= K, K < hi), holds(bits(s, n), Select(s.arr(mf(s, t, 'gList')), K))), patterns=[Select(s.arr(mf(s, t, 'gList')), K)])
add(Contract(MP + 'isApplicable(progression::searchNode*, int) const', requires=lambda s, t, n, a: precs(s, t) + node(s, t, n) + [('action', And(0 <= a, a < acts(s, t)))],
    ensures=lambda s, rv, t, n, a: [('applicable iff every precondition is true', rv == all_true(s, t, n, a, num(s, t, 'numPrecs', a)))],
    loops={0: Loop(lambda s: [And(0 <= s.local('i'), s.local('i') <= num(s, s.args[0], 'numPrecs', s.args[2])), all_true(s, s.args[0], s.args[1], s.args[2], s.local('i'))], variant=lambda s: num(s, s.args[0], 'numPrecs', s.args[2]) - s.local('i'))}))
gs = lambda s, t: mf(s, t, 'gSize')
glist = lambda s, t: [('goal', And(gs(s, t) >= 0, Implies(gs(s, t) > 0, iarr(s, t, 'gList', gs(s, t))), all_in(s.arr(mf(s, t, 'gList')), 0, gs(s, t), lambda k, x: And(0 <= x, x < mf(s, t, 'numStateBits')))))]
add(Contract(MP + 'isGoal(progression::searchNode*) const', requires=lambda s, t, n: [('model', obj(s, t))] + glist(s, t) + node(s, t, n) + [('counts', And(nf(s, n, 'numAbstract') >= 0, nf(s, n, 'numPrimitive') >= 0))],
    ensures=lambda s, rv, t, n: [('goal iff nothing is pending and every goal fact is true', rv == And(nf(s, n, 'numAbstract') == 0, nf(s, n, 'numPrimitive') == 0, goals(s, n, t, gs(s, t))))],
    loops={0: Loop(lambda s: [And(0 <= s.local('i'), s.local('i') <= gs(s, s.args[0])), goals(s, s.args[1], s.args[0], s.local('i'))], variant=lambda s: gs(s, s.args[0]) - s.local('i'))}))
import p02
CONTRACTS += [c for c in p02.CONTRACTS if c.name == MP + 'apply(progression::searchNode*, int)']
ASSUMED = [c for c in p02.ASSUMED if 'isApplicable' not in c.name]; SPLIT = p02.SPLIT; AXIOMS = []
prove_lemmas = p02.prove_lemmas
TU = p02.TU
