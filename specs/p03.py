"""P03: the multiset of pending tasks (updateTaskCounterA, updateTaskCounterM)."""
from mlib import *
import p17, multmath as MM
from multmath import mult, nfresh
TU = '#include "Model.cpp"\n#include "intDataStructures/IntUtil.cpp"\n'
AXIOMS = MM.AXIOMS
CONTRACTS = [c for c in p17.CONTRACTS if c.name.endswith('indexOf(int*, int, int, int)')]; add = CONTRACTS.append
v = z3.Int('v?')
key = lambda s, n: s.arr(nf(s, n, 'containedTasks')); cnts = lambda s, n: s.arr(nf(s, n, 'containedTaskCount')); size = lambda s, n: nf(s, n, 'numContainedTasks')
def tracked(s, n):
    """the counted list of a node: ascending, positive counts"""
    A, C, m = key(s, n), cnts(s, n), size(s, n)
    return [('list of the parent', And(obj(s, n), m >= 0, m < 2**31, iarr2(s, nf(s, n, 'containedTasks'), m), iarr2(s, nf(s, n, 'containedTaskCount'), m))),
            ('ascending', strict(A, m)), ('positive', all_in(C, 0, m, lambda k, x: And(x > 0, x < 2**30)))]
def iarr2(s, p, n): return And(p.obj > 0, p.obj < s.ctr, p.off == 0, s.len(p) >= 4 * n)
def strict(A, n): return ForAll([K, J], Implies(And(0 <= K, K < J, J < n), Select(A, K) < Select(A, J)), patterns=[z3.MultiPattern(Select(A, K), Select(A, J))])
def adjacent(A, n): return ForAll([K], Implies(And(1 <= K, K < n), Select(A, K - 1) < Select(A, K)), patterns=[Select(A, K)])
def same(A, C, n, f): return ForAll([v], mult(A, C, n, v) == f(v), patterns=[mult(A, C, n, v)])
def out(s, n, f):
    """what the list of the new node says"""
    A, C, m = key(s, n), cnts(s, n), size(s, n)
    return [('task list ascending, each task once', strict(A, m)), ('counts positive', all_in(C, 0, m, lambda k, x: x > 0)), ('the multiset', same(A, C, m, f)), ('storage', And(m >= 0, s.len(nf(s, n, 'containedTasks')) == 4 * m, s.len(nf(s, n, 'containedTaskCount')) == 4 * m))]
NEW = lambda s, t, n, *a: [('searchNode.' + f, n) for f in ('containedTasks', 'containedTaskCount', 'numContainedTasks')]
# ---- action
def reqA(s, t, n, p, a): return [('nodes', And(obj(s, t), obj(s, n), n.obj != p.obj, n.off == 0, p.off == 0))] + tracked(s, p) + [('the task is pending', mult(key(s, p), cnts(s, p), size(s, p), a) > 0), ('lemma', MM.at(key(s, p), cnts(s, p), size(s, p)))]
def fresh_lists(s, n, p, m):
    a, b = nf(s, n, 'containedTasks'), nf(s, n, 'containedTaskCount')
    return And(a.obj >= s.old.ctr, b.obj > a.obj, b.obj < s.ctr, a.off == 0, b.off == 0, s.len(a) == 4 * m, s.len(b) == 4 * m)
def PA(s): p = s.old.args[2]; return key(s.old, p), cnts(s.old, p), size(s.old, p)
def a1(s):
    t, n, p, a = s.args; A, C, m = PA(s); i, ai = s.local('i'), s.local('ai')
    return [('range', And(0 <= i, i <= ai, ai < m, Select(A, ai) == a, size(s, n) == If(Select(C, ai) == 1, m - 1, m), boolean(s.local('removeAI')) == (Select(C, ai) == 1), fresh_lists(s, n, p, size(s, n)))),
            ('ascending', strict(key(s, n), i)), ('from the parent', all_in(key(s, n), 0, i, lambda k, x: x == Select(A, k))), ('counts', all_in(cnts(s, n), 0, i, lambda k, x: x == Select(C, k))), ('multiset', same(key(s, n), cnts(s, n), i, lambda x: mult(A, C, i, x)))]
def a2(s):
    t, n, p, a = s.args; A, C, m = PA(s); i, ni, ai = s.local('i'), s.local('ni'), s.local('ai')
    return [('range', And(ai + 1 <= i, i <= m, 0 <= ai, Select(A, ai) == a, ni == If(Select(C, ai) == 1, i - 1, i), size(s, n) == If(Select(C, ai) == 1, m - 1, m), fresh_lists(s, n, p, size(s, n)))),
            ('ascending', strict(key(s, n), ni)), ('below', Implies(i < m, all_in(key(s, n), 0, ni, lambda k, x: x < Select(A, i)))), ('counts positive', all_in(cnts(s, n), 0, ni, lambda k, x: x > 0)), ('multiset', same(key(s, n), cnts(s, n), ni, lambda x: mult(A, C, i, x) - If(x == a, 1, 0)))]
add(Contract(MP + 'updateTaskCounterA(progression::searchNode*, progression::searchNode*, int)', requires=reqA, modifies=NEW, allocs=True,
    ensures=lambda s, rv, t, n, p, a: out(s, n, lambda x: mult(*PA(s), x) - If(x == a, 1, 0)),
    loops={0: Loop(a1, lemma=lambda s: [MM.step(s.local('i'))], variant=lambda s: s.local('ai') - s.local('i')),
           1: Loop(a2, init_lemma=lambda s: [MM.step(s.local('ai'))], lemma=lambda s: [MM.step(s.local('i')), MM.step(s.local('ni'))], variant=lambda s: PA(s)[2] - s.local('i'))}))
# ---- method
def SM(s, *a):
    """the counted list of distinct subtasks of the method"""
    o = s.old if s.old is not None else s
    t, n, p, m = a or o.args
    return Select(o.heap0('i32'), row(o, t, 'sortedDistinctSubtasks', m)), Select(o.heap0('i32'), row(o, t, 'sortedDistinctSubtaskCount', m)), num(o, t, 'numDistinctSTs', m)
def reqM(s, t, n, p, m):
    S, SC, ns = SM(s, t, n, p, m); r1, r2 = row(s, t, 'sortedDistinctSubtasks', m), row(s, t, 'sortedDistinctSubtaskCount', m); M_ = mf(s, t, 'numMethods'); a = num(s, t, 'decomposedTask', m)
    return [('nodes', And(obj(s, t), obj(s, n), n.obj != p.obj, n.off == 0, p.off == 0, 0 <= m, m < M_, size(s, p) < 2**30))] + tracked(s, p) + \
        [('method', And(iarr(s, t, 'numDistinctSTs', M_), iarr(s, t, 'decomposedTask', M_), iarr(s, t, 'sortedDistinctSubtasks', M_, 8), iarr(s, t, 'sortedDistinctSubtaskCount', M_, 8), ns >= 0, ns < 2**30, r1 > 0, r1 < s.ctr, r2 > 0, r2 < s.ctr, s.len(PE(r1)) >= 4 * ns, s.len(PE(r2)) >= 4 * ns)),
         ('subtasks ascending', strict(S, ns)), ('subtask counts', all_in(SC, 0, ns, lambda k, x: And(x > 0, x < 2**30))),
         ('the task is pending', mult(key(s, p), cnts(s, p), size(s, p), a) > 0), ('lemma', MM.at(key(s, p), cnts(s, p), size(s, p))), ('lemma', MM.at(S, SC, ns))]
DT = lambda s: num(s.old, s.old.args[0], 'decomposedTask', s.old.args[3])
NF = lambda s, k: nfresh(*PA(s), SM(s)[0], k)
def m0(s):
    t, n, p, m = s.args; A, C, np_ = PA(s); S, SC, ns = SM(s); i, lo = s.local('i'), s.local('low')
    return [('range', And(0 <= i, i <= ns, 0 <= lo, lo <= np_, s.local('newElements') == NF(s, i))), ('below', Implies(i < ns, all_in(A, 0, lo, lambda k, x: x < Select(S, i))))]
def m1(s):
    t, n, p, m = s.args; A, C, np_ = PA(s); S, SC, ns = SM(s); it, im, ir = s.local('itn'), s.local('im'), s.local('ir'); a = DT(s); rem = boolean(s.local('removeAbs')); ix = s.local('index')
    return [('range', And(0 <= it, it <= np_, 0 <= im, im <= ns, 0 <= ix, ix < np_, Select(A, ix) == a, rem == And(Select(C, ix) == 1, mult(S, SC, ns, a) == 0), size(s, n) == np_ + NF(s, ns) - If(rem, 1, 0), ir == it + NF(s, im) - If(And(rem, ix < it), 1, 0))), ('new lists', fresh_lists(s, n, p, size(s, n))),
            ('A below S', Implies(im < ns, all_in(A, 0, it, lambda k, x: Or(x < Select(S, im), And(rem, k == ix))))), ('S below A', Implies(it < np_, all_in(S, 0, im, lambda k, x: x < Select(A, it)))), ('below S', Implies(im < ns, all_in(key(s, n), 0, ir, lambda k, x: x < Select(S, im)))), ('below A', Implies(it < np_, all_in(key(s, n), 0, ir, lambda k, x: x < Select(A, it)))),
            ('ascending', strict(key(s, n), ir)), ('counts positive', all_in(cnts(s, n), 0, ir, lambda k, x: x > 0)), ('exact counts', ForAll([K], Implies(And(0 <= K, K < ir), mult(key(s, n), cnts(s, n), ir, Select(key(s, n), K)) == Select(cnts(s, n), K)), patterns=[Select(cnts(s, n), K)])), ('task removed', Implies(rem, all_in(key(s, n), 0, ir, lambda k, x: x != a))),
            ('multiset', same(key(s, n), cnts(s, n), ir, lambda x: mult(A, C, it, x) + mult(S, SC, im, x) - If(And(rem, x == a, ix < it), 1, 0)))]
def l_m0(s): S, SC, ns = SM(s); i = s.local('i'); return [MM.nstep(*PA(s), S, i), MM.nmono(*PA(s), S, i, i)]
def l_m1(s):
    S, SC, ns = SM(s); im = s.local('im')
    return [MM.step(s.local('itn')), MM.step(im), MM.step(s.local('ir')), MM.nstep(*PA(s), S, im), MM.nmono(*PA(s), S, im, im + 1), MM.nmono(*PA(s), S, im, ns), MM.nmono(*PA(s), S, im + 1, ns)]
def i_m1(s): S, SC, ns = SM(s); return [MM.nmono(*PA(s), S, 0, ns)]
add(Contract(MP + 'updateTaskCounterM(progression::searchNode*, progression::searchNode*, int)', requires=reqM, call_lemmas={'progression::IntUtil::indexOf(int*, int, int, int)': lambda c, o, q, rv, *a: [touch(mult(key(c, c.args[1]), cnts(c, c.args[1]), size(c, c.args[1]), DT(c)))]}, modifies=NEW, allocs=True,
    ensures=lambda s, rv, t, n, p, m: out(s, n, lambda x: mult(*PA(s), x) + mult(*SM(s), x) - If(x == DT(s), 1, 0)),
    loops={0: Loop(m0, init_lemma=lambda s: [MM.nmono(*PA(s), SM(s)[0], 0, 0)], lemma=l_m0, variant=lambda s: SM(s)[2] - s.local('i')),
           1: Loop(m1, init_lemma=i_m1, lemma=l_m1, variant=lambda s: PA(s)[2] + SM(s)[2] - s.local('itn') - s.local('im'))}))
prove_lemmas = MM.prove_axioms
SPLIT = {CONTRACTS[-1].name: 5}
