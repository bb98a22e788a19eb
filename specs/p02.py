"""P02: progression of the task network (initializeMethod, apply, decompose)."""
from mlib import *
import methodrep
from methodrep import ecnt, scnt
TU = '#include "Model.cpp"\n#include "ProgressionNetwork.cpp"\n'
AXIOMS = methodrep.DEFS
# never called with the options off: the call itself would be the failed obligation
never = lambda nm: Contract(nm, requires=lambda s, *a: [('not called in plain progression', BoolVal(False))], assumed=True)
ASSUMED = [never('progression::FlexIntStack::' + f) for f in ('push(int)', 'clear()', 'getFirst()', 'getNext()')] + [never(MP + f) for f in ('updateReachability(progression::searchNode*)', 'updateTaskCounterA(progression::searchNode*, progression::searchNode*, int)', 'updateTaskCounterM(progression::searchNode*, progression::searchNode*, int)', 'isApplicable(progression::searchNode*, int) const')] + [never('progression::searchNode::~searchNode()')]
CONTRACTS = []; add = CONTRACTS.append
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort()); I = z3.IntSort(); x, y = Ints('x? y?')
nsub = lambda s, t, m: num(s, t, 'numSubTasks', m); nord = lambda s, t, m: num(s, t, 'numOrderings', m); ORD = lambda s, t, m: Select(s.heap0('i32'), row(s, t, 'ordering', m))
def listed(s, t, f, m, n, w): r = row(s, t, f, m); return Implies(n > 0, And(r > 0, r < s.ctr, s.len(PE(r)) >= w * n))
def method(s, t, m):
    M_ = mf(s, t, 'numMethods'); H = nord(s, t, m); N = nsub(s, t, m); A = ORD(s, t, m)
    return [('model', obj(s, t)), ('method', And(0 <= m, m < M_, M_ < 2**31, *[iarr(s, t, f, M_) for f in ('numSubTasks', 'numOrderings', 'numFirstTasks', 'numLastTasks')], *[iarr(s, t, f, M_, 8) for f in ('subTasks', 'ordering', 'methodSubtaskSuccNum', 'methodsFirstTasks', 'methodsLastTasks')])),
        ('rows', And(N >= 0, N < 2**31, H >= 0, H % 2 == 0, H < 2**31, num(s, t, 'numFirstTasks', m) >= 0, num(s, t, 'numLastTasks', m) >= 0, listed(s, t, 'subTasks', m, N, 4), listed(s, t, 'methodSubtaskSuccNum', m, N, 4), listed(s, t, 'ordering', m, H, 4), listed(s, t, 'methodsFirstTasks', m, num(s, t, 'numFirstTasks', m), 4), listed(s, t, 'methodsLastTasks', m, num(s, t, 'numLastTasks', m), 4))),
        ('ordering pairs', all_in(A, 0, H, lambda k, e: And(0 <= e, e < N))),
        ('successor counts of the method (P07)', ForAll([K], Implies(And(0 <= K, K < N), ent(s, t, 'methodSubtaskSuccNum', m, K) == ecnt(A, H, K)), patterns=[ent(s, t, 'methodSubtaskSuccNum', m, K)])),
        *[(f, ForAll([K], Implies(And(0 <= K, K < num(s, t, n, m)), And(0 <= ent(s, t, f, m, K), ent(s, t, f, m, K) < N)), patterns=[ent(s, t, f, m, K)])) for f, n in (('methodsFirstTasks', 'numFirstTasks'), ('methodsLastTasks', 'numLastTasks'))]]
st = lambda s: s.local('stepPointerList')
def srow(s): return s.ver.named(sel(s.heap('ptr'), st(s).obj))
F = lambda s, p, f: s.f(PE(p), 'planStep.' + f)
def steps(s, n, t, m, par):
    R = srow(s); e = Select(R, K); o = s.old
    return [('new objects', And(st(s).obj >= o.ctr, st(s).off == 0, s.len(st(s)) == 8 * nsub(o, t, m), ForAll([K], Implies(And(0 <= K, K < n), And(e > st(s).obj, e < s.ctr)), patterns=[e]))),
            ('different objects', ForAll([K, J], Implies(And(0 <= K, K < J, J < n), e < Select(R, J)), patterns=[z3.MultiPattern(e, Select(R, J))])),
            ('steps', ForAll([K], Implies(And(0 <= K, K < n), And(F(s, e, 'task') == ent(o, t, 'subTasks', m, K), F(s, e, 'id') == mf(o, t, 'psID') + 1 + K, F(s, e, 'myPositionInParent') == K, F(s, e, 'parentSolutionStepInstanceNumber') == par)), patterns=[e]))]
def l0(s):
    t, m, par = s.args; i = s.local('i'); R = srow(s)
    return [('range', And(0 <= i, i <= nsub(s.old, t, m), mf(s, t, 'psID') == mf(s.old, t, 'psID') + i))] + steps(s, i, t, m, par) + [('no predecessor yet', all_in(R, 0, i, lambda k, e: F(s, e, 'pointersToMe') == 0))]
def l1(s):
    t, m, par = s.args; i = s.local('i'); R = srow(s); N = nsub(s.old, t, m)
    return [('range', And(0 <= i, i <= N))] + steps(s, N, t, m, par) + [('no predecessor yet', all_in(R, 0, N, lambda k, e: F(s, e, 'pointersToMe') == 0)), ('no successor yet', all_in(R, 0, i, lambda k, e: F(s, e, 'numSuccessors') == 0))]
wp = z3.Function('pair_with_rank', ARR, I, I, I, I)
def emono(A, h, H, v): return Implies(And(0 <= h, h <= H, (H - h) % 2 == 0), ecnt(A, h, v) <= ecnt(A, H, v))
def erank(A, h, v, j): return Implies(And(0 <= h, h % 2 == 0, 0 <= j, j < ecnt(A, h, v)), And(0 <= wp(A, h, v, j), wp(A, h, v, j) + 1 < h, wp(A, h, v, j) % 2 == 0, Select(A, wp(A, h, v, j)) == v, ecnt(A, wp(A, h, v, j), v) == j))
SL = lambda s, e: F(s, e, 'successorList')
def succ(s, e, j): return Select(Select(s.heap0('ptr'), SL(s, e).obj), j)
def storage(s, n, t, m, R):
    o = s.old; c = lambda k: ecnt(ORD(o, t, m), nord(o, t, m), k); q = lambda k: SL(s, Select(R, k)).obj
    return [('successor lists', ForAll([K], Implies(And(0 <= K, K < n, c(K) > 0), And(q(K) > s.outmax, q(K) < s.ctr, SL(s, Select(R, K)).off == 0, s.len(PE(q(K))) == 8 * c(K))), patterns=[q(K)])),
            ('separate lists', ForAll([K, J], Implies(And(0 <= K, K < J, J < n, c(K) > 0, c(J) > 0), q(K) < q(J)), patterns=[z3.MultiPattern(q(K), q(J))]))]
def cmax(s, n): s.outmax = If(n > 0, Select(srow(s), n - 1), st(s).obj); return s
def l1(s):
    t, m, par = s.args; i = s.local('i'); R = srow(s); N = nsub(s.old, t, m); cmax(s, N)
    return [('range', And(0 <= i, i <= N))] + steps(s, N, t, m, par) + [('no predecessor yet', all_in(R, 0, N, lambda k, e: F(s, e, 'pointersToMe') == 0)), ('no successor yet', all_in(R, 0, i, lambda k, e: F(s, e, 'numSuccessors') == 0))] + storage(s, i, t, m, R)
def l2(s):
    t, m, par = s.args; i = s.local('i'); R = srow(s); o = s.old; N = nsub(o, t, m); A = ORD(o, t, m); H = nord(o, t, m); cmax(s, N)
    return [('range', And(0 <= i, i <= H, i % 2 == 0))] + steps(s, N, t, m, par) + storage(s, N, t, m, R) + linked(s, R, A, i, N)
def linked(s, R, A, i, N):
    return [('predecessor counts', all_in(R, 0, N, lambda k, e: F(s, e, 'pointersToMe') == scnt(A, i, k))), ('successor counts', all_in(R, 0, N, lambda k, e: F(s, e, 'numSuccessors') == ecnt(A, i, k))),
            ('every ordering pair is a link', ForAll([K], Implies(And(0 <= K, K < i, K % 2 == 0), And(0 <= ecnt(A, K, Select(A, K)), ecnt(A, K, Select(A, K)) < ecnt(A, i, Select(A, K)), succ(s, Select(R, Select(A, K)), ecnt(A, K, Select(A, K))) == Select(R, Select(A, K + 1)))), patterns=[Select(A, K)]))]
def lem2(s):
    t, m, par = s.args; i = s.local('i'); A = ORD(s.old, t, m); H = nord(s.old, t, m)
    return methodrep.step2(A, i) + [('ranks below the total', ForAll([V], And(emono(A, i + 2, H, V)), patterns=[ecnt(A, i + 2, V)])), ('', ForAll([V], ecnt(A, i + 2, V) == ecnt(A, i, V) + b2i(Select(A, i) == V), patterns=[ecnt(A, i, V)])), emono(A, i + 2, H, Select(A, i))]
def copies(f, n, loc):
    def inv(s):
        t, m, par = s.args; i = s.local('i'); R = srow(s); o = s.old; N = nsub(o, t, m); A = ORD(o, t, m); H = nord(o, t, m); cmax(s, N)
        L = lambda l, g, k: [('copied ' + g, all_in(s.ver.named(sel(s.heap('ptr'), s.local(l).obj)), 0, k, lambda k, e: e == Select(R, ent(o, t, g, m, k))))]
        c = L('firsts', 'methodsFirstTasks', i if loc == 'firsts' else num(o, t, 'numFirstTasks', m)) + ([] if loc == 'firsts' else L('lasts', 'methodsLastTasks', i))
        return [('range', And(0 <= i, i <= num(o, t, n, m)))] + steps(s, N, t, m, par) + storage(s, N, t, m, R) + linked(s, R, A, H, N) + c
    return inv
def fr(*fields):
    def f(s):
        cmax(s, nsub(s.old, *s.args[:2])); return {q: [(lambda x, m=(s.outmax if q == 'ptr' else st(s).obj): x > m)] for q in fields}
    return f
stepof = z3.Function('step_of_subtask', I, I, I)       # the step made for a subtask, named by the array of first steps it came with
def pf_(s, fo): return lambda k: stepof(fo, k)
def instance(s, rv, t, m, par):
    """what initializeMethod returns: one new step per subtask, linked as the method orders them"""
    o = s.old; fi, la = rv[1]; S = pf_(s, fi.obj); N = nsub(o, t, m); A = ORD(o, t, m); H = nord(o, t, m); nf_, nl = num(o, t, 'numFirstTasks', m), num(o, t, 'numLastTasks', m)
    RF, RL = Select(s.heap0('ptr'), fi.obj), Select(s.heap0('ptr'), la.obj); e = S(K)
    return [('result arrays', And(fi.obj >= o.ctr, la.obj > fi.obj, fi.off == 0, la.off == 0, s.len(fi) == 8 * nf_, s.len(la) == 8 * nl, fi.obj < s.ctr, la.obj < s.ctr)),
            ('new steps', ForAll([K], Implies(And(0 <= K, K < N), And(e >= o.ctr, e < s.ctr, e < fi.obj)), patterns=[e])), ('one step per subtask', ForAll([K, J], Implies(And(0 <= K, K < J, J < N), e < S(J)), patterns=[z3.MultiPattern(e, S(J))])),
            ('task and place of the steps', ForAll([K], Implies(And(0 <= K, K < N), And(F(s, e, 'task') == ent(o, t, 'subTasks', m, K), F(s, e, 'id') == mf(o, t, 'psID') + 1 + K, F(s, e, 'myPositionInParent') == K, F(s, e, 'parentSolutionStepInstanceNumber') == par)), patterns=[e])),
            ('reference and successor counts', ForAll([K], Implies(And(0 <= K, K < N), And(F(s, e, 'pointersToMe') == scnt(A, H, K), F(s, e, 'numSuccessors') == ecnt(A, H, K))), patterns=[e])),
            ('successor lists are new', ForAll([K], Implies(And(0 <= K, K < N, ecnt(A, H, K) > 0), And(SL(s, e).obj >= o.ctr, SL(s, e).obj < fi.obj, s.len(SL(s, e)) == 8 * ecnt(A, H, K))), patterns=[e])),
            ('every ordering pair is a link', ForAll([K], Implies(And(0 <= K, K < H, K % 2 == 0), And(0 <= ecnt(A, K, Select(A, K)), ecnt(A, K, Select(A, K)) < ecnt(A, H, Select(A, K)), succ(s, S(Select(A, K)), ecnt(A, K, Select(A, K))) == S(Select(A, K + 1)))), patterns=[Select(A, K)])),
            ('every link is an ordering pair', ForAll([K, J], Implies(And(0 <= K, K < N, 0 <= J, J < ecnt(A, H, K)), And(0 <= wp(A, H, K, J), wp(A, H, K, J) + 1 < H, Select(A, wp(A, H, K, J)) == K, succ(s, S(K), J) == S(Select(A, wp(A, H, K, J) + 1)))), patterns=[wp(A, H, K, J)])),
            ('first tasks', ForAll([K], Implies(And(0 <= K, K < nf_), Select(RF, K) == S(ent(o, t, 'methodsFirstTasks', m, K))), patterns=[Select(RF, K)])), ('last tasks', ForAll([K], Implies(And(0 <= K, K < nl), Select(RL, K) == S(ent(o, t, 'methodsLastTasks', m, K))), patterns=[Select(RL, K)])),
            ('step counter', mf(s, t, 'psID') == mf(o, t, 'psID') + N)]
def name_steps(s, rv, t, m, par):
    R = srow(s); fi = rv[1][0]; A = ORD(s.old, t, m); H = nord(s.old, t, m)
    return [('definition of step_of_subtask', ForAll([K], stepof(fi.obj, K) == Select(R, K), patterns=[stepof(fi.obj, K)])), ForAll([K, J], erank(A, H, K, J), patterns=[wp(A, H, K, J)])]
add(Contract(MP + 'initializeMethod(int, int)', requires=lambda s, t, m, par: method(s, t, m), modifies=lambda s, t, m, par: [('Model.psID', t)], allocs=True, ensures=instance, lemma=name_steps,
    loops={0: Loop(l0, variant=lambda s: nsub(s.old, *s.args[:2]) - s.local('i')), 1: Loop(l1, frame=fr('planStep.numSuccessors', 'planStep.successorList'), variant=lambda s: nsub(s.old, *s.args[:2]) - s.local('i')), 2: Loop(l2, lemma=lem2, frame=fr('planStep.numSuccessors', 'planStep.pointersToMe', 'ptr'), variant=lambda s: nord(s.old, *s.args[:2]) - s.local('i')),
           3: Loop(copies('methodsFirstTasks', 'numFirstTasks', 'firsts'), variant=lambda s: num(s.old, s.args[0], 'numFirstTasks', s.args[1]) - s.local('i')), 4: Loop(copies('methodsLastTasks', 'numLastTasks', 'lasts'), variant=lambda s: num(s.old, s.args[0], 'numLastTasks', s.args[1]) - s.local('i'))}))
# ------------------------------------------------------------------ apply
B_ = z3.BoolSort()
reach = z3.Function('has_pending_predecessor', I, B_)      # least set that contains the successors of the other tasks (and of the direct successors) and is closed under succession
step = z3.Function('is_step', I, B_)                        # the steps of the network
parr = z3.Function('primitive_flags', z3.ArraySort(I, B_), ARR); prank = z3.Function('place_of_rank', ARR, I, I, I, I)
ns = lambda s, e: F(s, e, 'numSuccessors'); cnt0 = lambda A, n, v: cnt(A, 0, n, v)
def rank_is(A, n, v, r, p): return And(0 <= p, p < n, Select(A, p) == v, cnt0(A, p, v) == r)
def rank_ax(): A = z3.Const('ra?', ARR); n, v, r = Ints('rn? rv? rr?'); p = prank(A, n, v, r); return ForAll([A, n, v, r], Implies(And(0 <= r, r < cnt0(A, n, v)), rank_is(A, n, v, r, p)), patterns=[prank(A, n, v, r)])
def extend_ax(): A = z3.Const('ra?', ARR); n, v = Ints('rn? rv?'); return ForAll([A, n, v], Implies(n >= 0, cnt0(A, n + 1, v) == cnt0(A, n, v) + b2i(Select(A, n) == v)), patterns=[cnt0(A, n + 1, v)])
APPLY_AX = [M.AX['nonneg'], M.AX['store'], extend_ax(), rank_ax()]
PFS = lambda s: s.smem(mf(s, T(s), 'potentiallyFirst')); DONE = lambda s: s.smem(mf(s, T(s), 'done')); PP = lambda s: s.ver.named(s.varr(mf(s, T(s), 'potentialPredecessors'), 'ptr')); PPN = lambda s: s.vlen(mf(s, T(s), 'potentialPredecessors'))
T = lambda s: s.args[0]; ND = lambda s: s.args[1]; NO = lambda s: s.args[2]
up = lambda s, n, k: Select(Select(s.heap0('ptr'), nf(s, n, 'unconstraintPrimitive').obj), k); ua = lambda s, n, k: Select(Select(s.heap0('ptr'), nf(s, n, 'unconstraintAbstract').obj), k)
nP = lambda s, n: nf(s, n, 'numPrimitive'); nA = lambda s, n: nf(s, n, 'numAbstract')
prog = lambda o: up(o, ND(o), NO(o)); SROW = lambda o: Select(o.heap0('ptr'), SL(o, prog(o)).obj)
def steps_ok(s):
    e = x
    return [('steps', ForAll([e], Implies(step(e), And(e > 0, e < s.ctr, s.ver.root(e) == e, ns(s, e) >= 0, ns(s, e) < 2**31, 0 <= F(s, e, 'task'), F(s, e, 'task') < mf(s, T(s), 'numTasks'), Implies(ns(s, e) > 0, And(SL(s, e).obj > 0, SL(s, e).obj < s.ctr, s.ver.root(SL(s, e).obj) == SL(s, e).obj, SL(s, e).off == 0, s.len(SL(s, e)) >= 8 * ns(s, e))))), patterns=[step(e)])),
            ('successors are steps', ForAll([e, J], Implies(And(step(e), 0 <= J, J < ns(s, e)), step(succ(s, e, J))), patterns=[succ(s, e, J)]))]
def node_ok(s, t, n):
    def lst(f, k, nn, prim): p = nf(s, n, f); return [(f, And(nn >= 0, nn < 2**30, Implies(nn > 0, And(p.obj > 0, p.obj < s.ctr, p.off == 0, s.ver.root(p.obj) == p.obj, s.len(p) >= 8 * nn)))), (f + ' are steps', ForAll([K], Implies(And(0 <= K, K < nn), And(step(k(s, n, K)))), patterns=[k(s, n, K)]))]
    return [('model', And(obj(s, t), obj(s, n), n.off == 0, t.off == 0, s.ver.root(n.obj) == n.obj, s.ver.root(t.obj) == t.obj, iarr(s, t, 'isPrimitive', mf(s, t, 'numTasks'), 1)))] + lst('unconstraintPrimitive', up, nP(s, n), 1) + lst('unconstraintAbstract', ua, nA(s, n), 0) + steps_ok(s)
def seeds(o, i1, j1, i2, j2, i3, j3, P):
    """P holds for the successors of the first i1 successors of the progressed task (and the first j1 of the next), of the first i2 abstract and of the first i3 primitive tasks"""
    s = o; n = ND(o); d = Select(SROW(o), K); a = ua(o, n, K); b = up(o, n, K)
    q = lambda e, i, j: Or(K < i, And(K == i, J < j))
    return [ForAll([K, J], Implies(And(0 <= K, K < ns(o, prog(o)), q(d, i1, j1), 0 <= J, J < ns(o, d)), P(succ(o, d, J))), patterns=[succ(o, d, J)]),
            ForAll([K, J], Implies(And(0 <= K, K < nA(o, n), q(a, i2, j2), 0 <= J, J < ns(o, a)), P(succ(o, a, J))), patterns=[succ(o, a, J)]),
            ForAll([K, J], Implies(And(0 <= K, K < nP(o, n), K != NO(o), q(b, i3, j3), 0 <= J, J < ns(o, b)), P(succ(o, b, J))), patterns=[succ(o, b, J)])]
def all_seeds(o, P): return seeds(o, ns(o, prog(o)), 0, nA(o, ND(o)), 0, nP(o, ND(o)), 0, P)
def closed(o, P): return ForAll([x, J], Implies(And(P(x), step(x), 0 <= J, J < ns(o, x)), P(succ(o, x, J))), patterns=[succ(o, x, J)])
def actions(s, t): return lists(s, t, 'numAdds', 'addLists', mf(s, t, 'numActions'), 0, mf(s, t, 'numStateBits')) + lists(s, t, 'numDels', 'delLists', mf(s, t, 'numActions'), 0, mf(s, t, 'numStateBits'))
def req_apply(s, t, n, no):
    a = F(s, up(s, n, no), 'task')
    return node_ok(s, t, n) + actions(s, t) + [('an unconstrained action', And(0 <= no, no < nP(s, n), 0 <= a, a < mf(s, t, 'numActions'), iarr(s, t, 'actionCosts', mf(s, t, 'numActions')))), ('state', nbits(s, n) == mf(s, t, 'numStateBits')), ('solution', And(nf(s, n, 'solution').obj > 0, nf(s, n, 'solution').obj < s.ctr, nf(s, n, 'solution').off == 0)),
        ('work lists are empty', And(PPN(s) == 0, PFS(s) == z3.K(I, BoolVal(False)), DONE(s) == z3.K(I, BoolVal(False)))),
        ('plain progression', And(Not(boolean(mf(s, t, 'progressEffectLess'))), Not(boolean(mf(s, t, 'progressOneModActions'))), Not(boolean(mf(s, t, 'trackTasksInTN'))), mf(s, t, 'maintainTaskReachability') == 0)),
        ('definition of has_pending_predecessor', And(*all_seeds(s, reach), closed(s, reach)))] + defs(s)
RES = lambda s: s.local('result')
def inPP(s): return lambda e: cnt(PP(s), 0, PPN(s), e) > 0
LIS = lambda s: ('list', And(PPN(s) >= 0, ForAll([K], Implies(And(0 <= K, K < PPN(s)), And(step(Select(PP(s), K)), reach(Select(PP(s), K)))), patterns=[Select(PP(s), K)])))
def res_state(s, dl, al):
    o = s.old; a = F(o, prog(o), 'task'); D = Select(o.heap0('i32'), row(o, T(o), 'delLists', a)); A = Select(o.heap0('i32'), row(o, T(o), 'addLists', a)); R = RES(s) if s.result is None else s.result
    b, b0 = bits(s, R), bits(o, ND(o))
    return [('state', ForAll([K], Select(b, K) == If(cnt(A, 0, al, K) > 0, 1, If(cnt(D, 0, dl, K) > 0, 0, Select(b0, K))), patterns=[Select(b, K)]))]
View.result = None
nd = lambda s: num(s.old, T(s), 'numDels', F(s.old, prog(s.old), 'task')); na_ = lambda s: num(s.old, T(s), 'numAdds', F(s.old, prog(s.old), 'task'))
def RNG(s, n, v='i'): return ('range', And(0 <= s.local(v), s.local(v) <= n))
def base(s): R = RES(s); return [('new node', And(R.obj >= s.old.ctr, R.obj < s.ctr, R.off == 0, s.ver.root(R.obj) == R.obj, nbits(s, R) == nbits(s.old, ND(s)), s.local('progressed').obj == prog(s.old)))]
def a0(s): i = s.local('i'); return [RNG(s, nd(s))] + base(s) + res_state(s, i, 0)
def a1(s): i = s.local('i'); return [RNG(s, na_(s))] + base(s) + res_state(s, nd(s), i)
def direct(s, n): o = s.old; return [('direct successors', ForAll([x], Select(PFS(s), x) == (cnt(SROW(o), 0, n, x) > 0), patterns=[Select(PFS(s), x), cnt(SROW(o), 0, n, x)])), ('nothing done', DONE(s) == z3.K(I, BoolVal(False)))]
def st_(s): return base(s) + res_state(s, nd(s), na_(s))
def SEED(s, *a): return [('seed', q) for q in seeds(s.old, *a, inPP(s))]
def a2(s): i = s.local('i'); return [RNG(s, ns(s.old, prog(s.old))), LIS(s)] + st_(s) + direct(s, i) + SEED(s, i, 0, 0, 0, 0, 0)
def a3(s): i, j = s.local('i'), s.local('j'); return [RNG(s, ns(s.old, Select(SROW(s.old), i)), 'j'), LIS(s)] + st_(s) + direct(s, i + 1) + SEED(s, i, j, 0, 0, 0, 0)
Dn = lambda s: ns(s.old, prog(s.old)); ABn = lambda s: nA(s.old, ND(s)); PRn = lambda s: nP(s.old, ND(s))
def a4(s): i = s.local('i'); return [RNG(s, ABn(s)), LIS(s)] + st_(s) + direct(s, Dn(s)) + SEED(s, Dn(s), 0, i, 0, 0, 0)
def a5(s): i, j = s.local('i'), s.local('j'); return [RNG(s, ns(s.old, ua(s.old, ND(s), i)), 'j'), LIS(s)] + st_(s) + direct(s, Dn(s)) + SEED(s, Dn(s), 0, i, j, 0, 0)
def a6(s): i = s.local('i'); return [RNG(s, PRn(s)), LIS(s)] + st_(s) + direct(s, Dn(s)) + SEED(s, Dn(s), 0, ABn(s), 0, i, 0)
def a7(s): i, j = s.local('i'), s.local('j'); return [RNG(s, ns(s.old, up(s.old, ND(s), i)), 'j'), LIS(s)] + st_(s) + direct(s, Dn(s)) + SEED(s, Dn(s), 0, ABn(s), 0, i, j)
def seen(s): return lambda e: Or(Select(DONE(s), e), inPP(s)(e))
def searching(s, cur=None, i=None):
    o = s.old; q = Select(DONE(s), x)
    R = [LIS(s)] + st_(s) + [('seeds', z) for z in all_seeds(o, seen(s))] + [('done', ForAll([x], Implies(q, And(step(x), reach(x))), patterns=[q])), ('first', ForAll([x], Select(PFS(s), x) == And(cnt(SROW(o), 0, Dn(s), x) > 0, Not(q)), patterns=[Select(PFS(s), x), q, cnt(SROW(o), 0, Dn(s), x)]))]
    h = And(q, 0 <= J, J < ns(o, x))
    if cur is None: return R + [('successors of the done', ForAll([x, J], Implies(h, seen(s)(succ(o, x, J))), patterns=[succ(o, x, J)]))]
    return R + [('successors of the done', ForAll([x, J], Implies(And(h, Or(x != cur, J < i)), seen(s)(succ(o, x, J))), patterns=[succ(o, x, J)])), ('current', And(step(cur), Select(DONE(s), cur)))]
def a8(s): return searching(s)
def a9(s): i = s.local('i'); c = s.local('ps2').obj; return [RNG(s, ns(s.old, c))] + searching(s, c, i)
def lastpp(s): L, n = PP(s), PPN(s); return [('last element of the list', ForAll([V], M.last(L, 0, n, V), patterns=[cnt(L, 0, n, V)]))]
minimal = lambda s: [('definition of has_pending_predecessor: least such set', Implies(And(*all_seeds(s.old, lambda e: Select(DONE(s), e)), closed(s.old, lambda e: Select(DONE(s), e))), ForAll([x], Implies(reach(x), Select(DONE(s), x)), patterns=[reach(x)])))]
FIRST = z3.Const('first_after_progression', z3.ArraySort(I, B_)); FLAG = z3.Const('primitive_flags', ARR)      # defined in defs()
prim = lambda o, e: Select(o.arr(mf(o, T(o), 'isPrimitive'), 'i8'), F(o, e, 'task')) != 0
def defs(o): return [('definition: the direct successors without pending predecessor', ForAll([x], Select(FIRST, x) == And(cnt(SROW(o), 0, ns(o, prog(o)), x) > 0, Not(reach(x))), patterns=[Select(FIRST, x)])), ('definition: which of them are primitive', ForAll([K], Select(FLAG, K) == If(prim(o, s_en(FIRST, K)), 1, 0), patterns=[Select(FLAG, K)]))]
c1 = lambda k: cnt(FLAG, 0, k, 1); c0 = lambda k: cnt(FLAG, 0, k, 0)
def counted(s, it): R = RES(s); return [('counts', And(nP(s, R) == PRn(s) - 1 + c1(it), nA(s, R) == ABn(s) + c0(it), c1(it) >= 0, c0(it) >= 0))]
def fixed(s): return base(s) + res_state(s, nd(s), na_(s)) + [('first tasks', PFS(s) == FIRST)]
CARD = s_card(FIRST)
def a10(s): it = s.iter(); return [('range', And(0 <= it, it <= CARD))] + fixed(s) + counted(s, it)
def arrays_(s):
    R = RES(s); a, b = nf(s, R, 'unconstraintAbstract'), nf(s, R, 'unconstraintPrimitive')
    return fixed(s) + counted(s, CARD) + [('new lists', And(a.obj > R.obj, b.obj > a.obj, b.obj < s.ctr, a.off == 0, b.off == 0, s.ver.root(a.obj) == a.obj, s.ver.root(b.obj) == b.obj, s.len(a) == 8 * nA(s, R), s.len(b) == 8 * nP(s, R)))]
def kept(s, ka, kp): R = RES(s) if s.result is None else s.result; o = s.old; n = ND(s); return [('abstract tasks kept', ForAll([K], Implies(And(0 <= K, K < ka), ua(s, R, K) == ua(o, n, K)), patterns=[ua(s, R, K)])), ('primitive tasks kept', ForAll([K], Implies(And(0 <= K, K < kp), up(s, R, K) == up(o, n, If(K < NO(s), K, K + 1))), patterns=[up(s, R, K)]))]
def a11(s): i = s.local('i'); return [RNG(s, ABn(s)), ('place', And(s.local('currentA') == i, s.local('currentP') == 0))] + arrays_(s) + kept(s, i, 0)
def a12(s): i = s.local('i'); q = i - b2i(i > NO(s)); return [RNG(s, PRn(s)), ('place', And(s.local('currentA') == ABn(s), s.local('currentP') == q))] + arrays_(s) + kept(s, ABn(s), q)
def added(s, it):
    R = RES(s) if s.result is None else s.result; e = s_en(FIRST, K)
    return [('new tasks', ForAll([K], Implies(And(0 <= K, K < it), And(Implies(Select(FLAG, K) == 1, up(s, R, PRn(s) - 1 + c1(K)) == e), Implies(Select(FLAG, K) == 0, ua(s, R, ABn(s) + c0(K)) == e))), patterns=[Select(FLAG, K)]))]
def a13(s): it = s.iter(); return [('range', And(0 <= it, it <= CARD)), ('place', And(s.local('currentA') == ABn(s) + c0(it), s.local('currentP') == PRn(s) - 1 + c1(it)))] + arrays_(s) + kept(s, ABn(s), PRn(s) - 1) + added(s, it)
def direct_steps(s): o = s.old; n = ns(o, prog(o)); c = cnt(SROW(o), 0, n, x); w = M.wit(SROW(o), 0, n, x); return [('a counted element occurs', ForAll([x], Implies(c > 0, And(0 <= w, w < n, Select(SROW(o), w) == x)), patterns=[c]))]
def l13(s): it = s.iter(); return direct_steps(s) + [touch(Select(FLAG, it)), ForAll([K], And(*[M.split(FLAG, 0, K + 1, h, v) for h in (it, CARD) for v in (0, 1)]), patterns=[Select(FLAG, K)])] + [ForAll([K], Implies(K >= 0, cnt(FLAG, 0, K + 1, v) == cnt(FLAG, 0, K, v) + b2i(Select(FLAG, K) == v)), patterns=[Select(FLAG, K)]) for v in (0, 1)]
LOOPS0 = {0: Loop(a0, variant=lambda s: nd(s) - s.local('i')), 1: Loop(a1, variant=lambda s: na_(s) - s.local('i')), 2: Loop(a2), 3: Loop(a3), 4: Loop(a4), 5: Loop(a5), 6: Loop(a6), 7: Loop(a7), 8: Loop(a8, lemma=lastpp), 9: Loop(a9)}
LOOPS = dict(LOOPS0); LOOPS.update({10: Loop(a10, init_lemma=lambda s: minimal(s) + [('a part of a finite list is finite', s_fin(FIRST))], lemma=l13), 11: Loop(a11), 12: Loop(a12), 13: Loop(a13, lemma=l13), 14: Loop(lambda s: [RNG(s, nP(s, RES(s)))]), 15: Loop(lambda s: [RNG(s, nA(s, RES(s)))])})
def applied(s, rv, t, n, no):
    """what apply returns"""
    o = s.old; s.result = rv; a = F(o, prog(o), 'task'); sol = nf(s, rv, 'solution'); G = lambda f: s.f(sol, 'solutionStep.' + f); bp, ba = nP(o, n) - 1, nA(o, n)
    new = lambda e: And(step(e), cnt(SROW(o), 0, ns(o, prog(o)), e) > 0, Not(reach(e)))
    S_ = Select(SROW(o), K); r = s_rank(FIRST, S_)
    R = [('new node', And(rv.obj >= o.ctr, nbits(s, rv) == nbits(o, n)))] + [('successor state', f) for _, f in res_state(s, nd(s), na_(s))] + kept(s, ba, bp)
    return R + [('new primitive tasks: direct successors without pending predecessor', ForAll([K], Implies(And(bp <= K, K < nP(s, rv)), And(new(up(s, rv, K)), prim(o, up(s, rv, K)))), patterns=[up(s, rv, K)])),
        ('new abstract tasks: direct successors without pending predecessor', ForAll([K], Implies(And(ba <= K, K < nA(s, rv)), And(new(ua(s, rv, K)), Not(prim(o, ua(s, rv, K))))), patterns=[ua(s, rv, K)])),
        ('every direct successor without pending predecessor is unconstrained', ForAll([K], Implies(And(0 <= K, K < ns(o, prog(o)), Not(reach(S_))), If(prim(o, S_), And(bp <= bp + c1(r), bp + c1(r) < nP(s, rv), up(s, rv, bp + c1(r)) == S_), And(ba <= ba + c0(r), ba + c0(r) < nA(s, rv), ua(s, rv, ba + c0(r)) == S_))), patterns=[S_])),
        ('new primitive tasks listed once', ForAll([K, J], Implies(And(bp <= K, K < J, J < nP(s, rv)), up(s, rv, K) != up(s, rv, J)), patterns=[z3.MultiPattern(up(s, rv, K), up(s, rv, J))])), ('new abstract tasks listed once', ForAll([K, J], Implies(And(ba <= K, K < J, J < nA(s, rv)), ua(s, rv, K) != ua(s, rv, J)), patterns=[z3.MultiPattern(ua(s, rv, K), ua(s, rv, J))])),
        ('counts', And(nP(s, rv) >= bp, nA(s, rv) >= ba)), ('solution step', And(G('task') == a, G('method') == -1, G('prev').obj == nf(o, n, 'solution').obj, G('pointersToMe') == 1)), ('costs and depth', And(nf(s, rv, 'actionCosts') == nf(o, n, 'actionCosts') + num(o, t, 'actionCosts', a), nf(s, rv, 'mixedModificationDepth') == nf(o, n, 'mixedModificationDepth') + num(o, t, 'actionCosts', a), nf(s, rv, 'modificationDepth') == nf(o, n, 'modificationDepth') + 1)),
        ('reachability flag', boolean(nf(s, rv, 'goalReachable'))), ('the work lists are empty again', And(PPN(s) == 0, PFS(s) == z3.K(I, BoolVal(False)), DONE(s) == z3.K(I, BoolVal(False)))), ('the solution so far is shared', s.f(nf(o, n, 'solution'), 'solutionStep.pointersToMe') == o.f(nf(o, n, 'solution'), 'solutionStep.pointersToMe') + 1)]
def lem_apply(s, rv, t, n, no):
    bp, ba = nP(s.old, n) - 1, nA(s.old, n); s.result = rv
    def place(arr, base, v): p = prank(FLAG, CARD, v, K - base); return ForAll([K], touch(Select(FLAG, p)), patterns=[arr(s, rv, K)])
    Q = Select(SROW(s.old), K); n_ = ns(s.old, prog(s.old))
    return direct_steps(s) + [('an occurrence is counted', ForAll([K], And(Implies(And(0 <= K, K < n_), cnt(SROW(s.old), 0, n_, Q) >= 1), touch(Select(FIRST, Q)), touch(s_rank(FIRST, Q))), patterns=[Q]))] + [place(up, bp, 1), place(ua, ba, 0), ForAll([x], touch(Select(FLAG, s_rank(FIRST, x))), patterns=[s_rank(FIRST, x)]), ForAll([K], And(*[M.split(FLAG, 0, K + 1, CARD, v) for v in (0, 1)], *[Implies(K >= 0, cnt(FLAG, 0, K + 1, v) == cnt(FLAG, 0, K, v) + b2i(Select(FLAG, K) == v)) for v in (0, 1)]), patterns=[Select(FLAG, K)])]
add(Contract(MP + 'apply(progression::searchNode*, int)', requires=req_apply, lemma=lem_apply, modifies=lambda s, t, n, no: [('planStep.pointersToMe', None), ('solutionStep.pointersToMe', nf(s, n, 'solution')), ('SMEM', mf(s, t, 'potentiallyFirst')), ('SMEM', mf(s, t, 'done')), ('VLEN', mf(s, t, 'potentialPredecessors')), ('ptr', lambda z: s.ver.root(z) == t.obj)], allocs=True, globals_mod=['currentSolutionStepInstanceNumber'], axioms=APPLY_AX, ensures=applied, loops=LOOPS))
# ------------------------------------------------------------------ decompose
FLD = z3.Const('primitive_flags_of_first_tasks', ARR); d1 = lambda k: cnt(FLD, 0, k, 1); d0 = lambda k: cnt(FLD, 0, k, 0)
MT = lambda s: s.args[3]
MFE = lambda o, k: ent(o, T(o), 'methodsFirstTasks', MT(o), k); MLE = lambda o, k: ent(o, T(o), 'methodsLastTasks', MT(o), k); ST = lambda o, k: ent(o, T(o), 'subTasks', MT(o), k)
nF = lambda o: num(o, T(o), 'numFirstTasks', MT(o)); nL = lambda o: num(o, T(o), 'numLastTasks', MT(o))
dec = lambda o: ua(o, ND(o), NO(o)); Ao = lambda o: ORD(o, T(o), MT(o)); Ho = lambda o: nord(o, T(o), MT(o)); Ns = lambda o: nsub(o, T(o), MT(o))
lpos = methodrep.lpos
def req_dec(s, t, n, no, m):
    M_ = mf(s, t, 'numMethods'); A, H, N = Ao(s), Ho(s), Ns(s); isp = lambda k: Select(s.arr(mf(s, t, 'isPrimitive'), 'i8'), k) != 0
    return node_ok(s, t, n) + method(s, t, m)[1:] + [('an unconstrained abstract task', And(0 <= no, no < nA(s, n))), ('state', nbits(s, n) == mf(s, t, 'numStateBits')), ('solution', And(Or(nf(s, n, 'solution').obj == 0, And(nf(s, n, 'solution').obj > 0, nf(s, n, 'solution').obj < s.ctr)), nf(s, n, 'solution').off == 0)),
        ('plain progression', And(Not(boolean(mf(s, t, 'progressEffectLess'))), Not(boolean(mf(s, t, 'progressOneModActions'))), Not(boolean(mf(s, t, 'trackTasksInTN'))), mf(s, t, 'maintainTaskReachability') == 0)),
        ('subtasks', ForAll([K], Implies(And(0 <= K, K < N), And(0 <= ST(s, K), ST(s, K) < mf(s, t, 'numTasks'))), patterns=[ST(s, K)])),
        ('last tasks (P07)', ForAll([K], Implies(And(0 <= K, K < nL(s)), ecnt(A, H, MLE(s, K)) == 0), patterns=[MLE(s, K)])), ('last tasks ascending (P07)', ForAll([K, J], Implies(And(0 <= K, K < J, J < nL(s)), MLE(s, K) < MLE(s, J)), patterns=[z3.MultiPattern(MLE(s, K), MLE(s, J))])),
        ('all last tasks (P07)', ForAll([K], Implies(And(0 <= K, K < N, ecnt(A, H, K) == 0), And(0 <= lpos(A, H, K), lpos(A, H, K) < nL(s), MLE(s, lpos(A, H, K)) == K)), patterns=[lpos(A, H, K)])),
        ('definition: which first tasks are primitive', ForAll([K], Select(FLD, K) == If(isp(ST(s, MFE(s, K))), 1, 0), patterns=[Select(FLD, K)])),
        ('numbers of first tasks', And(iarr(s, t, 'numFirstPrimSubTasks', M_), iarr(s, t, 'numFirstAbstractSubTasks', M_), num(s, t, 'numFirstPrimSubTasks', m) == d1(nF(s)), num(s, t, 'numFirstAbstractSubTasks', m) == d0(nF(s)), nF(s) <= N))]
def leaf(s, name, i):
    v = s.ver; p = s.local(name); l = v.flat_fields(v.alloca_ty(p))[i]; return v.load(s.st, v.leaf_ptr(s.st, p, l[1]), l[2])
def mi(s): return leaf(s, 'mInstance', 0), leaf(s, 'mInstance', 1)
def arrp(s, R, f, n, hi): p = nf(s, R, f); return If(n > 0, And(p.obj > R.obj, p.obj < hi, p.off == 0, s.ver.root(p.obj) == p.obj, s.len(p) == 8 * n), p.obj == 0)
def dnode(s, hi=None):
    R = RES(s); o = s.old; hi = s.ctr if hi is None else hi; p, a = nf(s, R, 'unconstraintPrimitive'), nf(s, R, 'unconstraintAbstract')
    return [('new node', And(R.obj >= o.ctr, R.obj < hi, R.off == 0, s.ver.root(R.obj) == R.obj, nbits(s, R) == nbits(o, ND(s)), s.local('decomposed').obj == dec(o), nP(s, R) == nP(o, ND(s)) + d1(nF(o)), nA(s, R) == nA(o, ND(s)) - 1 + d0(nF(o)), d1(nF(o)) >= 0, d0(nF(o)) >= 0, boolean(nf(s, R, 'goalReachable')))), ('new lists', And(arrp(s, R, 'unconstraintPrimitive', nP(s, R), hi), arrp(s, R, 'unconstraintAbstract', nA(s, R), hi), Implies(And(nP(s, R) > 0, nA(s, R) > 0), p.obj < a.obj))),
            ('same state', ForAll([K], Select(bits(s, R), K) == Select(bits(o, ND(s)), K), patterns=[Select(bits(s, R), K)]))]
def dkept(s, kp, ka): R = RES(s) if s.result is None else s.result; o = s.old; n = ND(s); return [('primitive tasks kept', ForAll([K], Implies(And(0 <= K, K < kp), up(s, R, K) == up(o, n, K)), patterns=[up(s, R, K)])), ('abstract tasks kept', ForAll([K], Implies(And(0 <= K, K < ka), ua(s, R, K) == ua(o, n, If(K < NO(s), K, K + 1))), patterns=[ua(s, R, K)]))]
nPo = lambda s: nP(s.old, ND(s)); nAo = lambda s: nA(s.old, ND(s))
def b0(s): i = s.local('i'); return [RNG(s, nPo(s))] + dnode(s) + dkept(s, i, 0)
def b1(s): i = s.local('i'); q = i - b2i(i > NO(s)); return [RNG(s, nAo(s)), ('place', s.local('current') == q)] + dnode(s) + dkept(s, nPo(s), q)
def steps_d(s, S, lo, hi, par):
    """the new steps; their internal links"""
    o = s.old; A, H, N = Ao(o), Ho(o), Ns(o); e = S(K); q = ecnt(A, H, K)
    return [('new steps', ForAll([K], Implies(And(0 <= K, K < N), And(e >= o.ctr, e > lo, e < hi)), patterns=[e])), ('one step per subtask', ForAll([K, J], Implies(And(0 <= K, K < J, J < N), e < S(J)), patterns=[z3.MultiPattern(e, S(J))])),
            ('task and place of the steps', ForAll([K], Implies(And(0 <= K, K < N), And(F(s, e, 'task') == ST(o, K), F(s, e, 'id') == mf(o, T(o), 'psID') + 1 + K, F(s, e, 'myPositionInParent') == K, F(s, e, 'parentSolutionStepInstanceNumber') == par)), patterns=[e])),
            ('successor counts', ForAll([K], Implies(And(0 <= K, K < N, q > 0), And(ns(s, e) == q, SL(s, e).obj >= o.ctr, SL(s, e).obj < hi, SL(s, e).obj > lo, s.len(SL(s, e)) == 8 * q)), patterns=[e])),
            ('every ordering pair is a link', ForAll([K], Implies(And(0 <= K, K < H, K % 2 == 0), And(0 <= ecnt(A, K, Select(A, K)), ecnt(A, K, Select(A, K)) < ecnt(A, H, Select(A, K)), succ(s, S(Select(A, K)), ecnt(A, K, Select(A, K))) == S(Select(A, K + 1)))), patterns=[Select(A, K)])),
            ('every link is an ordering pair', ForAll([K, J], Implies(And(0 <= K, K < N, 0 <= J, J < q), And(0 <= wp(A, H, K, J), wp(A, H, K, J) + 1 < H, Select(A, wp(A, H, K, J)) == K, succ(s, S(K), J) == S(Select(A, wp(A, H, K, J) + 1)))), patterns=[wp(A, H, K, J)]))]
GN = 'currentSolutionStepInstanceNumber'
def inst(s):
    """the instance in the local mInstance"""
    o = s.old; fi, la = mi(s); S = pf_(s, fi.obj); RF, RL = Select(s.heap0('ptr'), fi.obj), Select(s.heap0('ptr'), la.obj); R = RES(s); top = If(nA(s, R) > 0, nf(s, R, 'unconstraintAbstract').obj, If(nP(s, R) > 0, nf(s, R, 'unconstraintPrimitive').obj, R.obj))
    return [('instance', And(top < fi.obj, fi.obj < la.obj, la.obj < s.ctr, fi.off == 0, la.off == 0, s.len(fi) == 8 * nF(o), s.len(la) == 8 * nL(o), s.local('mySolutionStepInstanceNumber') == o.glob(GN)))] + steps_d(s, S, top, fi.obj, o.glob(GN)) + \
        [('first tasks', ForAll([K], Implies(And(0 <= K, K < nF(o)), Select(RF, K) == S(MFE(o, K))), patterns=[Select(RF, K)])), ('last tasks', ForAll([K], Implies(And(0 <= K, K < nL(o)), Select(RL, K) == S(MLE(o, K))), patterns=[Select(RL, K)]))]
def inherited(s, S, k, upto=None):
    """the last tasks below k have the successors of the decomposed task"""
    o = s.old; e = S(MLE(o, K)); d = dec(o)
    g = lambda c: And(0 <= K, K < k) if c is None else Or(And(0 <= K, K < k), K == k)
    R = [('successors inherited', ForAll([K], Implies(And(0 <= K, K < k), And(ns(s, e) == ns(o, d), SL(s, e).off == 0, Implies(ns(o, d) > 0, And(SL(s, e).obj > (mi(s)[1].obj if s.result is None else o.ctr), SL(s, e).obj < s.ctr, s.len(SL(s, e)) == 8 * ns(o, d))))), patterns=[MLE(o, K)])),
         ('inherited links', ForAll([K, J], Implies(And(0 <= K, K < k, 0 <= J, J < ns(o, d)), succ(s, e, J) == succ(o, d, J)), patterns=[z3.MultiPattern(MLE(o, K), succ(o, d, J)), succ(s, e, J)]))]
    if upto is not None:
        e = S(MLE(o, k))
        R += [('this one', And(ns(s, e) == ns(o, d), SL(s, e).off == 0, SL(s, e).obj > mi(s)[1].obj, SL(s, e).obj < s.ctr, s.len(SL(s, e)) == 8 * ns(o, d), ForAll([K], Implies(And(0 <= K, K < k, ns(o, d) > 0), SL(s, S(MLE(o, K))).obj < SL(s, e).obj), patterns=[MLE(o, K)]))), ('these links', ForAll([J], Implies(And(0 <= J, J < upto), succ(s, e, J) == succ(o, d, J)), patterns=[succ(s, e, J)]))]
    return R
def full(s): return dnode(s, mi(s)[0].obj) + dkept(s, nPo(s), nAo(s) - 1) + inst(s)
def b2(s): i = s.local('i'); return [RNG(s, nL(s.old))] + full(s) + inherited(s, pf_(s, mi(s)[0].obj), i)
def b3(s): i, j = s.local('i'), s.local('j'); return [RNG(s, ns(s.old, dec(s.old)), 'j')] + full(s) + inherited(s, pf_(s, mi(s)[0].obj), i, j)
def dadded(s, S, k):
    R = RES(s) if s.result is None else s.result; o = s.old; e = S(MFE(o, K))
    return [('new tasks', ForAll([K], Implies(And(0 <= K, K < k), And(Implies(Select(FLD, K) == 1, up(s, R, nPo(s) + d1(K)) == e), Implies(Select(FLD, K) == 0, ua(s, R, nAo(s) - 1 + d0(K)) == e))), patterns=[Select(FLD, K)]))]
def b4(s): i = s.local('i'); S = pf_(s, mi(s)[0].obj); return [RNG(s, nF(s.old)), ('place', And(s.local('primI') == nPo(s) + d1(i), s.local('absI') == nAo(s) - 1 + d0(i)))] + full(s) + inherited(s, S, nL(s.old)) + dadded(s, S, i)
def c4(i, o): return [touch(Select(FLD, i)), ForAll([K], And(*[M.split(FLD, 0, K + 1, h, v) for h in (i, nF(o)) for v in (0, 1)]), patterns=[Select(FLD, K)])] + [ForAll([K], Implies(K >= 0, cnt(FLD, 0, K + 1, v) == cnt(FLD, 0, K, v) + b2i(Select(FLD, K) == v)), patterns=[Select(FLD, K)]) for v in (0, 1)]
def decomposed(s, rv, t, n, no, m):
    o = s.old; s.result = rv; S = pf_(s, rv.obj); sol = nf(s, rv, 'solution'); G = lambda f: s.f(sol, 'solutionStep.' + f); A, H = Ao(o), Ho(o); d = dec(o); e = S(K)
    return [('new node', And(rv.obj >= o.ctr, nbits(s, rv) == nbits(o, n), nP(s, rv) == nPo(s) + d1(nF(o)), nA(s, rv) == nAo(s) - 1 + d0(nF(o)), boolean(nf(s, rv, 'goalReachable')))), ('same state', ForAll([K], Select(bits(s, rv), K) == Select(bits(o, n), K), patterns=[Select(bits(s, rv), K)]))] + dkept(s, nPo(s), nAo(s) - 1) + \
        steps_d(s, S, o.ctr - 1, s.ctr, G('mySolutionStepInstanceNumber')) + dadded(s, S, nF(o)) + [('subtasks without successor in the method precede the successors of the decomposed task', ForAll([K], Implies(And(0 <= K, K < Ns(o), ecnt(A, H, K) == 0), ns(s, e) == ns(o, d)), patterns=[e])), ('inherited links', ForAll([K, J], Implies(And(0 <= K, K < Ns(o), ecnt(A, H, K) == 0, 0 <= J, J < ns(o, d)), succ(s, e, J) == succ(o, d, J)), patterns=[succ(s, e, J)])),
        ('solution step', And(G('task') == F(o, d, 'task'), G('method') == m, G('prev').obj == nf(o, n, 'solution').obj, G('pointersToMe') == 1)), ('costs and depth', And(nf(s, rv, 'actionCosts') == nf(o, n, 'actionCosts'), nf(s, rv, 'mixedModificationDepth') == nf(o, n, 'mixedModificationDepth') + 1, nf(s, rv, 'modificationDepth') == nf(o, n, 'modificationDepth') + 1))]
def lem_dec(s, rv, t, n, no, m): o = s.old; fo = mi(s)[0].obj; return [('definition of step_of_subtask', ForAll([K], stepof(rv.obj, K) == stepof(fo, K), patterns=[stepof(rv.obj, K)])), ForAll([K], touch(lpos(Ao(o), Ho(o), K)), patterns=[stepof(rv.obj, K)])] + c4(nF(o), o)
new_ = lambda s, lo=None: lambda z: z >= s.old.ctr
def fr2(s): return {'planStep.numSuccessors': [new_(s)], 'planStep.successorList': [new_(s)], 'ptr': [lambda z: z > mi(s)[1].obj]}
DL = {0: Loop(b0), 1: Loop(b1), 2: Loop(b2, frame=fr2), 3: Loop(b3, frame=lambda s: {'ptr': [lambda z: z > mi(s)[1].obj]}), 4: Loop(b4, lemma=lambda s: c4(s.local('i'), s.old), frame=lambda s: {'ptr': [nf(s, RES(s), f) for f in ('unconstraintPrimitive', 'unconstraintAbstract')]}), 5: Loop(lambda s: [RNG(s, nP(s, RES(s)))]), 6: Loop(lambda s: [RNG(s, nA(s, RES(s)))]), 7: Loop(lambda s: [RNG(s, ns(s.old, dec(s.old)))])}
add(Contract(MP + 'decompose(progression::searchNode*, int, int)', requires=req_dec, ensures=decomposed, lemma=lem_dec, allocs=True, globals_mod=[GN], axioms=APPLY_AX, modifies=lambda s, t, n, no, m: [('planStep.pointersToMe', None), ('solutionStep.pointersToMe', nf(s, n, 'solution')), ('Model.psID', t)], loops=DL))
def each(L, n, *vs):
    for k, (v, hi) in zip(L, vs): n[k].variant = (lambda s, v=v, hi=hi: hi(s) - s.local(v)) if v else (lambda s, hi=hi: hi(s) - s.iter())
each((2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15), LOOPS, ('i', Dn), ('j', lambda s: ns(s.old, Select(SROW(s.old), s.local('i')))), ('i', ABn), ('j', lambda s: ns(s.old, ua(s.old, ND(s), s.local('i')))), ('i', PRn), ('j', lambda s: ns(s.old, up(s.old, ND(s), s.local('i')))), ('i', lambda s: ns(s.old, s.local('ps2').obj)), (None, lambda s: CARD), ('i', ABn), ('i', PRn), (None, lambda s: CARD), ('i', lambda s: nP(s, RES(s))), ('i', lambda s: nA(s, RES(s))))
each(range(8), DL, ('i', nPo), ('i', nAo), ('i', lambda s: nL(s.old)), ('j', lambda s: ns(s.old, dec(s.old))), ('i', lambda s: nF(s.old)), ('i', lambda s: nP(s, RES(s))), ('i', lambda s: nA(s, RES(s))), ('i', lambda s: ns(s.old, dec(s.old))))
SPLIT = {MP + 'apply(progression::searchNode*, int)': 6, MP + 'decompose(progression::searchNode*, int, int)': 6}
def prove_lemmas():
    """the facts on ranks and pair counts, by induction over the length of the list"""
    res = {}; A = z3.Const('A', ARR); n, v, r, q, h, H_ = Ints('n v r q h H')
    def valid(f, *hyp): s = z3.Solver(); s.set('timeout', 10000); s.add(*hyp); s.add(Not(f)); return s.check() == z3.unsat
    D = lambda n: cnt0(A, n, v) == If(n <= 0, 0, cnt0(A, n - 1, v) + b2i(Select(A, n - 1) == v))
    P = lambda n: ForAll([r], Implies(And(0 <= r, r < cnt0(A, n, v)), Exists([q], rank_is(A, n, v, r, q))))
    res['rank: base'] = valid(P(n), n <= 0, D(n)); res['rank: step'] = valid(P(n), n > 0, P(n - 1), D(n), cnt0(A, n - 1, v) >= 0)
    res['extend'] = valid(Implies(n >= 0, cnt0(A, n + 1, v) == cnt0(A, n, v) + b2i(Select(A, n) == v)), D(n + 1))
    E = lambda h: ecnt(A, h + 2, v) == ecnt(A, h, v) + b2i(Select(A, h) == v)
    R = lambda h: ForAll([r], Implies(And(0 <= r, r < ecnt(A, h, v)), Exists([q], And(0 <= q, q + 1 < h, q % 2 == 0, Select(A, q) == v, ecnt(A, q, v) == r))))
    res['pair rank: base'] = valid(R(IntVal(0)), ecnt(A, 0, v) == 0); res['pair rank: step'] = valid(R(h + 2), R(h), E(h), h >= 0, h % 2 == 0)
    res['pair counts grow: base'] = valid(emono(A, h, h, v)); res['pair counts grow: step'] = valid(emono(A, h, H_ + 2, v), emono(A, h, H_, v), E(H_), Or(h <= H_, h == H_ + 2))
    return res
