"""P09: minimal implied costs and distances (Model::calcMinimalImpliedX)."""
from mlib import *
import re
import summath as SM
from summath import sumf
from models import vlen_get, vlen_set, vd, loc, scalar_of
from vc import upd
TU = '#include "Model.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append
I = z3.IntSort(); AR = z3.ArraySort(I, I)
# std::list used as a queue: the elements data[head..length); ghost: for every method / task the position of its last entry
OPTS = {'ghost': {'lhead': I, 'lastM': AR, 'lastT': AR}}
AXIOMS = []
INF = 2**31 - 1
sat = lambda x: If(x <= INF, x, INF)
class Rx:
    def __init__(self, p): self.pattern = p; self.rx = re.compile(p)
    def match(self, d): return self.rx.match(d)
def node(ver, st, o): s, i = ver.fkey('tOrMnode.id'); s2, j = ver.fkey('tOrMnode.isMethod'); return ver.read_field(st, s, i, ('int', 32), o, IntVal(0)), ver.read_field(st, s2, j, ('int', 8), o, IntVal(0))
def lst(ver, st, d, args, ins, m):
    th = args[0]; h = ver.getghost(st, 'lhead'); n = vlen_get(ver, st, th); nm = re.search(r'>::(~?\w+)', d).group(1); key = ('H', 'ptr')
    if nm == 'list': vlen_set(ver, st, th, IntVal(0)); ver.setghost(st, 'lhead', IntVal(0)); return None
    if nm == 'empty': return n == h
    if nm == 'front': ver.check(st, 'bounds', h < n, 'front of an empty list'); return PE(vd(ver, st, th), h)
    if nm == 'pop_front': ver.check(st, 'bounds', h < n, 'pop_front of an empty list'); ver.setghost(st, 'lhead', h + 1); return None
    if nm == 'push_back':
        v = scalar_of(ver, st, args[1], key); D = vd(ver, st, th); mm = ver.getmap(st, key, ('ptr',)); ver.setmap(st, key, upd(mm, D, upd(sel(mm, D), n, v)), D); vlen_set(ver, st, th, n + 1)
        i, isM = node(ver, st, v); isM = isM if z3.is_bool(isM) else isM != 0
        LM, LT = ver.getghost(st, 'lastM'), ver.getghost(st, 'lastT'); ver.setghost(st, 'lastM', If(isM, z3.Store(LM, i, n), LM)); ver.setghost(st, 'lastT', If(isM, LT, z3.Store(LT, i, n))); return None
    return None
MODELS = [(Rx(r'std::__cxx11::list<progression::tOrMnode\*, .*>::(list|~list|push_back|pop_front|front|empty)\('), lst)]
nA = lambda s: mf(s, s.old.args[0] if s.old is not None else s.args[0], 'numActions'); nT = lambda s, t=None: mf(s, t or s.args[0], 'numTasks'); nM = lambda s, t=None: mf(s, t or s.args[0], 'numMethods')
mpos = z3.Function('mpos', I, I, I); tpos = z3.Function('tpos', I, I)
def req(s, t):
    na, nt, nm = mf(s, t, 'numActions'), mf(s, t, 'numTasks'), mf(s, t, 'numMethods'); st = lambda m, k: ent(s, t, 'subTasks', m, k); dt = Select(s.arr(mf(s, t, 'decomposedTask')), K); ac = Select(s.arr(mf(s, t, 'actionCosts')), K)
    F = [('model', And(obj(s, t), 0 <= na, na <= nt, nt < 2**29, 0 <= nm, nm < 2**29, iarr(s, t, 'decomposedTask', nm), iarr(s, t, 'actionCosts', na)))]
    F += lists(s, t, 'numSubTasks', 'subTasks', nm, 0, nt) + lists(s, t, 'stToMethodNum', 'stToMethod', nt, 0, nm) + lists(s, t, 'numMethodsForTask', 'taskToMethods', nt, 0, nm)
    p = mpos(st(K, J), K); tp = tpos(K)
    return F + [('costs', ForAll([K], Implies(And(0 <= K, K < na), And(ac >= 0, ac <= INF)), patterns=[ac])), ('methods', ForAll([K], Implies(And(0 <= K, K < nm), And(na <= dt, dt < nt, num(s, t, 'numSubTasks', K) >= 1, num(s, t, 'numSubTasks', K) < 2**31)), patterns=[dt, num(s, t, 'numSubTasks', K)])),
        ('methods with a subtask', ForAll([K, J], Implies(And(0 <= K, K < nm, 0 <= J, J < num(s, t, 'numSubTasks', K)), And(0 <= p, p < num(s, t, 'stToMethodNum', st(K, J)), ent(s, t, 'stToMethod', st(K, J), p) == K)), patterns=[st(K, J)])),
        ('methods of a task', ForAll([K, J], Implies(And(0 <= K, K < nt, 0 <= J, J < num(s, t, 'numMethodsForTask', K)), Select(s.arr(mf(s, t, 'decomposedTask')), ent(s, t, 'taskToMethods', K, J)) == K), patterns=[ent(s, t, 'taskToMethods', K, J)])),
        ('all methods of a task', ForAll([K], Implies(And(0 <= K, K < nm), And(0 <= tp, tp < num(s, t, 'numMethodsForTask', dt), ent(s, t, 'taskToMethods', dt, tp) == K)), patterns=[dt]))]
# the model does not change: its lists are read in the initial state
o = lambda s: s.old
T_ = lambda s: s.old.args[0]
rowm = lambda s, f, i: Select(o(s).heap0('i32'), row(o(s), T_(s), f, i)); cntm = lambda s, f, i: num(o(s), T_(s), f, i); entm = lambda s, f, i, k: Select(rowm(s, f, i), k); dtm = lambda s, i: Select(o(s).arr(mf(o(s), T_(s), 'decomposedTask')), i)
C = lambda s: s.arr(mf(s, s.args[0], 'minEstimatedCosts')); D = lambda s: s.arr(mf(s, s.args[0], 'minImpliedDistance')); CM = lambda s: s.arr(s.local('minEstimatedCostsM')); DM = lambda s: s.arr(s.local('minImpliedDistanceM'))
ARR4 = lambda s: [mf(s, s.args[0], 'minEstimatedCosts'), mf(s, s.args[0], 'minImpliedDistance'), s.local('minEstimatedCostsM'), s.local('minImpliedDistanceM')]
nt0 = lambda s: nT(o(s)); nm0 = lambda s: nM(o(s)); na0 = lambda s: mf(o(s), T_(s), 'numActions')
def storage(s):
    a = ARR4(s); return [('storage', And(*[And(p.obj >= s.old.ctr, p.obj < s.ctr) for p in a], *[s.len(p) == 4 * n for p, n in zip(a, (nt0(s), nt0(s), nm0(s), nm0(s)))], z3.Distinct(*[p.obj for p in a])))]
def rng_(A, n): return ForAll([K], Implies(And(0 <= K, K < n), And(0 <= Select(A, K), Select(A, K) <= INF)), patterns=[Select(A, K)])
def ranges(s): return [('costs', rng_(C(s), nt0(s))), ('distances', rng_(D(s), nt0(s))), ('method costs', rng_(CM(s), nm0(s))), ('method distances', rng_(DM(s), nm0(s)))]
def prims(s, n=None): c = Select(o(s).arr(mf(o(s), T_(s), 'actionCosts')), K); return [('actions', ForAll([K], Implies(And(0 <= K, K < (na0(s) if n is None else If(n < na0(s), n, na0(s)))), And(Select(C(s), K) == c, Select(D(s), K) == 1)), patterns=[Select(C(s), K), Select(D(s), K)]))]
def m_init(s): i = s.local('i'); return [('range', And(0 <= i, i <= nm0(s)))] + storage(s) + [('unknown', ForAll([K], Implies(And(0 <= K, K < i), And(Select(CM(s), K) == INF, Select(DM(s), K) == INF)), patterns=[Select(CM(s), K), Select(DM(s), K)]))]
def unk_m(s): return [('unknown', ForAll([K], Implies(And(0 <= K, K < nm0(s)), And(Select(CM(s), K) == INF, Select(DM(s), K) == INF)), patterns=[Select(CM(s), K), Select(DM(s), K)]))]
def unk_t(s, n): return [('unknown tasks', ForAll([K], Implies(And(na0(s) <= K, K < n), And(Select(C(s), K) == INF, Select(D(s), K) == INF)), patterns=[Select(C(s), K), Select(D(s), K)]))]
def t_init(s): i = s.local('i'); return [('range', And(0 <= i, i <= nt0(s)))] + storage(s) + unk_m(s) + prims(s, i) + unk_t(s, i)
# ---- the queue
Q = lambda s: s.local('h'); qd = lambda s: s.varr(Q(s), 'ptr'); hd = lambda s: s.g('lhead'); tl = lambda s: s.vlen(Q(s)); idm = lambda s: s.fmap('tOrMnode.id'); ism = lambda s: s.fmap('tOrMnode.isMethod')
qid = lambda s, k: Select(Select(idm(s), Select(qd(s), k)), 0)
def qm(s, k): x = Select(Select(ism(s), Select(qd(s), k)), 0); return x if z3.is_bool(x) else x != 0
def queue(s): n = Select(qd(s), K); return [('queue', And(0 <= hd(s), hd(s) <= tl(s))), ('queued nodes', ForAll([K], Implies(And(hd(s) <= K, K < tl(s)), And(n > 0, n < s.ctr, n >= s.old.ctr, *[n != p.obj for p in ARR4(s)], If(qm(s, K), And(0 <= qid(s, K), qid(s, K) < nm0(s)), And(na0(s) <= qid(s, K), qid(s, K) < nt0(s))))), patterns=[n]))]
LM = lambda s: s.g('lastM'); LT = lambda s: s.g('lastT')
def queuedM(s, m): p = Select(LM(s), m); return And(hd(s) <= p, p < tl(s), qm(s, p), qid(s, p) == m)
def queuedT(s, t): p = Select(LT(s), t); return And(hd(s) <= p, p < tl(s), Not(qm(s, p)), qid(s, p) == t)
def start2(s): return storage(s) + unk_m(s) + prims(s) + unk_t(s, nt0(s)) + queue(s)
def pushed(s, i, j):
    e = entm(s, 'stToMethod', K, J); return [('queued methods', ForAll([K, J], Implies(And(0 <= K, 0 <= J, J < cntm(s, 'stToMethodNum', K), Or(K < i, And(K == i, J < j))), queuedM(s, e)), patterns=[e]))]
def q_outer(s): i = s.local('i'); return [('range', And(0 <= i, i <= na0(s)))] + start2(s) + pushed(s, i, IntVal(0))
def q_inner(s): i, j = s.local('i'), s.local('j'); return [('range', And(0 <= i, i < na0(s), 0 <= j, j <= cntm(s, 'stToMethodNum', i)))] + start2(s) + pushed(s, i, j)
# ---- the equations
SC = lambda s, m, A=None: sumf(rowm(s, 'subTasks', m), C(s) if A is None else A, cntm(s, 'numSubTasks', m)); SD = lambda s, m, A=None: sumf(rowm(s, 'subTasks', m), D(s) if A is None else A, cntm(s, 'numSubTasks', m))
def okM(s, m, A=None, B=None): return And(Select(CM(s), m) == sat(SC(s, m, A)), Select(DM(s), m) == sat(1 + SD(s, m, B)))
def eqM(s, extra=None): return [('method equations', ForAll([K], Implies(And(0 <= K, K < nm0(s)), Or(okM(s, K), queuedM(s, K), *([extra(K)] if extra else []))), patterns=[Select(CM(s), K), Select(DM(s), K), Select(LM(s), K)]))]
def okT(s, t, A, X):
    e = lambda k: Select(X, entm(s, 'taskToMethods', t, k)); n = cntm(s, 'numMethodsForTask', t)
    return And(ForAll([J], Implies(And(0 <= J, J < n), Select(A, t) <= e(J)), patterns=[entm(s, 'taskToMethods', t, J)]), Or(Select(A, t) == INF, Exists([J], And(0 <= J, J < n, Select(A, t) == e(J)), patterns=[entm(s, 'taskToMethods', t, J)])))
def eqT(s, but=None): return [('task equations: ' + nm, ForAll([K], Implies(And(na0(s) <= K, K < nt0(s), *([K != but] if but is not None else [])), Or(okT(s, K, A, X), queuedT(s, K))), patterns=[Select(A, K), Select(LT(s), K)])) for nm, A, X in (('costs', C(s), CM(s)), ('distances', D(s), DM(s)))]
def base(s): return storage(s) + ranges(s) + prims(s) + queue(s)
def w(s): return base(s) + eqM(s) + eqT(s)
def init_w(s):
    # a subtask without a value makes the sum at least INT_MAX
    R, n = rowm(s, 'subTasks', K), cntm(s, 'numSubTasks', K); return [ForAll([K], And(SM.term(R, A, n, IntVal(0))), patterns=[sumf(R, A, n)]) for A in (C(s), D(s))]
def w_sum(s):
    i = s.local('i'); n = s.local('n'); m = s.f(n, 'tOrMnode.id'); R = rowm(s, 'subTasks', m)
    return [('range', And(0 <= i, i <= cntm(s, 'numSubTasks', m), s.local('costs') == sumf(R, C(s), i), s.local('dist') == 1 + sumf(R, D(s), i)))]
def l_sum(s):
    i = s.local('i'); n = s.local('n'); m = s.f(n, 'tOrMnode.id'); R = rowm(s, 'subTasks', m); return [x for A in (C(s), D(s)) for x in (SM.extend(R, A, i), SM.term(R, A, i, IntVal(0)))]
# ---- a task node is processed: minimum over its methods, then the methods it occurs in
O = lambda s: s.outer(1); tid = lambda s: s.f(s.local('n'), 'tOrMnode.id')
def others(s):
    t = tid(s); return [('other tasks', ForAll([K], Implies(And(0 <= K, K < nt0(s), K != t), And(Select(C(s), K) == Select(C(O(s)), K), Select(D(s), K) == Select(D(O(s)), K))), patterns=[Select(C(s), K), Select(D(s), K)]))]
def l_same(s):
    R, n = rowm(s, 'subTasks', K), cntm(s, 'numSubTasks', K)
    return [ForAll([K], SM.same(R, A(O(s)), A(s), n), patterns=[sumf(R, A(O(s)), n)]) for A in (C, D)]
def sofar(s, A, X, i):
    t = tid(s); e = lambda k: Select(X, entm(s, 'taskToMethods', t, k)); a = Select(A, t)
    return And(0 <= a, a <= INF, ForAll([J], Implies(And(0 <= J, J < i), a <= e(J)), patterns=[entm(s, 'taskToMethods', t, J)]), Or(a == INF, Exists([J], And(0 <= J, J < i, a == e(J)), patterns=[entm(s, 'taskToMethods', t, J)])))
def mins(s):
    i = s.local('i'); return [('range', And(0 <= i, i <= cntm(s, 'numMethodsForTask', tid(s)))), ('methods', And(CM(s) == CM(O(s)), DM(s) == DM(O(s))))] + others(s) + [('minimal costs so far', sofar(s, C(s), CM(s), i)), ('minimal distance so far', sofar(s, D(s), DM(s), i))]
def fr_mins(s): return {'i32': [lambda x: Not(s.ver.pre_existing(x))]}
def todo(s):
    i, t = s.local('i'), tid(s); n = cntm(s, 'stToMethodNum', t)
    return [('range', And(0 <= i, i <= n))] + base(s) + eqT(s) + eqM(s, lambda m: And(i <= mpos(t, m), mpos(t, m) < n, entm(s, 'stToMethod', t, mpos(t, m)) == m))
def ens(s, rv, t):
    F = prims(s) + ranges2(s)
    for nm, A, f in (('cost', C(s), lambda m: sat(SC(s, m))), ('distance', D(s), lambda m: sat(1 + SD(s, m)))):
        e = entm(s, 'taskToMethods', K, J); a = Select(A, K); n = cntm(s, 'numMethodsForTask', K)
        F += [('%s at most that of every method' % nm, ForAll([K, J], Implies(And(na0(s) <= K, K < nt0(s), 0 <= J, J < n), a <= f(e)), patterns=[e])),
            ('%s of one of the methods' % nm, ForAll([K], Implies(And(na0(s) <= K, K < nt0(s)), Or(a == INF, Exists([J], And(0 <= J, J < n, a == f(e)), patterns=[e]))), patterns=[a]))]
    return F
def ranges2(s): return [('values', And(rng_(C(s), nt0(s)), rng_(D(s), nt0(s))))]
add(Contract('progression::Model::calcMinimalImpliedX()', requires=req, ensures=ens, allocs=True, ghost_mod=('lhead', 'lastM', 'lastT'), modifies=lambda s, t: [('Model.minEstimatedCosts', t), ('Model.minImpliedDistance', t)],
    loops={0: Loop(m_init), 1: Loop(t_init), 2: Loop(q_outer), 3: Loop(q_inner), 4: Loop(w, init_lemma=init_w, frame=fr_mins), 5: Loop(w_sum, lemma=l_sum, init_lemma=l_sum), 6: Loop(mins, lemma=l_same, frame=fr_mins), 7: Loop(todo)}))
def prove_lemmas():
    """what the contract gives for refinements: the values are lower bounds (induction over the refinement tree; one step of it per task)"""
    r, v, x = z3.Consts('r v x', AR); n, k, c = z3.Ints('n k c'); S = z3.Function('sumx', AR, I, I)   # S x n: sum of the costs x[0..n) of the refinements of the subtasks
    P = lambda m: Or(Exists([k], And(0 <= k, k < m, Select(v, Select(r, k)) > Select(x, k))), sumf(r, v, m) <= S(x, m))
    def valid(f, *h):
        s = z3.Solver(); s.set('timeout', 10000); s.add(*h); s.add(Not(f)); return s.check() == z3.unsat
    e = [SM.extend(r, v, n), S(x, 0) == 0, S(x, n + 1) == S(x, n) + Select(x, n)]; res = SM.prove()
    res['subtask values below the costs of their refinements: the sum is below the cost of the decomposition (induction)'] = valid(P(IntVal(0)), *e, n == 0) and valid(P(n + 1), n >= 0, P(n), *e)
    res['a task value below every method value is below every refinement'] = valid(c <= S(x, n), c <= sat(sumf(r, v, n)), sumf(r, v, n) <= S(x, n))
    return res
