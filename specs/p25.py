"""P25: relaxed planning graph (planningGraph::calcReachability and the reported sets)."""
import p12, p13, p14
import reachmath as RM
from reachmath import pc
from mlib import *
TU = '#include "heuristics/planningGraph.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append
OPTS = {'memcpy_elem': 'i32', 'memset_elem': 'i32'}
N = p12.N; I = z3.IntSort(); SET = RM.SET; pair, fst, snd = p14.pair, p14.fst, p14.snd
UNR = 2147483647
# contracts of the used data structures: proved by the checks of P12, P13 and P14
USED = ['progression::noDelIntSet::' + f for f in ('get(int)', 'insert(int)', 'clear()', 'getFirst()', 'getNext()')] + ['progression::IntStack::' + f for f in ('push(int)', 'pop()', 'isEmpty()', 'clear()')]
ASSUMED = [c for m in (p12, p13) for c in m.CONTRACTS if c.name in USED] + p14.CONTRACTS
G = 'planningGraph.'; PG = 'progression::planningGraph::'
gf = lambda s, t, f: s.f(t, G + f)
mod = lambda s, t: gf(s, t, 'm')
nb = lambda s, t: mf(s, mod(s, t), 'numStateBits'); nA = lambda s, t: mf(s, mod(s, t), 'numActions'); nT = lambda s, t: mf(s, mod(s, t), 'numTasks'); nMe = lambda s, t: mf(s, mod(s, t), 'numMethods')
useful = lambda s, t: gf(s, t, 'usefulFactSet'); rT = lambda s, t: gf(s, t, 'reachableTasksSet'); rM = lambda s, t: gf(s, t, 'reachableMethodsSet')
H = lambda s, t: s.arr(gf(s, t, 'hValProp')); SAT = lambda s, t: s.arr(gf(s, t, 'numSatPrecs')); HOP = lambda s, t: s.arr(gf(s, t, 'hValOp')); SUB = lambda s, t: s.arr(gf(s, t, 'subtasks'))
TB = lambda s, t: N.B(s, rT(s, t)); MB = lambda s, t: N.B(s, rM(s, t))
q = lambda s, t: gf(s, t, 'queue'); st_ = lambda s, t: gf(s, t, 'stack')
QZ = lambda s, t: p14.Z(s, q(s, t)); qn = lambda s, t: p14.nx(s, q(s, t))
SK = lambda s, t: s.arr(s.f(st_(s, t), 'IntStack.intContainer')); sn = lambda s, t: s.f(st_(s, t), 'IntStack.currentSize'); scap = lambda s, t: s.f(st_(s, t), 'IntStack.containerSize')
# processed facts / tasks: reached and no longer waiting
pset = z3.Function('processedF', M.ARR, M.ARR, I, I, SET); tset = z3.Function('processedT', M.ARR, M.ARR, I, I, SET)
_a, _b = z3.Consts('pa? pb?', M.ARR); _n, _h, _x = Ints('pn? ph? px?')
COMP = [ForAll([_a, _b, _n, _h, _x], Select(pset(_a, _b, _n, _h), _x) == And(0 <= _x, _x < _h, Select(_a, _x) == 0, cnt(_b, 1, _n, pair(0, _x)) == 0), patterns=[Select(pset(_a, _b, _n, _h), _x)]),
        ForAll([_a, _b, _n, _h, _x], Select(tset(_a, _b, _n, _h), _x) == And(0 <= _x, _x < _h, Select(_a, _x) != 0, cnt(_b, 0, _n, _x) == 0), patterns=[Select(tset(_a, _b, _n, _h), _x)])]
AXIOMS = p14.AXIOMS + RM.AXIOMS + COMP
def prove_lemmas():
    r = dict(RM.prove()); r.update(p14.prove_lemmas()); return r
# the index of an action in the list of a fact (-1: not in it), and of a method in the list of a task
ppos = z3.Function('ppos', I, I, I); mpos = z3.Function('mpos', I, I, I)
# an arbitrary set of facts, tasks and methods that contains the state and is closed under the allowed actions and methods
CF = z3.Function('CF', I, z3.BoolSort()); CT = z3.Function('CT', I, z3.BoolSort()); CM = z3.Function('CM', I, z3.BoolSort())
WORK = z3.Function('work', I, z3.BoolSort())      # storage owned by the planning graph
def inverse(s, m, pos, szf, f, lszf, lf, n, hi):
    """f[x] (x<n) lists every element y with x in lf[y] exactly once"""
    r = lambda y: Select(s.heap0('i32'), row(s, m, lf, y)); e = ent(s, m, f, K, J)
    return [(f + ': positions', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < hi), And(-1 <= pos(K, J), pos(K, J) < num(s, m, szf, K), cnt(r(J), 0, num(s, m, lszf, J), K) == If(pos(K, J) >= 0, 1, 0), Implies(pos(K, J) >= 0, ent(s, m, f, K, pos(K, J)) == J))), patterns=[pos(K, J)])),
            (f + ': positions count', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < hi), cnt(r(J), 0, num(s, m, lszf, J), K) == If(pos(K, J) >= 0, 1, 0)), patterns=[cnt(r(J), 0, num(s, m, lszf, J), K)])),
            (f + ': index', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < num(s, m, szf, K)), And(0 <= e, e < hi, pos(K, e) == J)), patterns=[e]))]
def model(s, t):
    m = mod(s, t)
    F = lists(s, m, 'numPrecs', 'precLists', nA(s, t), 0, nb(s, t)) + lists(s, m, 'numAdds', 'addLists', nA(s, t), 0, nb(s, t)) + lists(s, m, 'precToActionSize', 'precToAction', nb(s, t), 0, nA(s, t)) \
        + lists(s, m, 'stToMethodNum', 'stToMethod', nT(s, t), 0, nMe(s, t)) + lists(s, m, 'numDistinctSTs', 'sortedDistinctSubtasks', nMe(s, t), 0, nT(s, t))
    F += inverse(s, m, ppos, 'precToActionSize', 'precToAction', 'numPrecs', 'precLists', nb(s, t), nA(s, t)) + inverse(s, m, mpos, 'stToMethodNum', 'stToMethod', 'numDistinctSTs', 'sortedDistinctSubtasks', nT(s, t), nMe(s, t))
    pl = mf(s, m, 'precLessActions'); np = mf(s, m, 'numPrecLessActions'); gl = mf(s, m, 'gList'); dt = mf(s, m, 'decomposedTask'); PLpos = PPL
    F += [('model', And(obj(s, t), obj(s, m), nb(s, t) < 2**28, nA(s, t) <= nT(s, t), nT(s, t) < 2**28, 0 <= np, iarr(s, m, 'precLessActions', np), iarr(s, m, 'gList', mf(s, m, 'gSize')), iarr(s, m, 'decomposedTask', nMe(s, t)))),
          ('goal facts', ForAll([K], Implies(And(0 <= K, K < mf(s, m, 'gSize')), And(0 <= Select(s.arr(gl), K), Select(s.arr(gl), K) < nb(s, t))), patterns=[Select(s.arr(gl), K)])),
          ('actions without preconditions', ForAll([K], Implies(And(0 <= K, K < np), And(0 <= Select(s.arr(pl), K), Select(s.arr(pl), K) < nA(s, t), num(s, m, 'numPrecs', Select(s.arr(pl), K)) == 0)), patterns=[Select(s.arr(pl), K)])),
          ('all actions without preconditions', ForAll([K], Implies(And(0 <= K, K < nA(s, t), num(s, m, 'numPrecs', K) == 0), And(0 <= PLpos(K), PLpos(K) < np, Select(s.arr(pl), PLpos(K)) == K)), patterns=[PLpos(K), num(s, m, 'numPrecs', K)])),
          ('decomposed tasks', ForAll([K], Implies(And(0 <= K, K < nMe(s, t)), And(nA(s, t) <= Select(s.arr(dt), K), Select(s.arr(dt), K) < nT(s, t), num(s, m, 'numDistinctSTs', K) >= 1)), patterns=[Select(s.arr(dt), K), num(s, m, 'numDistinctSTs', K)]))]
    return F
touch = z3.Function('touch', z3.BoolSort(), z3.BoolSort())      # no meaning: makes a term known to the instantiation of quantified facts
PPL = z3.Function('pplpos', I, I)
MODARR = ['numPrecs', 'precLists', 'numAdds', 'addLists', 'precToActionSize', 'precToAction', 'stToMethodNum', 'stToMethod', 'numDistinctSTs', 'sortedDistinctSubtasks', 'precLessActions', 'gList', 'decomposedTask']
ROWS = {'precLists': nA, 'addLists': nA, 'precToAction': nb, 'stToMethod': nT, 'sortedDistinctSubtasks': nMe}
ARRS = ['hValPropInit', 'numSatPrecs', 'hValOp', 'hValProp', 'subtasks']
def own(s, t):
    return [gf(s, t, f).obj for f in ARRS] + [p14.kp(s, q(s, t)).obj, p14.vp(s, q(s, t)).obj, s.f(st_(s, t), 'IntStack.intContainer').obj] + [f(s, x).obj for x in (useful(s, t), rT(s, t), rM(s, t)) for f in (N.b, N.c)]
def storage(s, t, S, R):
    m = mod(s, t); o = own(s, t); V8 = s.vdata(S).obj
    F = N.wf(s, useful(s, t)) + N.wf(s, rT(s, t)) + N.wf(s, rM(s, t)) + N.storage(s, R) + p14.wf(s, q(s, t))
    F += [('stack', And(st_(s, t).obj > 0, 0 <= sn(s, t), sn(s, t) <= scap(s, t), scap(s, t) == nT(s, t), s.len(s.f(st_(s, t), 'IntStack.intContainer')) == 4 * nT(s, t), s.f(st_(s, t), 'IntStack.intContainer').obj > 0, s.f(st_(s, t), 'IntStack.intContainer').obj != st_(s, t).obj)),
          ('capacities', And(N.cap(s, useful(s, t)) == nb(s, t), N.cap(s, rT(s, t)) == nT(s, t), N.cap(s, rM(s, t)) == nMe(s, t), N.cap(s, R) == nT(s, t), p14.cap(s, q(s, t)) >= nb(s, t) + 1, p14.cap(s, q(s, t)) < 2**29)),
          ('work arrays', And(*[And(gf(s, t, f).obj > 0, gf(s, t, f).obj < s.ctr, gf(s, t, f).off == 0, s.len(gf(s, t, f)) == 4 * n) for f, n in zip(ARRS, [nb(s, t), nA(s, t), nA(s, t), nb(s, t), nMe(s, t)])])),
          ('own storage is distinct', And(z3.Distinct(*o), *[And(x < s.ctr, WORK(x)) for x in o])),
          ('other set is a different object', And(*[R.obj != x.obj for x in (useful(s, t), rT(s, t), rM(s, t))], Not(WORK(N.b(s, R).obj)), Not(WORK(N.c(s, R).obj)), Not(WORK(V8)))),
          ('model arrays are not work storage', And(*[Not(WORK(mf(s, m, f).obj)) for f in MODARR])), ('model rows are not work storage', And(*[ForAll([K], Implies(And(0 <= K, K < h(s, t)), And(Not(WORK(row(s, m, f, K))), row(s, m, f, K) >= 0, row(s, m, f, K) < s.ctr)), patterns=[row(s, m, f, K)]) for f, h in ROWS.items()])),
          ('initial values', ForAll([K], Implies(And(0 <= K, K < nb(s, t)), Select(s.arr(gf(s, t, 'hValPropInit')), K) == UNR), patterns=[Select(s.arr(gf(s, t, 'hValPropInit')), K)])),
          ('state', s.vlen(S) == nb(s, t))]
    return F
allowed = lambda s, R, x: N.mem(s, R, x)
val = lambda s, S, f: Select(s.varr(S, 'i8'), f) != 0
PR = lambda s, t, a, j: ent(s, mod(s, t), 'precLists', a, j); AD = lambda s, t, a, j: ent(s, mod(s, t), 'addLists', a, j); NP = lambda s, t, a: num(s, mod(s, t), 'numPrecs', a); NA = lambda s, t, a: num(s, mod(s, t), 'numAdds', a)
ND = lambda s, t, x: num(s, mod(s, t), 'numDistinctSTs', x); DT = lambda s, t, x: Select(s.arr(mf(s, mod(s, t), 'decomposedTask')), x); ST = lambda s, t, x, j: ent(s, mod(s, t), 'sortedDistinctSubtasks', x, j)
prow = lambda s, t, a: Select(s.heap0('i32'), row(s, mod(s, t), 'precLists', a)); srow = lambda s, t, x: Select(s.heap0('i32'), row(s, mod(s, t), 'sortedDistinctSubtasks', x))
def closed(s, t, S, R):
    allF = lambda a: ForAll([J], Implies(And(0 <= J, J < NP(s, t, a)), CF(PR(s, t, a, J))), patterns=[PR(s, t, a, J)])
    allT = lambda x: ForAll([J], Implies(And(0 <= J, J < ND(s, t, x)), CT(ST(s, t, x, J))), patterns=[ST(s, t, x, J)])
    return [('contains the state', ForAll([K], Implies(And(0 <= K, K < nb(s, t), val(s, S, K)), CF(K)), patterns=[Select(s.varr(S, 'i8'), K)])),
            ('closed under actions', ForAll([K], Implies(And(0 <= K, K < nA(s, t), allowed(s, R, K), allF(K)), And(CT(K), ForAll([V], Implies(And(0 <= V, V < NA(s, t, K)), CF(AD(s, t, K, V))), patterns=[AD(s, t, K, V)]))), patterns=[CT(K)])),
            ('closed under methods', ForAll([K], Implies(And(0 <= K, K < nMe(s, t), allowed(s, R, DT(s, t, K)), allT(K)), And(CM(K), CT(DT(s, t, K)))), patterns=[CM(K)]))]
def req(s, t, S, R): return model(s, t) + storage(s, t, S, R) + closed(s, t, S, R)
A = lambda s: s.args
fact = lambda s, t, f: Select(H(s, t), f) != UNR
def post(s, rv, t, S, R):
    o = s.old; h, tb, mb = H(s, t), TB(s, t), MB(s, t); D = lambda n: And(0 <= K, K < n)
    return [('facts: sound', ForAll([K], Implies(And(D(nb(s, t)), Select(h, K) != UNR), CF(K)), patterns=[Select(h, K)])),
            ('facts: state', ForAll([K], Implies(And(D(nb(s, t)), val(o, S, K)), Select(h, K) != UNR), patterns=[Select(h, K)])),
            ('tasks: sound', ForAll([K], Implies(And(D(nT(s, t)), Select(tb, K) == 1), And(CT(K), allowed(o, R, K))), patterns=[Select(tb, K)])),
            ('methods: sound', ForAll([K], Implies(And(D(nMe(s, t)), Select(mb, K) == 1), CM(K)), patterns=[Select(mb, K)])),
            ('actions: complete', ForAll([K], Implies(And(D(nA(s, t)), allowed(o, R, K), ForAll([J], Implies(And(0 <= J, J < NP(o, t, K)), Select(h, PR(o, t, K, J)) != UNR), patterns=[PR(o, t, K, J)])), Select(tb, K) == 1), patterns=[Select(tb, K)])),
            ('facts: complete', ForAll([K, J], Implies(And(D(nA(s, t)), Select(tb, K) == 1, 0 <= J, J < NA(o, t, K)), Select(h, AD(o, t, K, J)) != UNR), patterns=[AD(o, t, K, J)])),
            ('methods: complete', ForAll([K], Implies(And(D(nMe(s, t)), allowed(o, R, DT(o, t, K)), ForAll([J], Implies(And(0 <= J, J < ND(o, t, K)), Select(tb, ST(o, t, K, J)) == 1), patterns=[ST(o, t, K, J)])), Select(mb, K) == 1), patterns=[Select(mb, K)])),
            ('abstract tasks: complete', ForAll([K], Implies(And(D(nMe(s, t)), Select(mb, K) == 1), Select(tb, DT(o, t, K)) == 1), patterns=[Select(mb, K)])),
            ('state and allowed tasks unchanged', And(s.varr(S, 'i8') == o.varr(S, 'i8'), N.B(s, R) == N.B(o, R)))]
# ---- invariants
def base(s):
    """what every part keeps"""
    t, S, R = A(s); o = s.old; m = mod(s, t)
    return storage(s, t, S, R) + [('queue storage kept', And(p14.kp(s, q(s, t)).obj == p14.kp(o, q(o, t)).obj, p14.vp(s, q(s, t)).obj == p14.vp(o, q(o, t)).obj)), ('state and allowed tasks unchanged', And(s.varr(S, 'i8') == o.varr(S, 'i8'), N.B(s, R) == N.B(o, R)))]
def rows_kept(s):
    t = A(s)[0]; m = mod(s, t)
    return [('model arrays kept', And(*[s.arr(mf(s, m, f)) == s.old.arr(mf(s, m, f)) for f in MODARR if f not in ROWS])),
            ('model rows kept', And(*[ForAll([K], Implies(And(0 <= K, K < h(s, t)), Select(s.heap0('i32'), row(s, m, f, K)) == Select(s.old.heap0('i32'), row(s, m, f, K))), patterns=[Select(s.heap0('i32'), row(s, m, f, K)), Select(s.old.heap0('i32'), row(s, m, f, K))]) for f, h in ROWS.items()]))]
def two_level(s, t): return ('values', ForAll([K], Implies(And(0 <= K, K < nb(s, t)), Or(Select(H(s, t), K) == 0, Select(H(s, t), K) == UNR)), patterns=[Select(H(s, t), K)]))
def zero_cost(s, t): return ('no costs', ForAll([K], Implies(And(0 <= K, K < nA(s, t)), Select(HOP(s, t), K) == 0), patterns=[Select(HOP(s, t), K)]))
def waiting(s, t):
    c = cnt(QZ(s, t), 1, qn(s, t), V)
    return [('waiting facts', ForAll([V], And(0 <= c, c <= 1, Implies(c > 0, And(V == pair(0, snd(V)), 0 <= snd(V), snd(V) < nb(s, t), Select(H(s, t), snd(V)) == 0))), patterns=[c])),
            ('few waiting', qn(s, t) - 1 <= cnt(H(s, t), 0, nb(s, t), 0))]
def sound(s, t): return ('sound', ForAll([K], Implies(And(0 <= K, K < nb(s, t), Select(H(s, t), K) != UNR), CF(K)), patterns=[Select(H(s, t), K)]))
def has_state(s, t, upto): return ('state reached', ForAll([K], Implies(And(0 <= K, K < upto, val(s, A(s)[1], K)), Select(H(s, t), K) == 0), patterns=[Select(H(s, t), K)]))
PS = lambda s, t: pset(H(s, t), s.ver.named(QZ(s, t)), qn(s, t), nb(s, t))
def nothing_processed(s, t): return ('nothing processed', ForAll([K], Implies(And(0 <= K, K < nb(s, t)), (Select(H(s, t), K) == 0) == (cnt(QZ(s, t), 1, qn(s, t), pair(0, K)) > 0)), patterns=[Select(H(s, t), K), cnt(QZ(s, t), 1, qn(s, t), pair(0, K))]))
def fired(s, t, P, extra=None):
    """an action is reported exactly if it is allowed and all its preconditions are processed"""
    x = lambda k: IntVal(0) if extra is None else If(And(0 <= extra[0](k), extra[0](k) < extra[1]), 1, 0)
    return [('open preconditions', ForAll([K], Implies(And(0 <= K, K < nA(s, t)), Select(SAT(s, t), K) == NP(s, t, K) - pc(prow(s, t, K), P, NP(s, t, K)) - x(K)), patterns=[Select(SAT(s, t), K)]))]
def reported(s, t, cond=None):
    return [('reported actions', ForAll([K], Implies(And(0 <= K, K < nA(s, t)), (Select(TB(s, t), K) == 1) == And(allowed(s, A(s)[2], K), Select(SAT(s, t), K) == 0)), patterns=[Select(TB(s, t), K), Select(SAT(s, t), K)])),
            ('only actions', ForAll([K], Implies(And(nA(s, t) <= K, K < nT(s, t)), Select(TB(s, t), K) == 0), patterns=[Select(TB(s, t), K)])),
            ('reported are sound', ForAll([K], Implies(And(0 <= K, K < nA(s, t), Select(TB(s, t), K) == 1), CT(K)), patterns=[Select(TB(s, t), K)]))]
def effects(s, t, but=None):
    c = lambda: BoolVal(True) if but is None else Or(K != but[0], J < but[1])
    return [('effects reached', ForAll([K, J], Implies(And(0 <= K, K < nA(s, t), Select(TB(s, t), K) == 1, 0 <= J, J < NA(s, t, K), c()), Select(H(s, t), AD(s, t, K, J)) == 0), patterns=[AD(s, t, K, J)]))]
def sat0(s, t): return ('open preconditions', ForAll([K], Implies(And(0 <= K, K < nA(s, t)), Select(SAT(s, t), K) == NP(s, t, K)), patterns=[Select(SAT(s, t), K)]))
def common(s): t = A(s)[0]; return base(s) + rows_kept(s) + [two_level(s, t), zero_cost(s, t), sound(s, t)] + waiting(s, t)
def no_tasks(s, t): return ('no task yet', ForAll([K], Implies(And(0 <= K, K < nT(s, t)), Select(TB(s, t), K) == 0), patterns=[Select(TB(s, t), K)]))
def room(s, var='f'):
    t = A(s)[0]; o = s.outer(0); h = H(o, t); f = s.local(var)
    return [M.two_values(h, IntVal(0), nb(s, t), IntVal(0), IntVal(UNR)), Implies(And(0 <= f, f < nb(s, t), Select(h, f) == UNR), cnt(h, 0, nb(s, t), UNR) >= 1)]
def l0(s):      # goal facts
    t = A(s)[0]; i = s.local('i')
    return base(s) + rows_kept(s) + [('range', And(0 <= i, Or(i <= mf(s, mod(s, t), 'gSize'), i == 0))), no_tasks(s, t), zero_cost(s, t), sat0(s, t), ('all unreached', ForAll([K], Implies(And(0 <= K, K < nb(s, t)), Select(H(s, t), K) == UNR), patterns=[Select(H(s, t), K)]))]
def l1(s):      # facts of the state
    t = A(s)[0]; f = s.local('f')
    return common(s) + [('range', And(0 <= f, f <= nb(s, t))), no_tasks(s, t), sat0(s, t), has_state(s, t, f), nothing_processed(s, t), ('later facts', ForAll([K], Implies(And(f <= K, K < nb(s, t)), Select(H(s, t), K) == UNR), patterns=[Select(H(s, t), K)]))]
def pl(s, k): return Select(s.arr(mf(s, mod(s, A(s)[0]), 'precLessActions')), k)
def precless(s, i):
    t = A(s)[0]; R = A(s)[2]
    return [sat0(s, t), has_state(s, t, nb(s, t)), nothing_processed(s, t),
            ('handled actions', ForAll([K], Implies(And(0 <= K, K < i, allowed(s, R, pl(s, K))), Select(TB(s, t), pl(s, K)) == 1), patterns=[pl(s, K)])),
            ('only such actions', ForAll([K], Implies(And(0 <= K, K < nT(s, t), Select(TB(s, t), K) == 1), And(K < nA(s, t), NP(s, t, K) == 0, allowed(s, R, K), CT(K))), patterns=[Select(TB(s, t), K)]))]
def l2(s):
    t = A(s)[0]; i = s.local('i')
    return common(s) + [('range', And(0 <= i, i <= mf(s, mod(s, t), 'numPrecLessActions')))] + precless(s, i) + effects(s, t)
def l3(s):
    t = A(s)[0]; i = s.local('i'); ac = s.local('ac'); j = s.local('iAdd')
    return common(s) + [('range', And(0 <= j, j <= NA(s, t, ac), 0 <= i, i < mf(s, mod(s, t), 'numPrecLessActions'), ac == pl(s, i), Select(TB(s, t), ac) == 1, allowed(s, A(s)[2], ac)))] + precless(s, i + 1) + effects(s, t, (ac, j))
def l4(s):      # queue
    t = A(s)[0]
    return common(s) + [has_state(s, t, nb(s, t))] + fired(s, t, PS(s, t)) + reported(s, t) + effects(s, t)
def P0(s, lvl): hd = s.outer(lvl); return s.ver.named(PS(hd, A(s)[0]))
def proc(s, t, P, prop):
    return [('processed facts', ForAll([K], Implies(And(0 <= K, K < nb(s, t)), And(Select(H(s, t), K) == 0, cnt(QZ(s, t), 1, qn(s, t), pair(0, K)) == 0) == Or(Select(P, K), K == prop)), patterns=[Select(H(s, t), K), cnt(QZ(s, t), 1, qn(s, t), pair(0, K))]))]
meas = lambda s, t: 2 * cnt(H(s, t), 0, nb(s, t), UNR) + qn(s, t)
tmeas = lambda s, t: 2 * (nT(s, t) - N.n(s, rT(s, t))) + sn(s, t)
def op_step(s, lvl, i, but=None):
    t = A(s)[0]; prop = s.local('prop'); P = P0(s, lvl)
    return common(s) + [('this fact', And(0 <= prop, prop < nb(s, t), Select(H(s, t), prop) == 0, s.local('pVal') == 0, Not(Select(P, prop)))), has_state(s, t, nb(s, t))] + fired(s, t, P, (lambda k: ppos(prop, k), i)) + reported(s, t) + effects(s, t, but) + proc(s, t, P, prop) + [('progress', meas(s, t) < meas(s.outer(lvl), t))]
def l5(s):
    t = A(s)[0]; i = s.local('iOp'); prop = s.local('prop')
    return [('range', And(0 <= i, i <= num(s, mod(s, t), 'precToActionSize', prop)))] + op_step(s, 1, i)
def op_now(s, but):
    t = A(s)[0]; i = s.local('iOp'); prop = s.local('prop'); op = s.local('op')
    return [('this action', And(0 <= i, i < num(s, mod(s, t), 'precToActionSize', prop), op == ent(s, mod(s, t), 'precToAction', prop, i), Select(TB(s, t), op) == 1))] + op_step(s, 2, i + 1, but)
def l6(s):
    t = A(s)[0]; j = s.local('i'); return [('range', And(0 <= j, j <= NP(s, t, s.local('op'))))] + op_now(s, (s.local('op'), IntVal(0)))
def l7(s):
    t = A(s)[0]; j = s.local('iF'); return [('range', And(0 <= j, j <= NA(s, t, s.local('op'))))] + op_now(s, (s.local('op'), j))
def facts_done(s):
    """result of the first part"""
    t = A(s)[0]; R = A(s)[2]; D = And(0 <= K, K < nA(s, t))
    return [two_level(s, t), sound(s, t), has_state(s, t, nb(s, t))] + effects(s, t) + [
        ('complete actions', ForAll([K], Implies(And(D, allowed(s, R, K), ForAll([J], Implies(And(0 <= J, J < NP(s, t, K)), Select(H(s, t), PR(s, t, K, J)) == 0), patterns=[PR(s, t, K, J)])), Select(TB(s, t), K) == 1), patterns=[Select(TB(s, t), K)])),
        ('reported are sound', ForAll([K], Implies(And(0 <= K, K < nT(s, t), Select(TB(s, t), K) == 1), And(CT(K), allowed(s, R, K))), patterns=[Select(TB(s, t), K)]))]
def st_empty(s, t): return [('open subtasks', ForAll([K], Implies(And(0 <= K, K < nMe(s, t)), Select(SUB(s, t), K) == ND(s, t, K)), patterns=[Select(SUB(s, t), K)]))]
def listpos(s, t):
    S = rT(s, t); return s.ver.named(N.pos(s, S), True)
def l8(s):      # fill the stack
    t = A(s)[0]; S = rT(s, t)
    return base(s) + rows_kept(s) + facts_done(s) + st_empty(s, t) + [N.atpos(s, S, s.local('x')), ('stack so far', And(sn(s, t) == listpos(s, t), ForAll([V], cnt(SK(s, t), 0, sn(s, t), V) == cnt(N.L(s, S), 0, listpos(s, t), V), patterns=[cnt(SK(s, t), 0, sn(s, t), V), cnt(N.L(s, S), 0, listpos(s, t), V)])))]
def pushl(s):
    t = A(s)[0]; o = s.outer(0); S = rT(s, t); n = sn(o, t); L = N.L(o, S); it = N.it(o, S)
    return [ForAll([V], And(M.extend(SK(s, t), 0, n, V), M.same(SK(o, t), SK(s, t), 0, n, V)), patterns=[cnt(SK(s, t), 0, n + 1, V)]), ForAll([V], M.extend(L, 0, listpos(o, t), V), patterns=[cnt(L, 0, listpos(o, t) + 1, V)])]
def on_stack(s, t):
    c = cnt(SK(s, t), 0, sn(s, t), V)
    return [('waiting tasks', ForAll([V], And(0 <= c, c <= 1, Implies(c > 0, And(0 <= V, V < nT(s, t), Select(TB(s, t), V) == 1))), patterns=[c])), ('stack not larger than the set', sn(s, t) <= N.n(s, rT(s, t)))]
TS = lambda s, t: tset(TB(s, t), SK(s, t), sn(s, t), nT(s, t))
def open_st(s, t, P, extra=None):
    x = lambda k: IntVal(0) if extra is None else If(And(0 <= extra[0](k), extra[0](k) < extra[1]), 1, 0)
    return [('open subtasks', ForAll([K], Implies(And(0 <= K, K < nMe(s, t)), Select(SUB(s, t), K) == ND(s, t, K) - pc(srow(s, t, K), P, ND(s, t, K)) - x(K)), patterns=[Select(SUB(s, t), K)]))]
def methods(s, t):
    R = A(s)[2]
    return [('reported methods', ForAll([K], Implies(And(0 <= K, K < nMe(s, t)), (Select(MB(s, t), K) == 1) == And(allowed(s, R, DT(s, t, K)), Select(SUB(s, t), K) == 0)), patterns=[Select(MB(s, t), K), Select(SUB(s, t), K)])),
            ('reported methods are sound', ForAll([K], Implies(And(0 <= K, K < nMe(s, t), Select(MB(s, t), K) == 1), And(CM(K), Select(TB(s, t), DT(s, t, K)) == 1)), patterns=[Select(MB(s, t), K)]))]
def l9(s):
    t = A(s)[0]
    return base(s) + rows_kept(s) + facts_done(s) + on_stack(s, t) + open_st(s, t, TS(s, t)) + methods(s, t)
def l10(s):
    t = A(s)[0]; x = s.local('t'); i = s.local('i'); P = s.ver.named(TS(s.outer(1), t))
    return base(s) + rows_kept(s) + facts_done(s) + on_stack(s, t) + open_st(s, t, P, (lambda k: mpos(x, k), i)) + methods(s, t) + [('progress', tmeas(s, t) < tmeas(s.outer(1), t)), ('range', And(0 <= x, x < nT(s, t), 0 <= i, i <= num(s, mod(s, t), 'stToMethodNum', x), Not(Select(P, x)), Select(TB(s, t), x) == 1)),
        ('processed tasks', ForAll([K], And(0 <= K, K < nT(s, t), Select(TB(s, t), K) == 1, cnt(SK(s, t), 0, sn(s, t), K) == 0) == Or(Select(P, K), K == x), patterns=[Select(TB(s, t), K), cnt(SK(s, t), 0, sn(s, t), K)]))]
def lem4(s):
    t = A(s)[0]; o = s.outer(0); P, Q = s.ver.named(PS(s, t)), s.ver.named(PS(o, t)); return [RM.ext(P, Store(Q, s.local('prop'), True))]
def lem6(s):
    t = A(s)[0]; op = s.local('op'); return [pc(prow(s, t, op), Store(P0(s, 2), s.local('prop'), True), NP(s, t, op)) >= 0]
def lem10i(s):
    t = A(s)[0]; o = s.outer(1); x = s.local('t'); return [ForAll([V], M.extend(SK(o, t), 0, sn(o, t) - 1, V), patterns=[cnt(SK(o, t), 0, sn(o, t) - 1, V), cnt(SK(o, t), 0, sn(o, t), V), cnt(SK(s, t), 0, sn(s, t), V)]), M.extend(SK(o, t), 0, sn(o, t) - 1, x), ForAll([V], And(M.extend(SK(s, t), 0, sn(s, t), V), touch(cnt(SK(o, t), 0, sn(o, t), V) > 0)), patterns=[cnt(SK(s, t), 0, sn(s, t), V)])]
def lem10(s):
    t = A(s)[0]; o = s.outer(0); x = s.local('t'); me = s.local('method'); n = sn(o, t); P = s.ver.named(TS(s.outer(1), t))
    return [pc(srow(s, t, me), Store(P, x, True), ND(s, t, me)) >= 0, touch(CM(me)), ForAll([V], And(M.extend(SK(s, t), 0, n, V), M.same(SK(o, t), SK(s, t), 0, n, V)), patterns=[cnt(SK(s, t), 0, n + 1, V)])]
NONE = z3.K(I, BoolVal(False))
def lem9(s):
    t = A(s)[0]; o = s.outer(0); P, Q = s.ver.named(TS(s, t)), s.ver.named(TS(o, t)); return [RM.ext(P, Store(Q, s.local('t'), True))]
def work_mods(s, t, S, R):
    return [('i32', gf(s, t, f)) for f in ARRS[1:]] + [('IntPairHeap.nextIndex', q(s, t)), ('i32', p14.kp(s, q(s, t))), ('i32', p14.vp(s, q(s, t))), ('IntStack.currentSize', st_(s, t)), ('i32', s.f(st_(s, t), 'IntStack.intContainer'))] + \
        [('IntPairHeap.' + f, q(s, t)) for f in ('keys', 'vals', 'arraySize')] + [('noDelIntSet.' + f, x) for x in (useful(s, t), rT(s, t), rM(s, t)) for f in ('currentSize', 'iterI')] + [z for x in (useful(s, t), rT(s, t), rM(s, t)) for z in N.cont(s, x)]
t0 = lambda s: A(s)[0]
v = lambda hi, lo: (lambda s: hi(s) - s.local(lo))
vs = {0: v(lambda s: mf(s, mod(s, t0(s)), 'gSize'), 'i'), 1: v(lambda s: nb(s, t0(s)), 'f'), 2: v(lambda s: mf(s, mod(s, t0(s)), 'numPrecLessActions'), 'i'), 3: v(lambda s: NA(s, t0(s), s.local('ac')), 'iAdd'), 4: lambda s: meas(s, t0(s)), 5: v(lambda s: num(s, mod(s, t0(s)), 'precToActionSize', s.local('prop')), 'iOp'), 6: v(lambda s: NP(s, t0(s), s.local('op')), 'i'), 7: v(lambda s: NA(s, t0(s), s.local('op')), 'iF'),
      8: lambda s: N.n(s, rT(s, t0(s))) - listpos(s, t0(s)), 9: lambda s: tmeas(s, t0(s)), 10: v(lambda s: num(s, mod(s, t0(s)), 'stToMethodNum', s.local('t')), 'i')}
add(Contract(PG + 'calcReachability(std::vector<bool, std::allocator<bool> >&, progression::noDelIntSet&)', requires=req, ensures=post, modifies=work_mods, allocs=True,
    loops={0: Loop(l0, variant=vs[0]), 1: Loop(l1, variant=vs[1], lemma=room), 2: Loop(l2, variant=vs[2]), 3: Loop(l3, variant=vs[3], lemma=lambda s: room(s, 'fAdd')), 4: Loop(l4, variant=vs[4], init_lemma=lambda s: [RM.ext(PS(s, A(s)[0]), NONE)], lemma=lem4), 5: Loop(l5, variant=vs[5]), 6: Loop(l6, variant=vs[6], init_lemma=lem6), 7: Loop(l7, variant=vs[7], lemma=room), 8: Loop(l8, variant=vs[8], lemma=pushl), 9: Loop(l9, variant=vs[9], init_lemma=lambda s: [RM.ext(TS(s, A(s)[0]), NONE)], lemma=lem9), 10: Loop(l10, variant=vs[10], init_lemma=lem10i, lemma=lem10)}))
reach = lambda f, n: lambda s, t, i: N.storage(s, f(s, t)) + [('in range', And(0 <= i, i < N.cap(s, f(s, t))))]
add(Contract(PG + 'factReachable(int)', requires=lambda s, t, i: [obj(s, t), ('in range', And(0 <= i, i < nb(s, t), s.len(gf(s, t, 'hValProp')) >= 4 * nb(s, t), gf(s, t, 'hValProp').obj > 0))], ensures=lambda s, rv, t, i: [('reports the fact', rv == fact(s, t, i))]))
add(Contract(PG + 'taskReachable(int)', requires=reach(rT, nT), ensures=lambda s, rv, t, i: [('reports the task', rv == N.mem(s, rT(s, t), i))]))
add(Contract(PG + 'methodReachable(int)', requires=reach(rM, nMe), ensures=lambda s, rv, t, i: [('reports the method', rv == N.mem(s, rM(s, t), i))]))
SPLIT = {PG + 'calcReachability(std::vector<bool, std::allocator<bool> >&, progression::noDelIntSet&)': 8}
