"""P20: the relaxed composition model (RCModelFactory): actions, methods, maps between tasks and their markers, inverse index."""
from mlib import *
import re
TU = '#include "heuristics/rcHeuristics/RCModelFactory.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append; RF = 'progression::RCModelFactory::'
x = z3.Int('x?'); named_action = z3.Function('named_action', z3.IntSort(), z3.BoolSort())      # no meaning, like touch
OFF = 8     # an array of sets starts after its length word
# ---- the maps between tasks and markers: fact numbers behind the original facts, first the top-down markers of the actions, then the bottom-up markers of all tasks
H = lambda s, t=None: s.f(t if t is not None else s.args[0], 'RCModelFactory.htn')
def small(s, t): h = H(s, t); return [('factory', And(obj(s, t), obj(s, h))), ('sizes', And(0 <= mf(s, h, 'numStateBits'), 0 <= mf(s, h, 'numActions'), mf(s, h, 'numActions') <= mf(s, h, 'numTasks'), mf(s, h, 'numStateBits') + mf(s, h, 'numActions') + mf(s, h, 'numTasks') < 2**30))]
tdr = lambda s, h, a: mf(s, h, 'numStateBits') + a
bur = lambda s, h, a: mf(s, h, 'numStateBits') + mf(s, h, 'numActions') + a
add(Contract(RF + 't2tdr(int)', requires=lambda s, t, a: small(s, t) + [('action', And(0 <= a, a < mf(s, H(s, t), 'numActions')))], ensures=lambda s, rv, t, a: [('top-down marker', rv == tdr(s, H(s, t), a))]))
add(Contract(RF + 't2bur(int)', requires=lambda s, t, a: small(s, t) + [('task', And(0 <= a, a < mf(s, H(s, t), 'numTasks')))], ensures=lambda s, rv, t, a: [('bottom-up marker', rv == bur(s, H(s, t), a))]))
# ---- createInverseMappings: from facts to the actions that need them
acts = lambda s, t: mf(s, t, 'numActions'); nbit = lambda s, t: mf(s, t, 'numStateBits')
def precs_model(s, t): return [('model', obj(s, t)), ('facts', And(nbit(s, t) >= 0, acts(s, t) < 2**31))] + lists(s, t, 'numPrecs', 'precLists', acts(s, t), 0, nbit(s, t))
def only(s, t, S, n, last=None):
    h = lambda lim: Exists([J], And(0 <= J, J < lim, ent(s, t, 'precLists', x, J) == K - OFF))
    m = Select(Select(S, K), x); c = And(0 <= x, x < n, h(num(s, t, 'numPrecs', x)))
    if last is not None: c = Or(c, And(x == n, h(last)))
    return ForAll([K, x], Implies(And(OFF <= K, K < OFF + nbit(s, t), m), c), patterns=[m])
def all_in_sets(s, t, S, n, last=None):
    e = ent(s, t, 'precLists', x, J); c = Implies(And(0 <= x, x < n, 0 <= J, J < num(s, t, 'numPrecs', x)), Select(Select(S, e + OFF), x))
    if last is None: return ForAll([x, J], c, patterns=[e])
    return ForAll([x, J], And(c, Implies(And(x == n, 0 <= J, J < last), Select(Select(S, e + OFF), x))), patterns=[e])
T0 = lambda s: s.args[1]; tmp = lambda s: s.local('precToActionTemp')
def l0(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i')
    return [('range', And(0 <= i, i <= acts(s, t))), ('only', only(s, t, S, i)), ('all', all_in_sets(s, t, S, i))]
def l1(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i'); j = s.local('j')
    return [('range', And(0 <= j, j <= num(s, t, 'numPrecs', i))), ('only', only(s, t, S, i, j)), ('all', all_in_sets(s, t, S, i, j))]
SZ = lambda s, t, f: num(s, t, 'precToActionSize', f); E = lambda s, t, f, k: ent(s, t, 'precToAction', f, k)
def filled(s, t, S, n):
    r = lambda f: row(s, t, 'precToAction', f); fresh_ = lambda f: And(r(f) >= s.old.ctr, r(f) < s.ctr, r(f) != tmp(s).obj, r(f) != mf(s, t, 'precToActionSize').obj, r(f) != mf(s, t, 'precToAction').obj, s.len(PE(r(f))) == 4 * SZ(s, t, f))
    return [('sizes', ForAll([K], Implies(And(0 <= K, K < n), And(SZ(s, t, K) == s_card(Select(S, K + OFF)), fresh_(K))), patterns=[SZ(s, t, K), r(K)])),
            ('rows differ', ForAll([K, J], Implies(And(0 <= K, K < J, J < n), r(K) != r(J)), patterns=[z3.MultiPattern(r(K), r(J))])),
            ('entries', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < SZ(s, t, K)), E(s, t, K, J) == s_en(Select(S, K + OFF), J)), patterns=[E(s, t, K, J)]))]
def l2(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i')
    return [('range', And(0 <= i, i <= nbit(s, t)))] + filled(s, t, S, i)
def l3(s):
    t = T0(s); S = sets(s, tmp(s)); i = s.local('i'); it = s.iter(); r = row(s, t, 'precToAction', i)
    return [('range', And(0 <= it, it <= s_card(Select(S, i + OFF)), s.local('cur') == it, SZ(s, t, i) == s_card(Select(S, i + OFF))))] + filled(s, t, S, i) + \
        [('this row', And(r >= s.old.ctr, r < s.ctr, r != tmp(s).obj, r != mf(s, t, 'precToActionSize').obj, r != mf(s, t, 'precToAction').obj, s.len(PE(r)) == 4 * SZ(s, t, i), ForAll([K], Implies(And(0 <= K, K < i), row(s, t, 'precToAction', K) != r), patterns=[row(s, t, 'precToAction', K)]))),
         ('this entries', ForAll([J], Implies(And(0 <= J, J < it), E(s, t, i, J) == s_en(Select(S, i + OFF), J)), patterns=[E(s, t, i, J)]))]
IPOS = z3.Function('position_in_index', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())      # (index array, fact, action) -> position of the action in the list of the fact; defined at the return of createInverseMappings
pos_ = lambda s, t, f, a: IPOS(mf(s, t, 'precToAction').obj, f, a)
def inverse(s, o, t):
    n = nbit(s, t)
    return [('listed actions need the fact', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < SZ(s, t, K)), And(0 <= E(s, t, K, J), E(s, t, K, J) < acts(s, t), Exists([x], And(0 <= x, x < num(o, t, 'numPrecs', E(s, t, K, J)), ent(o, t, 'precLists', E(s, t, K, J), x) == K)))), patterns=[E(s, t, K, J)])),
            ('actions needing the fact are listed', ForAll([x, J], Implies(And(0 <= x, x < acts(s, t), 0 <= J, J < num(o, t, 'numPrecs', x)), And(0 <= pos_(s, t, ent(o, t, 'precLists', x, J), x), pos_(s, t, ent(o, t, 'precLists', x, J), x) < SZ(s, t, ent(o, t, 'precLists', x, J)), E(s, t, ent(o, t, 'precLists', x, J), pos_(s, t, ent(o, t, 'precLists', x, J), x)) == x)), patterns=[ent(o, t, 'precLists', x, J)])),
            ('ascending, each once', ForAll([K, J, x], Implies(And(0 <= K, K < n, 0 <= J, J < x, x < SZ(s, t, K)), E(s, t, K, J) < E(s, t, K, x)), patterns=[z3.MultiPattern(E(s, t, K, J), E(s, t, K, x))])),
            ('list lengths', ForAll([K], Implies(And(0 <= K, K < n), SZ(s, t, K) >= 0), patterns=[SZ(s, t, K)]))]
def new_rows(s, t):
    a = [mf(s, t, f).obj for f in ('precToActionSize', 'precToAction')]; r = row(s, t, 'precToAction', K)
    return [('new arrays', And(*[And(q >= s.old.ctr, q < s.ctr) for q in a])), ('new rows', ForAll([K], Implies(And(0 <= K, K < nbit(s, t)), And(r >= s.old.ctr, r < s.ctr)), patterns=[r]))]
def small_sets(s):
    t = T0(s); S = sets(s, tmp(s))
    return [('a set is finite', ForAll([K], s_fin(Select(S, K)), patterns=[Select(S, K)])), ('finite set of small numbers', ForAll([K], Implies(And(OFF <= K, K < OFF + nbit(s, t)), card_bound(Select(S, K), acts(s, t))), patterns=[Select(S, K)]))]
def witness(s, rv, f_, t):
    S = sets(s, tmp(s)); f = ent(s.old, t, 'precLists', x, J)
    return [('definition of the positions', ForAll([K, x], pos_(s, t, K, x) == s_rank(Select(S, K + OFF), x), patterns=[pos_(s, t, K, x)]))]
add(Contract(RF + 'createInverseMappings(progression::Model*)', requires=lambda s, f, t: precs_model(s, t), ensures=lambda s, rv, f, t: inverse(s, s.old, t) + new_rows(s, t), modifies=lambda s, f, t: [('Model.precToActionSize', t), ('Model.precToAction', t)], allocs=True, lemma=witness,
    loops={1: Loop(l0, variant=lambda s: acts(s, T0(s)) - s.local('i')), 2: Loop(l1, variant=lambda s: num(s, T0(s), 'numPrecs', s.local('i')) - s.local('j')),
           3: Loop(l2, init_lemma=small_sets, variant=lambda s: nbit(s, T0(s)) - s.local('i')), 4: Loop(l3, variant=lambda s: s_card(Select(sets(s, tmp(s)), s.local('i') + OFF)) - s.iter())}))
# ---- getRCmodelSTRIPS
ASSUMED = [Contract('progression::Model::Model()', assumed=True, modifies=lambda s, t: [], allocs=True)]
def req(s, t, cm, ca):
    h = H(s, t); na, nt, nb, nm, nv = (mf(s, h, f) for f in ('numActions', 'numTasks', 'numStateBits', 'numMethods', 'numVars'))
    dt = num(s, h, 'decomposedTask', K); g = num(s, h, 'gList', K); s0 = num(s, h, 's0List', K); n_ = lambda f: num(s, h, f, K)
    return small(s, t) + [('methods', And(0 <= nm, nm < 2**29, iarr(s, h, 'decomposedTask', nm), iarr(s, h, 'actionCosts', na), 0 <= nv, nv <= nb, iarr(s, h, 'firstIndex', nv), iarr(s, h, 'lastIndex', nv))),
        ('goal and initial state', And(0 <= mf(s, h, 'gSize'), mf(s, h, 'gSize') < 2**30, iarr(s, h, 'gList', mf(s, h, 'gSize')), 0 <= mf(s, h, 's0Size'), mf(s, h, 's0Size') < 2**30, iarr(s, h, 's0List', mf(s, h, 's0Size')), 0 <= mf(s, h, 'initialTask'), mf(s, h, 'initialTask') < nt)),
        ('facts of the goal', ForAll([K], Implies(And(0 <= K, K < mf(s, h, 'gSize')), And(0 <= g, g < nb)), patterns=[g])), ('facts of the initial state', ForAll([K], Implies(And(0 <= K, K < mf(s, h, 's0Size')), And(0 <= s0, s0 < nb)), patterns=[s0])),
        ('decomposed tasks', ForAll([K], Implies(And(0 <= K, K < nm), And(0 <= dt, dt < nt)), patterns=[dt])), ('list lengths', ForAll([K], Implies(And(0 <= K, K < na), And(n_('numPrecs') < 2**30, n_('numAdds') < 2**30, n_('numDels') < 2**30)), patterns=[n_('numPrecs'), n_('numAdds'), n_('numDels')])),
        ('subtask counts', ForAll([K], Implies(And(0 <= K, K < nm), n_('numDistinctSTs') < 2**30), patterns=[n_('numDistinctSTs')]))] + \
        lists(s, h, 'numPrecs', 'precLists', na, 0, nb) + lists(s, h, 'numAdds', 'addLists', na, 0, nb) + lists(s, h, 'numDels', 'delLists', na, 0, nb) + lists(s, h, 'numDistinctSTs', 'sortedDistinctSubtasks', nm, 0, nt)
o = lambda s: s.old
T_ = lambda s: s.old.args[0]; h_ = lambda s: H(s.old, T_(s)); hm = lambda s, f: mf(s.old, h_(s), f); hn = lambda s, f, i: num(s.old, h_(s), f, i); he = lambda s, f, i, j: ent(s.old, h_(s), f, i, j)
rc = lambda s: s.local('rc'); na_ = lambda s: hm(s, 'numActions'); nm_ = lambda s: hm(s, 'numMethods')
TD = lambda s, a: hm(s, 'numStateBits') + a; BU = lambda s, a: hm(s, 'numStateBits') + na_(s) + a
PL, AL, DL = ('numPrecs', 'precLists'), ('numAdds', 'addLists'), ('numDels', 'delLists')
def place(s, r, n):
    """the rows of the new lists are new objects, in the order of their allocation"""
    R = [row(s, r, f[1], K) for f in (PL, AL, DL)]; base = mf(s, r, 'numDels').obj; a = K < na_(s); L = lambda f: s.len(PE(row(s, r, f[1], K))) == 4 * num(s, r, f[0], K)
    return [('rows', ForAll([K], Implies(And(0 <= K, K < n), And(R[0] > base, R[0] < R[1], R[1] < s.ctr, If(a, And(R[1] < R[2], R[2] < s.ctr), R[2] == 0))), patterns=R)),
            ('row lengths', ForAll([K], Implies(And(0 <= K, K < n), And(L(PL), L(AL), Implies(a, L(DL)))), patterns=R))]
def act_of(s, r, n, k=None):
    """the copies of the original actions below n"""
    F = []
    for (szf, f), mk, extra in ((PL, TD, 1), (AL, BU, 1), (DL, None, 0)):
        sz = num(s, r, szf, K); e = ent(s, r, f, K, J); hs = hn(s, szf, K)
        F += [(szf + ' of actions', ForAll([K], Implies(And(0 <= K, K < n), sz == hs + extra), patterns=[sz])), (f + ' of actions', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < hs), e == he(s, f, K, J)), patterns=[e]))]
        if mk: m = ent(s, r, f, K, hs); F.append((f + ': marker', ForAll([K], Implies(And(0 <= K, K < n), m == mk(s, K)), patterns=[m, row(s, r, f, K)])))
    return F
def met_of(s, r, n):
    """the actions of the methods below n (a number of an action)"""
    a = na_(s); m = K - a; g = And(a <= K, K < n); np, ad, dl = (num(s, r, f[0], K) for f in (PL, AL, DL)); e = ent(s, r, 'precLists', K, J); b = ent(s, r, 'addLists', K, IntVal(0))
    return [('precondition counts of methods', ForAll([K], Implies(g, np == hn(s, 'numDistinctSTs', m)), patterns=[np])), ('add counts of methods', ForAll([K], Implies(g, ad == 1), patterns=[ad])), ('delete counts of methods', ForAll([K], Implies(g, dl == 0), patterns=[dl])),
            ('a method needs the markers of its subtasks', ForAll([K, J], Implies(And(g, 0 <= J, J < np), e == BU(s, he(s, 'sortedDistinctSubtasks', m, J))), patterns=[e])), ('a method adds the marker of its task', ForAll([K], Implies(g, b == BU(s, hn(s, 'decomposedTask', m))), patterns=[b, row(s, r, 'addLists', K)]))]
def i0(s): i = s.local('i'); return [('range', And(0 <= i, i <= na_(s)))] + place(s, rc(s), i) + act_of(s, rc(s), i)
def copy(f, j='j', i='i'):
    def inv(s):
        jj, ii = s.local(j), s.local(i); szf, lf = f; e = ent(s, rc(s), lf, ii, J)
        return [('range', And(0 <= jj, jj <= hn(s, szf, ii))), ('copied', ForAll([J], Implies(And(0 <= J, J < jj), e == he(s, lf, ii, J)), patterns=[e]))]
    return Loop(inv, variant=lambda s: hn(s, f[0], s.local(i)) - s.local(j))
def i4(s): i = s.local('im'); return [('range', And(0 <= i, i <= nm_(s)))] + place(s, rc(s), na_(s) + i) + act_of(s, rc(s), na_(s)) + met_of(s, rc(s), na_(s) + i)
def i5(s):
    i, j = s.local('im'), s.local('ist'); e = ent(s, rc(s), 'precLists', na_(s) + i, J)
    return [('range', And(0 <= j, j <= hn(s, 'numDistinctSTs', i))), ('markers', ForAll([J], Implies(And(0 <= J, J < j), e == BU(s, he(s, 'sortedDistinctSubtasks', i, J))), patterns=[e]))]
def fr(s): return {'i32': [mf(s, rc(s), f[0]) for f in (PL, AL, DL)], 'ptr': [mf(s, rc(s), f[1]) for f in (PL, AL, DL)]}
def upto(v, n): return Loop(lambda s: [('range', And(0 <= s.local(v), s.local(v) <= n(s)))], variant=lambda s: n(s) - s.local(v))
nt_ = lambda s: hm(s, 'numTasks'); nv_ = lambda s: hm(s, 'numVars')
def vars_(s, r, n):
    f, l = num(s, r, 'firstIndex', K), num(s, r, 'lastIndex', K); hl = lambda k: hn(s, 'lastIndex', k); end = If(nv_(s) == 0, 0, hl(nv_(s) - 1) + 1)
    return [('original variables', ForAll([K], Implies(And(0 <= K, K < n, K < nv_(s)), And(f == hn(s, 'firstIndex', K), l == hn(s, 'lastIndex', K))), patterns=[f, l])), ('markers are two-valued variables', ForAll([K], Implies(And(nv_(s) <= K, K < n), And(f == end + K - nv_(s), l == f)), patterns=[f, l]))]
def v17(s): i = s.local('i'); return [('range', And(0 <= i, i <= nv_(s)))] + vars_(s, rc(s), i)
def v18(s): i = s.local('i'); return [('range', And(nv_(s) <= i, i <= mf(s, rc(s), 'numVars')))] + vars_(s, rc(s), i)
def costs(s, r, n, cm=None, ca=None):
    c = num(s, r, 'actionCosts', K)
    if cm is None: cm, ca = s.old.args[1], s.old.args[2]
    return [('costs', ForAll([K], Implies(And(0 <= K, K < n), c == If(K < na_(s), If(ca == 0, hn(s, 'actionCosts', K), ca), cm)), patterns=[c]))]
def c19(s): i = s.local('i'); return [('range', And(0 <= i, i <= na_(s)))] + costs(s, rc(s), i)
NA = lambda s: na_(s) + nm_(s)
def c20(s): i = s.local('i'); return [('range', And(na_(s) <= i, i <= NA(s)))] + costs(s, rc(s), i)
def p21(s):
    i = s.local('i'); S = s.smem(s.local('precless')); return [('range', And(0 <= i, i <= NA(s))), ('actions without preconditions', ForAll([x], Select(S, x) == And(0 <= x, x < i, num(s, rc(s), 'numPrecs', x) == 0), patterns=[Select(S, x)]))]
def enum(f, v, L, n):
    def inv(s):
        S = s.smem(s.local(L)); it = s.iter(); e = num(s, rc(s), f, K)
        return [('range', And(0 <= it, it <= s_card(S), s.local(v) == it)), ('entries', ForAll([K], Implies(And(0 <= K, K < it), e == s_en(S, K)), patterns=[e]))]
    def fin(s): S = s.smem(s.local(L)); return [('finite set of small numbers', And(s_fin(S), card_bound(S, n(s))))]
    return Loop(inv, init_lemma=fin, variant=lambda s: s_card(s.smem(s.local(L))) - s.iter())
def with_markers(l):
    def mk(s): S = s.smem(s.local('s')); r = s_rank(S, TD(s, J)); return [('ranks of the markers', ForAll([J], Implies(And(0 <= J, J < na_(s)), And(0 <= r, r < s_card(S), s_en(S, r) == TD(s, J))), patterns=[r]))]
    f = l.inv; l.inv = lambda s: f(s) + mk(s); return l
def prim(s): i = s.local('i'); e = Select(s.arr(mf(s, rc(s), 'isPrimitive'), 'i8'), K); return [('range', And(0 <= i, i <= NA(s))), ('all primitive', ForAll([K], Implies(And(0 <= K, K < i), e != 0), patterns=[e]))]
def start(s, n, m):
    """content of the set of initial facts: the first n facts of the initial state, the top-down markers of the first m actions"""
    S = s.smem(s.local('s')); k = z3.Int('k0?'); f = hn(s, 's0List', K)
    return [('initial facts only', ForAll([x], Implies(Select(S, x), Or(And(hm(s, 'numStateBits') <= x, x < TD(s, m)), Exists([K], And(0 <= K, K < n, f == x)))), patterns=[Select(S, x)])), ('initial facts', ForAll([K], Implies(And(0 <= K, K < n), Select(S, f)), patterns=[f])),
            ('top-down markers', ForAll([x], Implies(And(hm(s, 'numStateBits') <= x, x < TD(s, m)), Select(S, x)), patterns=[Select(S, x)]))]
def s24(s): i = s.local('i'); return [('range', And(0 <= i, i <= hm(s, 's0Size')))] + start(s, i, IntVal(0))
def s25(s): i = s.local('i'); return [('range', And(0 <= i, i <= na_(s)))] + start(s, hm(s, 's0Size'), i)
def marker_entries(s): S = s.smem(s.local('s')); r = s_rank(S, TD(s, J)); return [('marker entries', ForAll([J], Implies(And(0 <= J, J < na_(s)), And(0 <= r, r < mf(s, rc(s), 's0Size'), num(s, rc(s), 's0List', r) == TD(s, J))), patterns=[r]))]
def g27(s): i = s.local('i'); e = num(s, rc(s), 'gList', K); return marker_entries(s) + [('range', And(0 <= i, i <= hm(s, 'gSize'))), ('goal facts', ForAll([K], Implies(And(0 <= K, K < i), e == hn(s, 'gList', K)), patterns=[e]))]
def ens(s, rv, t, cm, ca):
    r = rv; pl = lambda k: num(s, r, 'precLessActions', k); s0 = lambda k: num(s, r, 's0List', k); nl, ns = mf(s, r, 'numPrecLessActions'), mf(s, r, 's0Size'); g = num(s, r, 'gList', K); gs = hm(s, 'gSize'); pos = z3.Int('p?')
    return [('sizes', And(mf(s, r, 'numStateBits') == hm(s, 'numStateBits') + na_(s) + nt_(s), mf(s, r, 'numActions') == NA(s), mf(s, r, 'numTasks') == NA(s), mf(s, r, 'numVars') == nv_(s) + na_(s) + nt_(s), Not(boolean(mf(s, r, 'isHtnModel')))))] + act_of(s, r, na_(s)) + met_of(s, r, NA(s)) + costs(s, r, NA(s), cm, ca) + vars_(s, r, mf(s, r, 'numVars')) + inverse(s, s, r) + [
        ('listed precondition-free actions', And(nl >= 0, ForAll([K], Implies(And(0 <= K, K < nl), And(0 <= pl(K), pl(K) < NA(s), num(s, r, 'numPrecs', pl(K)) == 0)), patterns=[pl(K)]))),
        ('all precondition-free actions', ForAll([x], Implies(And(0 <= x, x < NA(s), num(s, r, 'numPrecs', x) == 0), Exists([K], And(0 <= K, K < nl, pl(K) == x))), patterns=[num(s, r, 'numPrecs', x)])),
        ('goal', And(mf(s, r, 'gSize') == gs + 1, num(s, r, 'gList', gs) == BU(s, hm(s, 'initialTask')), ForAll([K], Implies(And(0 <= K, K < gs), g == hn(s, 'gList', K)), patterns=[g]))),
        ('initial state only', And(ns >= 0, ForAll([J], Implies(And(0 <= J, J < ns), Or(And(hm(s, 'numStateBits') <= s0(J), s0(J) < TD(s, na_(s))), Exists([K], And(0 <= K, K < hm(s, 's0Size'), hn(s, 's0List', K) == s0(J))))), patterns=[s0(J)]))),
        ('initial state', ForAll([J], Implies(And(0 <= J, J < hm(s, 's0Size')), Exists([K], And(0 <= K, K < ns, s0(K) == hn(s, 's0List', J)), patterns=[s0(K)])), patterns=[hn(s, 's0List', J)])),
        ('top-down markers hold initially', ForAll([J], Implies(And(named_action(J), 0 <= J, J < na_(s)), Exists([K], And(0 <= K, K < ns, s0(K) == TD(s, J)))), patterns=[named_action(J)]))]
def wit(s, rv, t, cm, ca):
    S, P = s.smem(s.local('s')), s.smem(s.local('precless')); f = hn(s, 's0List', J); n = num(s, rc(s), 'numPrecs', x)
    return [ForAll([J], touch(num(s, rc(s), 's0List', s_rank(S, f))), patterns=[f]), ForAll([J], And(touch(num(s, rc(s), 's0List', s_rank(S, TD(s, J)))), touch(If(Select(S, TD(s, J)), 1, 0))), patterns=[named_action(J)]), ForAll([x], touch(num(s, rc(s), 'precLessActions', s_rank(P, x))), patterns=[n])]
add(Contract(RF + 'getRCmodelSTRIPS(int, int)', requires=req, ensures=ens, allocs=True, lemma=wit, opts=dict(opaque_fields=('Model.factStrs', 'Model.taskNames', 'Model.varNames')),
    loops={0: Loop(i0, frame=fr, variant=lambda s: na_(s) - s.local('i')), 1: copy(PL), 2: copy(AL), 3: copy(DL), 4: Loop(i4, frame=fr, variant=lambda s: nm_(s) - s.local('im')), 5: Loop(i5, variant=lambda s: hn(s, 'numDistinctSTs', s.local('im')) - s.local('ist')),
        7: upto('i', lambda s: hm(s, 'numStateBits')), 8: upto('i', na_), 9: upto('i', nt_), 11: upto('i', na_), 12: upto('im', nm_), 14: upto('i', nv_), 15: upto('i', na_), 16: upto('i', nt_), 17: Loop(v17, variant=lambda s: nv_(s) - s.local('i')), 18: Loop(v18, variant=lambda s: mf(s, rc(s), 'numVars') - s.local('i')),
        19: Loop(c19, variant=lambda s: na_(s) - s.local('i')), 20: Loop(c20, variant=lambda s: NA(s) - s.local('i')), 21: Loop(p21, variant=lambda s: NA(s) - s.local('i')), 22: enum('precLessActions', 'j', 'precless', NA), 23: Loop(prim, variant=lambda s: NA(s) - s.local('i')),
        24: Loop(s24, variant=lambda s: hm(s, 's0Size') - s.local('i')), 25: Loop(s25, variant=lambda s: na_(s) - s.local('i')), 26: with_markers(enum('s0List', 'i', 's', lambda s: TD(s, na_(s)))), 27: Loop(g27, variant=lambda s: hm(s, 'gSize') - s.local('i'))}))
add(Contract(RF + 'getRCmodelSTRIPS()', requires=lambda s, t: req(s, t, None, None), ensures=lambda s, rv, t: ens(s, rv, t, IntVal(1), IntVal(1)), allocs=True))
prove_lemmas = prove_card
