"""P17: sorting, searching, set construction (IntUtil, lookUpTab)."""
import z3
from lib import *
TU = '#include "intDataStructures/IntUtil.cpp"\n#include "heuristics/landmarks/lmDataStructures/lookUpTab.cpp"\n'
CONTRACTS = []
AXIOMS = M.AXIOMS
OPTS = {}
add = CONTRACTS.append
P = 'progression::IntUtil::'
sort_contracts(P, add)
def req_search(s, t, a, lo, hi, v): return [('range', Implies(lo <= hi, And(lo >= 0, 4 * (hi + 1) <= s.len(a), hi < 2**31))), ('sorted', sorted_(s.arr(a), lo, hi + 1))]
def inv_search(s):
    t, a, lo0, hi0, v = s.args; lo, hi, A = s.local('low'), s.local('high'), s.arr(a)
    return [('range', And(lo0 <= lo, hi <= hi0)), ('left', all_in(A, lo0, lo, lambda k, x: x != v)), ('right', all_in(A, hi + 1, hi0 + 1, lambda k, x: x != v))]
def found(A, lo, hi, v, rv): return If(rv == -1, all_in(A, lo, hi + 1, lambda k, x: x != v), And(lo <= rv, rv <= hi, Select(A, rv) == v))
add(Contract(P + 'indexOf(int*, int, int, int)', requires=req_search,
    ensures=lambda s, rv, t, a, lo, hi, v: [('index or absent', found(s.arr(a), lo, hi, v, rv))],
    loops={0: Loop(inv_search, variant=lambda s: If(s.local('high') >= s.local('low'), s.local('high') - s.local('low') + 1, 0))}))
add(Contract(P + 'containsInt(int*, int, int, int)', requires=req_search,
    ensures=lambda s, rv, t, a, lo, hi, v: [('present', Implies(rv, Exists([K], And(lo <= K, K <= hi, Select(s.arr(a), K) == v)))), ('absent', Implies(Not(rv), all_in(s.arr(a), lo, hi + 1, lambda k, x: x != v)))]))
add(Contract(P + 'isSorted(int*, int)', requires=lambda s, t, a, n: [('range', 4 * n <= s.len(a))],
    ensures=lambda s, rv, t, a, n: [('ascending', Implies(rv, sorted_(s.arr(a), 0, n))), ('not ascending', Implies(Not(rv), Exists([K], And(1 <= K, K < n, Select(s.arr(a), K - 1) > Select(s.arr(a), K)))))],
    loops={0: Loop(lambda s: [('range', And(1 <= s.local('i'), s.local('i') <= s.args[2])), ('so far', sorted_(s.arr(s.args[1]), 0, s.local('i')))], variant=lambda s: s.args[2] - s.local('i'))}))
# copyExcluding: all elements but the excluded value, in order
def cpy_inv(s):
    t, a, n, x = s.args; i, o = s.local('i'), s.local('outIndex'); A = s.arr(a); O = s.arr(s.local('outList'))
    return [('range', And(0 <= i, i <= n, o == i - cnt(A, 0, i, x))), ('kept', ForAll([K], Implies(And(0 <= K, K < i, Select(A, K) != x), Select(O, K - cnt(A, 0, K, x)) == Select(A, K)), patterns=[Select(A, K)])),
            ('positions', ForAll([K], Implies(And(0 <= K, K < i), And(cnt(A, 0, K, x) <= K, K - cnt(A, 0, K, x) <= o, Implies(Select(A, K) != x, K - cnt(A, 0, K, x) < o))), patterns=[cnt(A, 0, K, x)]))]
def cpy_lemma(s):
    t, a, n, x = s.args; A = s.arr(a)
    return [M.extend(A, 0, s.local('i'), x), ForAll([K], Implies(K >= 0, And(M.extend(A, 0, K, x), M.split(A, 0, K, n, x))), patterns=[cnt(A, 0, K, x)])]
add(Contract(P + 'copyExcluding(int*, int, int)', requires=lambda s, t, a, n, x: [('range', And(n >= 1, n < 2**31, 4 * n <= s.len(a))), ('excluded value occurs exactly once', cnt(s.arr(a), 0, n, x) == 1)],
    ensures=lambda s, rv, t, a, n, x: [('kept in order', ForAll([K], Implies(And(0 <= K, K < n, Select(s.old.arr(a), K) != x), Select(s.arr(rv), K - cnt(s.old.arr(a), 0, K, x)) == Select(s.old.arr(a), K)), patterns=[Select(s.old.arr(a), K)])), ('size', s.len(rv) == 4 * (n - 1))],
    allocs=True, loops={0: Loop(cpy_inv, lemma=cpy_lemma, variant=lambda s: s.args[2] - s.local('i'))}))
# makeSet
from vc import AnnotationMismatch
from models import s_card, s_en, s_fin, s_rank
def ms_same(s, t, a, n, rv): return ForAll([V], (cnt(s.arr(a), 0, rv, V) > 0) == (cnt(s.old.arr(a), 0, n, V) > 0), patterns=[cnt(s.old.arr(a), 0, n, V)])
def strict(A, n): return ForAll([J, K], Implies(And(0 <= J, J < K, K < n), Select(A, J) < Select(A, K)), patterns=[z3.MultiPattern(Select(A, J), Select(A, K))])
def ms_pre(s): t, a, n = s.args; return And(sorted_(s.arr(a), 0, n), perm(s.arr(a), s.old.arr(a), 0, n))
def ms1(s):
    t, a, n = s.args; i = s.local('i'); A = s.arr(a)
    return [('range', And(1 <= i, i <= n)), ('not redo', s.local('redo') == 0), ('strict so far', ForAll([K], Implies(And(1 <= K, K < i), Select(A, K - 1) < Select(A, K)), patterns=[Select(A, K)])),
            ('strict', ForAll([J, K], Implies(And(0 <= J, J < K, K < i), Select(A, J) < Select(A, K)), patterns=[z3.MultiPattern(Select(A, J), Select(A, K))])) ]
def ms2(s):
    t, a, n = s.args; i = s.local('i'); A = s.arr(a); S = s.smem(s.local('temp'))
    return [('range', And(0 <= i, i <= n)), ('collected', ForAll([V], Select(S, V) == (cnt(A, 0, i, V) > 0), patterns=[Select(S, V), cnt(A, 0, i, V)])), ('size', s_card(S) <= i)]
def ms3(s):
    t, a, n = s.args; i = s.local('i'); A = s.arr(a); S = s.smem(s.local('temp'))
    return [('index', And(0 <= i, i == s.iter(), i <= s_card(S))), ('written', all_in(A, 0, i, lambda k, x: x == s_en(S, k)))]
def ms4(s):
    t, a, n = s.args; i = s.local('i'); A = s.arr(a); S = s.smem(s.local('temp'))
    return [('index', And(s_card(S) <= i, i <= n)), ('written', all_in(A, 0, s_card(S), lambda k, x: x == s_en(S, k)))]
def ms_lem(s, rv, t, a, n):
    A0, A = s.old.arr(a), s.arr(a)
    try: S = s.smem(s.local('temp'))
    except AnnotationMismatch: return []
    r = s_rank(S, Select(A0, K))
    return [ForAll([K], Implies(And(0 <= K, K < n), And(cnt(A0, 0, n, Select(A0, K)) >= 1, Implies(And(0 <= r, r < rv, Select(A, r) == Select(A0, K)), cnt(A, 0, rv, Select(A0, K)) >= 1))), patterns=[Select(A0, K)])]
add(Contract(P + 'makeSet(int*, int)', requires=lambda s, t, a, n: [('range', And(a.obj > 0, n >= 0, n < 2**31, 4 * n <= s.len(a)))],
    ensures=lambda s, rv, t, a, n: [('size', And(0 <= rv, rv <= n)), ('each value once, ascending', strict(s.arr(a), rv)),
        ('no value lost', Implies(n >= 2, ForAll([K], Implies(And(0 <= K, K < n), cnt(s.arr(a), 0, rv, Select(s.old.arr(a), K)) >= 1), patterns=[Select(s.old.arr(a), K)]))),
        ('no value invented', Implies(n >= 2, ForAll([K], Implies(And(0 <= K, K < rv), cnt(s.old.arr(a), 0, n, Select(s.arr(a), K)) >= 1), patterns=[Select(s.arr(a), K)])))],
    lemma=ms_lem,
    modifies=lambda s, t, a, n: [('i32', a)], allocs=True,
    loops={0: Loop(ms1, variant=lambda s: s.args[2] - s.local('i')), 1: Loop(ms2, lemma=lambda s: [ForAll([V], M.extend(s.arr(s.args[1]), 0, s.local('i'), V), patterns=[cnt(s.arr(s.args[1]), 0, s.local('i') + 1, V)])], variant=lambda s: s.args[2] - s.local('i')),
           2: Loop(ms3), 3: Loop(ms4, variant=lambda s: s.args[2] - s.local('i'))}))
# lookUpTab
L = 'progression::lookUpTab::'
def ltab(s, t): return s.f(t, 'lookUpTab.lookFor')
def entry(s, t, k): return s.f(s.pat(ltab(s, t), k), 'LmMap.entry')
def lrow(s, t): return s.arr(ltab(s, t), 'ptr')
def lsorted(s, t):
    R = lrow(s, t); E = s.fmap('LmMap.entry'); e = lambda k: Select(Select(E, Select(R, k)), 0)
    n = s.f(t, 'lookUpTab.size')
    return [('range', And(n >= 0, n < 2**31, s.len(ltab(s, t)) == 8 * n)), ('sorted', ForAll([J, K], Implies(And(0 <= J, J <= K, K < n), e(J) <= e(K)), patterns=[z3.MultiPattern(Select(R, J), Select(R, K))]))]
def lfound(s, t, lo, hi, v, rv):
    R = lrow(s, t); E = s.fmap('LmMap.entry'); e = lambda k: Select(Select(E, Select(R, k)), 0)
    return If(rv == -1, ForAll([K], Implies(And(lo <= K, K <= hi), e(K) != v), patterns=[Select(R, K)]), And(lo <= rv, rv <= hi, e(rv) == v))
def linv(s):
    t, lo0, hi0, v = s.args; lo, hi = s.local('low'), s.local('high'); R = lrow(s, t); E = s.fmap('LmMap.entry'); e = lambda k: Select(Select(E, Select(R, k)), 0)
    return [('range', And(lo0 <= lo, hi <= hi0)), ('left', ForAll([K], Implies(And(lo0 <= K, K < lo), e(K) != v), patterns=[Select(R, K)])), ('right', ForAll([K], Implies(And(hi < K, K <= hi0), e(K) != v), patterns=[Select(R, K)]))]
add(Contract(L + 'indexOf(int, int, int)', requires=lambda s, t, lo, hi, v: lsorted(s, t) + [And(0 <= lo, hi < s.f(t, 'lookUpTab.size'))], ensures=lambda s, rv, t, lo, hi, v: [('index or absent', lfound(s, t, lo, hi, v, rv))],
    loops={0: Loop(linv, variant=lambda s: If(s.local('high') >= s.local('low'), s.local('high') - s.local('low') + 1, 0))}))
add(Contract(L + 'indexOf(int)', requires=lambda s, t, v: lsorted(s, t), ensures=lambda s, rv, t, v: [('index or absent', lfound(s, t, IntVal(0), s.f(t, 'lookUpTab.size') - 1, v, rv))]))
