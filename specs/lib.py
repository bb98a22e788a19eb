"""Shared specification vocabulary."""
import ir, z3
from z3 import And, Or, Not, Implies, ForAll, Exists, Int, Ints, If, Select, Store, IntVal, BoolVal
from vc import Contract, Loop, View, PE
import cntmath as M
from cntmath import cnt, perm
def IDX(e):
    """index term used as a quantifier trigger target"""
    return e
def forall(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return ForAll(vs, body, patterns=[p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats]) if pats else ForAll(vs, body)
def inr(lo, x, hi): return And(lo <= x, x < hi)
def b2i(c): return If(c, IntVal(1), IntVal(0))
def valid_range(s, p, lo, hi, w=4):
    """[lo,hi) inside the allocation of p"""
    return And(p.obj > 0, Implies(lo < hi, And(lo >= 0, w * hi <= s.len(p))))
K, J, V = Ints('k? j? v?')
def sorted_(arr, lo, hi):
    """ascending on [lo,hi): every pair"""
    return ForAll([J, K], Implies(And(lo <= J, J < K, K < hi), Select(arr, J) <= Select(arr, K)), patterns=[z3.MultiPattern(Select(arr, J), Select(arr, K))])
def all_in(arr, lo, hi, P):
    return ForAll([K], Implies(And(lo <= K, K < hi), P(K, Select(arr, K))), patterns=[Select(arr, K)])
def agree(A, B, P):
    """A and B agree on all indexes with P"""
    return ForAll([K], Implies(P(K), Select(A, K) == Select(B, K)), patterns=[Select(A, K)])
def outside(A, B, lo, hi): return agree(A, B, lambda k: Or(k < lo, k >= hi))

def sort_contracts(P, add, extra_args=1):
    """contracts of X::partition(int*,int,int) and X::sort(int*,int,int) (Hoare partition / quicksort)"""
    def mid(lo, hi): return If(lo + hi >= 0, (lo + hi) / 2, -((-(lo + hi)) / 2))
    def req(s, t, a, lo, hi): return [('range', And(a.obj > 0, lo >= 0, lo < hi, 4 * (hi + 1) <= s.len(a)))]
    def inv0(s):
        t, a, lo, hi = s.args; A = s.arr(a); A0 = s.old.arr(a)
        i, j, p = s.local('i'), s.local('j'), s.local('pivot'); m = mid(lo, hi)
        return [('range', And(lo - 1 <= i, i < j, j <= hi + 1, Implies(j == hi + 1, And(i == lo - 1, Select(A, m) == p)), Implies(i == lo - 1, j == hi + 1))),
                ('left', all_in(A, lo, i + 1, lambda k, x: x <= p)), ('right', all_in(A, j, hi + 1, lambda k, x: x >= p)),
                ('perm', perm(A, A0, lo, hi + 1)), ('rest', outside(A, A0, lo, hi + 1)), ('pivot', p == Select(A0, m))]
    def inv1(s):
        t, a, lo, hi = s.args; A = s.arr(a); A0 = s.old.arr(a)
        i, j, p = s.local('i'), s.local('j'), s.local('pivot'); m = mid(lo, hi); w = If(j == hi + 1, m, j)
        return [('range', And(lo - 1 <= i, i < w, j <= hi + 1, i < j, Implies(j == hi + 1, Select(A, m) == p), Implies(j < hi + 1, i >= lo), j == s.outer().local('j'), i >= s.outer().local('i'))),
                ('left', all_in(A, lo, i + 1, lambda k, x: x <= p)), ('right', all_in(A, j, hi + 1, lambda k, x: x >= p)), ]
    def inv2(s):
        t, a, lo, hi = s.args; A = s.arr(a); A0 = s.old.arr(a)
        i, j, p = s.local('i'), s.local('j'), s.local('pivot'); m = mid(lo, hi); w = If(i == lo, m, i - 1)
        return [('range', And(lo <= i, j <= hi + 1, i <= hi, w < j, Select(A, i) >= p, Implies(i == lo, Select(A, m) == p), Implies(s.outer().local('j') == hi + 1, i <= m), j <= s.outer().local('j'), i > s.outer().local('i'))),
                ('left', all_in(A, lo, i, lambda k, x: x <= p)), ('right', all_in(A, j, hi + 1, lambda k, x: x >= p)), ]
    add(Contract(P + 'partition(int*, int, int)', requires=req,
        ensures=lambda s, rv, t, a, lo, hi: [('split point', And(lo <= rv, rv < hi)),
            ('left part not above pivot', all_in(s.arr(a), lo, rv + 1, lambda k, x: x <= Select(s.old.arr(a), mid(lo, hi)))),
            ('right part not below pivot', all_in(s.arr(a), rv + 1, hi + 1, lambda k, x: x >= Select(s.old.arr(a), mid(lo, hi)))),
            ('permutation', perm(s.arr(a), s.old.arr(a), lo, hi + 1)), ('rest unchanged', outside(s.arr(a), s.old.arr(a), lo, hi + 1))],
        modifies=lambda s, t, a, lo, hi: [('i32', a)],
        loops={0: Loop(inv0, variant=lambda s: s.local('j') - s.local('i')), 1: Loop(inv1, variant=lambda s: s.args[3] + 1 - s.local('i')), 2: Loop(inv2, variant=lambda s: s.local('j') + 1)}))
    SORT = P + 'sort(int*, int, int)'
    def from_(A, A0, lo, hi):
        w = lambda x: M.wit(A0, lo, hi + 1, x)
        return all_in(A, lo, hi + 1, lambda k, x: And(cnt(A, lo, hi + 1, x) >= 1, cnt(A0, lo, hi + 1, x) >= 1, lo <= w(x), w(x) <= hi, Select(A0, w(x)) == x))
    def lift(s, pre, post, rv, t, a, l, h):
        # a permutation of a part of the range is a permutation of the range
        LO, HI = s.args[2], s.args[3] + 1; A, B = pre.arr(a), post.arr(a)
        c = [M.split(X, LO, l, HI, V) for X in (A, B)] + [M.split(X, l, h + 1, HI, V) for X in (A, B)] + [M.same(A, B, LO, l, V), M.same(A, B, h + 1, HI, V)]
        return [ForAll([V], And(*c), patterns=[cnt(B, LO, HI, V)])]
    add(Contract(SORT, requires=lambda s, t, a, lo, hi: [('range', And(a.obj > 0, Implies(lo < hi, And(lo >= 0, 4 * (hi + 1) <= s.len(a)))))],
        ensures=lambda s, rv, t, a, lo, hi: [('permutation', perm(s.arr(a), s.old.arr(a), lo, hi + 1)), ('values of the range', from_(s.arr(a), s.old.arr(a), lo, hi)),
                 ('rest unchanged', outside(s.arr(a), s.old.arr(a), lo, hi + 1)), ('ascending', sorted_(s.arr(a), lo, hi + 1))],
        modifies=lambda s, t, a, lo, hi: [('i32', a)], decreases=lambda s, t, a, lo, hi: If(hi > lo, hi - lo, 0), call_lemmas={SORT: lift}))
