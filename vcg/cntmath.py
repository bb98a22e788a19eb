"""The mathematical multiset function  cnt(a, lo, hi, v) = |{k : lo <= k < hi, a[k] = v}|  and the facts about it that are given to the
solver.  Every fact is derived from the recursive definition by induction in prove_axioms(), so none of them is an assumption."""
import z3
I = z3.IntSort(); ARR = z3.ArraySort(I, I)
cnt = z3.Function('cnt', ARR, I, I, I, I)
wit = z3.Function('cntw', ARR, I, I, I, I)
wit2 = z3.Function('cntw2', ARR, I, I, I, I)
dif = z3.Function('cntd', ARR, ARR, I, I, I)
a = z3.Const('ca?', ARR); b = z3.Const('cb?', ARR); lo, hi, v, k, x, m = z3.Ints('clo? chi? cv? ck? cx? cm?')
def b2i(c): return z3.If(c, z3.IntVal(1), z3.IntVal(0))
def store_rule(arr, i, xx, l, h, vv):
    return cnt(z3.Store(arr, i, xx), l, h, vv) == cnt(arr, l, h, vv) + z3.If(z3.And(l <= i, i < h), b2i(xx == vv) - b2i(z3.Select(arr, i) == vv), 0)
AX = {
 'nonneg': z3.ForAll([a, lo, hi, v], z3.And(cnt(a, lo, hi, v) >= 0, z3.Implies(hi <= lo, cnt(a, lo, hi, v) == 0)), patterns=[cnt(a, lo, hi, v)]),
 'store': z3.ForAll([a, k, x, lo, hi, v], store_rule(a, k, x, lo, hi, v), patterns=[cnt(z3.Store(a, k, x), lo, hi, v)]),
 'witness': z3.ForAll([a, lo, hi, v], z3.Implies(cnt(a, lo, hi, v) > 0, z3.And(lo <= wit(a, lo, hi, v), wit(a, lo, hi, v) < hi, z3.Select(a, wit(a, lo, hi, v)) == v)), patterns=[cnt(a, lo, hi, v)]),
 'member': z3.ForAll([a, lo, hi, v, k], z3.Implies(z3.And(lo <= k, k < hi, z3.Select(a, k) == v), cnt(a, lo, hi, v) >= 1), patterns=[z3.MultiPattern(cnt(a, lo, hi, v), z3.Select(a, k))]),
}
def split(arr, l, mid, h, vv):
    return z3.Implies(z3.And(l <= mid, mid <= h), cnt(arr, l, h, vv) == cnt(arr, l, mid, vv) + cnt(arr, mid, h, vv))
def last(arr, l, h, vv):
    """unfold the last element of [l,h)"""
    return z3.Implies(l < h, cnt(arr, l, h, vv) == cnt(arr, l, h - 1, vv) + b2i(z3.Select(arr, h - 1) == vv))
def extend(arr, l, h, vv):
    return z3.Implies(l <= h, cnt(arr, l, h + 1, vv) == cnt(arr, l, h, vv) + b2i(z3.Select(arr, h) == vv))
def first(arr, l, h, vv):
    return z3.Implies(l < h, cnt(arr, l, h, vv) == cnt(arr, l + 1, h, vv) + b2i(z3.Select(arr, l) == vv))
def same(A1, A2, l, h, vv):
    """equal on [l,h) -> equal counts"""
    d = dif(A1, A2, l, h)
    return z3.Or(cnt(A1, l, h, vv) == cnt(A2, l, h, vv), z3.And(l <= d, d < h, z3.Select(A1, d) != z3.Select(A2, d)))
def two(arr, l, h, i, j):
    """two different positions with the same value -> count at least 2"""
    return z3.Implies(z3.And(l <= i, i < j, j < h, z3.Select(arr, i) == z3.Select(arr, j)), cnt(arr, l, h, z3.Select(arr, i)) >= 2)
def two_values(arr, l, h, v1, v2):
    """occurrences of two different values fit into the range"""
    return z3.Implies(z3.And(v1 != v2, l <= h), cnt(arr, l, h, v1) + cnt(arr, l, h, v2) <= h - l)
AXIOMS = list(AX.values())
def perm(A1, A2, l, h):
    """A1 and A2 hold the same multiset of values in [l,h)"""
    vv = z3.Int('pv?')
    return z3.ForAll([vv], cnt(A1, l, h, vv) == cnt(A2, l, h, vv), patterns=[cnt(A1, l, h, vv)])

def prove_axioms():
    """derive all facts by induction on hi from cnt = if hi<=lo then 0 else cnt(lo,hi-1)+[a[hi-1]=v]; returns {name: bool}"""
    res = {}
    A0, A1 = z3.Consts('A0 A1', ARR); l, n, vv, kk, xx, mm, i, j = z3.Ints('l n vv kk xx mm i j')
    def D(arr, lo_, hi_, v_): return cnt(arr, lo_, hi_, v_) == z3.If(hi_ <= lo_, 0, cnt(arr, lo_, hi_ - 1, v_) + b2i(z3.Select(arr, hi_ - 1) == v_))
    def valid(f, *hyp):
        s = z3.Solver(); s.set('timeout', 10000)
        for h in hyp: s.add(h)
        s.add(z3.Not(f)); return s.check() == z3.unsat
    def induct(P, arrs, extra=()):
        """P(h) for all h: base h<=l by definition, step from h-1 to h for h>l"""
        base = valid(P(n), n <= l, *[D(q, l, n, vv) for q in arrs], *extra)
        step = valid(P(n), n > l, P(n - 1), *[D(q, l, n, vv) for q in arrs], *extra)
        return base and step
    res['nonneg'] = induct(lambda h: z3.And(cnt(A0, l, h, vv) >= 0, z3.Implies(h <= l, cnt(A0, l, h, vv) == 0)), [A0])
    S = z3.Store(A0, kk, xx)
    res['store'] = induct(lambda h: store_rule(A0, kk, xx, l, h, vv), [A0, S])
    # witness: by induction a witness exists; phrase with an explicit quantifier
    q = z3.Int('q')
    res['witness'] = induct(lambda h: z3.Implies(cnt(A0, l, h, vv) > 0, z3.Exists([q], z3.And(l <= q, q < h, z3.Select(A0, q) == vv))), [A0])
    nn = lambda h: cnt(A0, l, h, vv) >= 0
    res['member'] = induct(lambda h: z3.And(nn(h), z3.Implies(z3.And(l <= kk, kk < h, z3.Select(A0, kk) == vv), cnt(A0, l, h, vv) >= 1)), [A0])
    res['extend'] = valid(extend(A0, l, n, vv), D(A0, l, n + 1, vv))
    # split: induction on h >= mid, for l <= mid
    base = valid(split(A0, l, mm, n, vv), n <= mm, l <= mm, D(A0, mm, n, vv))
    step = valid(split(A0, l, mm, n, vv), n > mm, l <= mm, split(A0, l, mm, n - 1, vv), D(A0, mm, n, vv), D(A0, l, n, vv))
    res['split'] = base and step
    res['first'] = valid(first(A0, l, n, vv), split(A0, l, l + 1, n, vv), D(A0, l, l + 1, vv), D(A0, l, l, vv))
    res['last'] = valid(last(A0, l, n, vv), D(A0, l, n, vv))
    res['same'] = induct(lambda h: z3.Or(cnt(A0, l, h, vv) == cnt(A1, l, h, vv), z3.Exists([q], z3.And(l <= q, q < h, z3.Select(A0, q) != z3.Select(A1, q)))), [A0, A1])
    w = z3.Select(A0, i)
    def DD(h): return z3.And(D(A0, l, h, w))
    P = lambda h: z3.And(cnt(A0, l, h, w) >= 0, z3.Implies(z3.And(l <= i, i < h), cnt(A0, l, h, w) >= 1), z3.Implies(z3.And(l <= i, i < j, j < h, w == z3.Select(A0, j)), cnt(A0, l, h, w) >= 2))
    res['two'] = valid(P(n), n <= l, DD(n)) and valid(P(n), n > l, P(n - 1), DD(n))
    v2 = z3.Int('v2')
    res['two_values'] = valid(two_values(A0, l, l, vv, v2), D(A0, l, l, vv), D(A0, l, l, v2)) and valid(two_values(A0, l, n, vv, v2), n > l, two_values(A0, l, n - 1, vv, v2), D(A0, l, n, vv), D(A0, l, n, v2))
    return res
if __name__ == '__main__': print(prove_axioms())
