"""sumf(r, v, n) = sum over k < n of v[r[k]]: the sum of the values v of the entries of a list r.  All facts follow from the recursive
definition by induction on n (prove)."""
import z3
I = z3.IntSort(); ARR = z3.ArraySort(I, I)
sumf = z3.Function('sumf', ARR, ARR, I, I)
dif = z3.Function('sumfd', ARR, ARR, ARR, I, I); neg = z3.Function('sumfn', ARR, ARR, I, I); low = z3.Function('sumfl', ARR, ARR, ARR, I, I)
at = lambda r, v, k: z3.Select(v, z3.Select(r, k))
def extend(r, v, n): return z3.And(sumf(r, v, z3.IntVal(0)) == 0, z3.Implies(n >= 0, sumf(r, v, n + 1) == sumf(r, v, n) + at(r, v, n)))
def same(r, v, w, n):
    """equal values of all entries -> equal sums"""
    d = dif(r, v, w, n); return z3.Or(sumf(r, v, n) == sumf(r, w, n), z3.And(0 <= d, d < n, at(r, v, d) != at(r, w, d)))
def term(r, v, n, k):
    """non-negative values -> every term is at most the sum"""
    d = neg(r, v, n); return z3.Or(z3.And(0 <= d, d < n, at(r, v, d) < 0), z3.And(sumf(r, v, n) >= 0, z3.Implies(z3.And(0 <= k, k < n), at(r, v, k) <= sumf(r, v, n))))
def mono(r, v, w, n):
    """pointwise v <= w -> sums ordered"""
    d = low(r, v, w, n); return z3.Or(sumf(r, v, n) <= sumf(r, w, n), z3.And(0 <= d, d < n, at(r, v, d) > at(r, w, d)))
def prove():
    r, v, w = z3.Consts('r v w', ARR); n, k, q = z3.Ints('n k q'); res = {}
    D = lambda V: z3.And(sumf(r, V, 0) == 0, z3.Implies(n >= 0, sumf(r, V, n + 1) == sumf(r, V, n) + at(r, V, n)), z3.Implies(n < 0, z3.BoolVal(True)))
    def induct(P, *V):
        def valid(f, *h):
            s = z3.Solver(); s.set('timeout', 10000); s.add(*h); s.add(*[D(x) for x in V]); s.add(z3.Not(f)); return s.check() == z3.unsat
        return valid(P(z3.IntVal(0))) and valid(P(n + 1), n >= 0, P(n))
    res['equal values, equal sums (induction)'] = induct(lambda m: z3.Or(sumf(r, v, m) == sumf(r, w, m), z3.Exists([q], z3.And(0 <= q, q < m, at(r, v, q) != at(r, w, q)))), v, w)
    res['terms are at most the sum of non-negative values (induction)'] = induct(lambda m: z3.Or(z3.Exists([q], z3.And(0 <= q, q < m, at(r, v, q) < 0)), z3.And(sumf(r, v, m) >= 0, z3.Implies(z3.And(0 <= k, k < m), at(r, v, k) <= sumf(r, v, m)))), v)
    res['smaller values, smaller sums (induction)'] = induct(lambda m: z3.Or(sumf(r, v, m) <= sumf(r, w, m), z3.Exists([q], z3.And(0 <= q, q < m, at(r, v, q) > at(r, w, q)))), v, w)
    return res
if __name__ == '__main__': print(prove())
