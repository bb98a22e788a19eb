"""The multiset function  mult(A, C, n, v) = sum of C[k] over k < n with A[k] = v  of a counted list, and  fresh(A, C, n, S, k) = number of
j < k whose S[j] does not occur in the counted list.  All facts given to the solver are derived from the definition in prove_axioms()."""
import z3
I = z3.IntSort(); ARR = z3.ArraySort(I, I)
mult = z3.Function('mult', ARR, ARR, I, I, I); nfresh = z3.Function('nfresh', ARR, ARR, I, ARR, I, I)
A, B, C = z3.Consts('mA? mB? mC?', ARR); n, m, x, v, k, j = z3.Ints('mn? mm? mx? mv? mk? mj?')
def b2i(c): return z3.If(c, z3.IntVal(1), z3.IntVal(0))
sel = z3.Select
def D(A, C, n, v): return mult(A, C, n, v) == z3.If(n <= 0, 0, mult(A, C, n - 1, v) + z3.If(sel(A, n - 1) == v, sel(C, n - 1), 0))
AX = {
 'empty': z3.ForAll([A, C, n, v], z3.Implies(n <= 0, mult(A, C, n, v) == 0), patterns=[mult(A, C, n, v)]),
 'store beyond the keys': z3.ForAll([A, C, n, m, x, v], z3.Implies(m >= n, mult(z3.Store(A, m, x), C, n, v) == mult(A, C, n, v)), patterns=[mult(z3.Store(A, m, x), C, n, v)]),
 'store of a count': z3.ForAll([A, C, n, m, x, v], mult(A, z3.Store(C, m, x), n, v) == mult(A, C, n, v) + z3.If(z3.And(0 <= m, m < n, sel(A, m) == v), x - sel(C, m), 0), patterns=[mult(A, z3.Store(C, m, x), n, v)]),
}
mwit = z3.Function('mwit', ARR, ARR, I, I, I)
AX['occurs'] = z3.ForAll([A, C, n, v], z3.Or(mult(A, C, n, v) == 0, z3.And(0 <= mwit(A, C, n, v), mwit(A, C, n, v) < n, sel(A, mwit(A, C, n, v)) == v)), patterns=[mult(A, C, n, v)])
AXIOMS = list(AX.values())
def step(n):
    """unfolding at the fixed length n + 1"""
    return z3.ForAll([A, C, v], z3.Implies(n >= 0, mult(A, C, n + 1, v) == mult(A, C, n, v) + z3.If(sel(A, n) == v, sel(C, n), 0)), patterns=[mult(A, C, n + 1, v)])
def positive(C, n): return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), sel(C, k) > 0), patterns=[sel(C, k)])
def ascending(A, n): return z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), sel(A, k) < sel(A, j)), patterns=[z3.MultiPattern(sel(A, k), sel(A, j))])
def at(A, C, n):
    """an ascending list holds each key with exactly its count; a key it does not hold has multiplicity 0"""
    return z3.And(z3.Implies(ascending(A, n), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), mult(A, C, n, sel(A, k)) == sel(C, k)), patterns=[sel(A, k)])),
                  z3.ForAll([v], z3.Implies(mult(A, C, n, v) != 0, z3.Exists([k], z3.And(0 <= k, k < n, sel(A, k) == v))), patterns=[mult(A, C, n, v)]))
def nstep(A, C, n, S, k): return nfresh(A, C, n, S, k + 1) == nfresh(A, C, n, S, k) + b2i(mult(A, C, n, sel(S, k)) == 0)
def nmono(A, C, n, S, k, m): return z3.And(nfresh(A, C, n, S, 0) == 0, z3.Implies(z3.And(0 <= k, k <= m), z3.And(nfresh(A, C, n, S, k) >= 0, nfresh(A, C, n, S, k) <= nfresh(A, C, n, S, m), nfresh(A, C, n, S, k) <= k)))
def absent(A, C, n, v): return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), sel(A, k) != v), patterns=[sel(A, k)]), mult(A, C, n, v) == 0)
def prove_axioms():
    res = {}
    A0, A1, C0, S0 = z3.Consts('A0 A1 C0 S0', ARR); N, M, X, V, Q, K_ = z3.Ints('N M X V Q K_')
    def valid(f, *hyp):
        s = z3.Solver(); s.set('timeout', 10000); s.add(*hyp); s.add(z3.Not(f)); return s.check() == z3.unsat
    def ind(P, *defs): return valid(P(N), N <= 0, *[d(N) for d in defs]) and valid(P(N), N > 0, P(N - 1), *[d(N) for d in defs])
    d = lambda A, C, v=V: lambda n: D(A, C, n, v)
    res['mult: empty'] = valid(z3.Implies(N <= 0, mult(A0, C0, N, V) == 0), D(A0, C0, N, V))
    T = z3.Store(A0, M, X); U = z3.Store(C0, M, X)
    res['mult: store beyond the keys'] = ind(lambda n: z3.Implies(M >= n, mult(T, C0, n, V) == mult(A0, C0, n, V)), d(T, C0), d(A0, C0))
    res['mult: store of a count'] = ind(lambda n: mult(A0, U, n, V) == mult(A0, C0, n, V) + z3.If(z3.And(0 <= M, M < n, sel(A0, M) == V), X - sel(C0, M), 0), d(A0, U), d(A0, C0))
    res['mult: step'] = valid(z3.Implies(N >= 0, mult(A0, C0, N + 1, V) == mult(A0, C0, N, V) + z3.If(sel(A0, N) == V, sel(C0, N), 0)), D(A0, C0, N + 1, V))
    w = sel(A0, Q); asc = lambda n: z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), sel(A0, k) < sel(A0, j)))
    less = lambda n: z3.Implies(z3.And(asc(n), Q >= n), mult(A0, C0, n, V) == 0)
    # a key larger than all keys below n has multiplicity 0 there
    res['mult: absent'] = ind(lambda n: z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), sel(A0, k) != V)), mult(A0, C0, n, V) == 0), d(A0, C0))
    ab = z3.ForAll([v, n], z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), sel(A0, k) != v)), mult(A0, C0, n, v) == 0))
    res['mult: at'] = ind(lambda n: z3.Implies(z3.And(asc(n), 0 <= Q, Q < n), mult(A0, C0, n, w) == sel(C0, Q)), d(A0, C0, w), lambda n: z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n - 1), sel(A0, k) != w)), mult(A0, C0, n - 1, w) == 0))
    res['mult: occurs'] = ind(lambda n: z3.Implies(mult(A0, C0, n, V) != 0, z3.Exists([k], z3.And(0 <= k, k < n, sel(A0, k) == V))), d(A0, C0))
    F = lambda n: nfresh(A0, C0, K_, S0, n); dn = lambda n: F(n) == z3.If(n <= 0, 0, F(n - 1) + b2i(mult(A0, C0, K_, sel(S0, n - 1)) == 0))
    res['nfresh: step'] = valid(z3.Implies(N >= 0, nstep(A0, C0, K_, S0, N)), dn(N + 1))
    P = lambda n: z3.And(F(n) >= 0, z3.Implies(n >= 0, F(n) <= n), z3.Implies(n <= M, F(n) >= 0))
    res['nfresh: bounds'] = ind(P, dn)
    G = lambda n: z3.Implies(z3.And(0 <= M, M <= n), F(M) <= F(n))
    res['nfresh: monotone'] = ind(G, dn, lambda n: F(M) == F(M))
    return res
if __name__ == '__main__': print(prove_axioms())
