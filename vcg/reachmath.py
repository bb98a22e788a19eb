"""pc(r, P, n) = |{j < n : P[r[j]]}|: how many entries of a list belong to a set, and the facts about it given to the solver; proved by
induction over n in prove()."""
import z3
import cntmath as M
from cntmath import cnt
I = z3.IntSort(); ARR = M.ARR; SET = z3.ArraySort(I, z3.BoolSort())
pc = z3.Function('pc', ARR, SET, I, I); out = z3.Function('pcout', ARR, SET, I, I)
r = z3.Const('pr?', ARR); P = z3.Const('pP?', SET); n, f, j = z3.Ints('pn? pf? pj?')
b2i = M.b2i; T = z3.BoolVal(True)
AX = {
 'range': z3.ForAll([r, P, n], z3.And(0 <= pc(r, P, n), pc(r, P, n) <= z3.If(n >= 0, n, 0)), patterns=[pc(r, P, n)]),
 'none out': z3.ForAll([r, P, n, j], z3.Implies(z3.And(pc(r, P, n) == n, 0 <= j, j < n), z3.Select(P, z3.Select(r, j))), patterns=[z3.MultiPattern(pc(r, P, n), z3.Select(r, j))]),
 'some out': z3.ForAll([r, P, n], z3.Implies(pc(r, P, n) < n, z3.And(0 <= out(r, P, n), out(r, P, n) < n, z3.Not(z3.Select(P, z3.Select(r, out(r, P, n)))))), patterns=[pc(r, P, n)]),
 'add': z3.ForAll([r, P, n, f], z3.Implies(z3.Not(z3.Select(P, f)), pc(r, z3.Store(P, f, T), n) == pc(r, P, n) + cnt(r, 0, n, f)), patterns=[pc(r, z3.Store(P, f, T), n)]),
 'empty': z3.ForAll([r, n], pc(r, z3.K(I, z3.BoolVal(False)), n) == 0, patterns=[pc(r, z3.K(I, z3.BoolVal(False)), n)]),
}
AXIOMS = list(AX.values())
def ext(A, B):
    """arrays that agree everywhere are equal"""
    x = z3.Int('px?'); return z3.Implies(z3.ForAll([x], z3.Select(A, x) == z3.Select(B, x), patterns=[z3.Select(A, x)]), A == B)
def prove():
    R = z3.Const('R', ARR); Q = z3.Const('Q', SET); N, F, J, q = z3.Ints('N F J q')
    def D(S, h): return pc(R, S, h) == z3.If(h <= 0, 0, pc(R, S, h - 1) + b2i(z3.Select(S, z3.Select(R, h - 1))))
    def C(h): return cnt(R, 0, h, F) == z3.If(h <= 0, 0, cnt(R, 0, h - 1, F) + b2i(z3.Select(R, h - 1) == F))
    def valid(g, *hyp):
        s = z3.Solver(); s.set('timeout', 10000); s.add(*hyp); s.add(z3.Not(g)); return s.check() == z3.unsat
    def induct(G, *ds): return valid(G(N), N <= 0, *[d(N) for d in ds]) and valid(G(N), N > 0, G(N - 1), *[d(N) for d in ds])
    dq = lambda h: D(Q, h); S = z3.Store(Q, F, T); ds = lambda h: D(S, h); E = z3.K(I, z3.BoolVal(False)); de = lambda h: D(E, h)
    rg = lambda h: z3.And(0 <= pc(R, Q, h), pc(R, Q, h) <= z3.If(h >= 0, h, 0))
    res = {'range': induct(rg, dq),
           'none out': induct(lambda h: z3.And(rg(h), z3.Implies(z3.And(pc(R, Q, h) == h, 0 <= J, J < h), z3.Select(Q, z3.Select(R, J)))), dq),
           'some out': induct(lambda h: z3.And(rg(h), z3.Implies(pc(R, Q, h) < h, z3.Exists([q], z3.And(0 <= q, q < h, z3.Not(z3.Select(Q, z3.Select(R, q))))))), dq),
           'add': induct(lambda h: z3.Implies(z3.Not(z3.Select(Q, F)), pc(R, S, h) == pc(R, Q, h) + cnt(R, 0, h, F)), dq, ds, C),
           'empty': induct(lambda h: pc(R, E, h) == 0, de)}
    A, B = z3.Consts('A B', SET); s = z3.Solver(); s.add(z3.Not(ext(A, B))); res['extensionality'] = s.check() == z3.unsat
    return {'pc: ' + k: v for k, v in res.items()}
if __name__ == '__main__': print(prove())
