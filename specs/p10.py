"""P10: packing a state into words (state2Int)."""
import z3
from lib import *
TU = '#include "VisitedList.cpp"\n' 
FLAGS = ['-I$REPO/src/search', '-I$REPO/src/heuristics']
CONTRACTS = []; add = CONTRACTS.append
I = z3.IntSort()
bit = z3.Function('bit64', I, I, z3.BoolSort())          # bit i of the 64-bit pattern of x
orf = z3.Function('or_64', I, I, I); pow2 = z3.Function('pow2', I, I)
x, y, p, i = Ints('bx? by? bp? bi?')
AXIOMS = [ForAll([i], Not(bit(0, i)), patterns=[bit(0, i)]),
          ForAll([x, p, i], Implies(And(0 <= p, p < 64, 0 <= i, i < 64), bit(orf(x, pow2(p)), i) == Or(bit(x, i), i == p)), patterns=[bit(orf(x, pow2(p)), i)])]
def prove_lemmas():
    """the axioms above, on real 64-bit words"""
    X, P, N = z3.BitVecs('X P N', 64); one = z3.BitVecVal(1, 64); b = lambda v, n: z3.Extract(0, 0, z3.LShR(v, n)) == 1
    r = []
    for nm, f in [('zero', z3.Implies(z3.ULT(N, 64), z3.Not(b(z3.BitVecVal(0, 64), N)))), ('set bit', z3.Implies(z3.And(z3.ULT(P, 64), z3.ULT(N, 64)), b(X | (one << P), N) == z3.Or(b(X, N), N == P)))]:
        s = z3.Solver(); s.add(z3.Not(f)); r.append((nm, s.check() == z3.unsat))
    # the packed words determine the state: two words with the same bits are equal
    Y = z3.BitVec('Y', 64); s = z3.Solver(); s.add(X != Y); s.add([b(X, z3.BitVecVal(k, 64)) == b(Y, z3.BitVecVal(k, 64)) for k in range(64)]); r.append(('extensional', s.check() == z3.unsat))
    return r
def val(s, st, k): return Select(s.varr(st, 'i8'), k) != 0
def packed(s, W, st, upto):
    """words of W below `upto` facts hold exactly the truth values"""
    return ForAll([K], Implies(And(0 <= K, K < upto), bit(Select(W, K / 64), K % 64) == val(s, st, K)), patterns=[Select(s.varr(st, 'i8'), K)])
def inv(s):
    st = s.args[1]; n = s.iter(); pos, cur = s.local('pos'), s.ver.named(s.local('cur'), True); v = s.local('vec'); W = s.varr(v, 'i64')
    return [('position', And(0 <= n, n <= s.vlen(st), pos == n % 64, s.vlen(v) == n / 64)),
            ('full words', ForAll([K], Implies(And(0 <= K, K < n - pos), bit(Select(W, K / 64), K % 64) == val(s, st, K)), patterns=[Select(s.varr(st, 'i8'), K)])),
            ('current word', ForAll([J], Implies(And(0 <= J, J < 64), bit(cur, J) == And(J < pos, val(s, st, n - pos + J))), patterns=[bit(cur, J)]))]
NM = 'state2Int(std::vector<bool, std::allocator<bool> >&)'
def post(s, rv, out, st):
    n = s.vlen(st); vec = s.ret(out, NM, 0); pad = s.ret(out, NM, 1); W = s.varr(vec, 'i64'); m = s.vlen(vec)
    return [('number of words', And(m == (n + 63) / 64, 64 * m == n + pad, 0 <= pad, pad < 64)),
            ('every fact in its own bit', packed(s, W, st, n)),
            ('padding bits are zero', ForAll([J], Implies(And(64 - pad <= J, J < 64), Not(bit(Select(W, m - 1), J))), patterns=[bit(Select(W, m - 1), J)])),
            ('state unchanged', And(s.vlen(st) == s.old.vlen(st), ForAll([K], Implies(And(0 <= K, K < n), Select(s.varr(st, 'i8'), K) == Select(s.old.varr(st, 'i8'), K)), patterns=[Select(s.varr(st, 'i8'), K)])))]
add(Contract(NM, requires=lambda s, out, st: [('separate', And(out.obj > 0, s.ver.root(st.obj) != out.obj))], ensures=post, modifies=lambda s, out, st: [('VLEN', s.ret(out, NM, 0)), ('i64', s.vdata(s.ret(out, NM, 0))), (('F', s.ver.mod.funcs[s.ver.mod.bydem[NM][0]].sret, 1), out)], allocs=True, loops={0: Loop(inv, variant=lambda s: s.vlen(s.args[1]) - s.iter())}))
