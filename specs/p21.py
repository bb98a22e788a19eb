"""P21: propositional building blocks.  T is an arbitrary assignment; the clause database is the pair (all finished clauses hold under T, the
clause being written has a true literal).  Every contract therefore speaks about every assignment."""
from lib import *
TU = '#include "sat/sat_encoder.cpp"\n'
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
T = z3.Function('T', I, B)                         # literal -> truth value under the assignment
l_ = Int('l?'); n_, x_, k_ = Ints('n? x? k?'); A_ = z3.Const('A?', z3.ArraySort(I, I))
pow2 = z3.Function('pow2', I, I); bit = z3.Function('bit', I, I, B)
and64 = z3.Function('and_64', I, I, I)
flog = z3.Function('fp_log', R, R); fceil = z3.Function('fp_ceil', R, R)
cT = z3.Function('cT', z3.ArraySort(I, I), I, I)   # number of true literals among the first n
lay = z3.Function('lay', I, I, I, I)               # first variable of layer x of a counter for K starting after variable nv
nv_, K_ = Ints('nv? K?')
V = z3.Function('V', I, B)                         # variable -> truth value
AXIOMS = [ForAll([l_], T(l_) == If(l_ > 0, V(l_), Not(V(-l_))), patterns=[T(l_)])]
CNT_DEF = [ForAll([A_], cT(A_, IntVal(0)) == 0, patterns=[cT(A_, IntVal(0))]), ForAll([A_, n_], Implies(n_ >= 0, cT(A_, n_ + 1) == cT(A_, n_) + b2i(T(Select(A_, n_)))), patterns=[cT(A_, n_ + 1)])]
LAY_DEF = [ForAll([nv_, K_], lay(nv_, K_, IntVal(0)) == nv_ + 1, patterns=[lay(nv_, K_, IntVal(0))]), ForAll([nv_, K_, n_], Implies(n_ >= 0, lay(nv_, K_, n_ + 1) == lay(nv_, K_, n_) + K_ + 2), patterns=[lay(nv_, K_, n_ + 1)])]
# bits of a number: definition, agreement with the machine operators, and injectivity (prove_lemmas)
inj = lambda a, c, m: Implies(And(0 <= a, a < pow2(m), 0 <= c, c < pow2(m), a != c), And(0 <= dif(a, c, m), dif(a, c, m) < m, bit(a, dif(a, c, m)) != bit(c, dif(a, c, m))))
dif = z3.Function('difbit', I, I, I, I)            # witness: a position below m where a and c differ
a_, c_, m_ = Ints('a? c? m?')
BITS = [ForAll([a_, c_, m_], Implies(m_ >= 0, inj(a_, c_, m_)), patterns=[dif(a_, c_, m_)]),
        ForAll([a_, m_], Implies(And(0 <= a_, a_ < 2 ** 31, 0 <= m_, m_ < 31), (and64(a_, pow2(m_)) != 0) == bit(a_, m_)), patterns=[and64(a_, pow2(m_))])]
def bitsof(n): v = fceil(flog(z3.ToReal(n)) / flog(z3.RealVal(2))); return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
FLOG = [ForAll([n_], Implies(And(n_ >= 2, n_ <= 2 ** 30), And(bitsof(n_) >= 1, bitsof(n_) <= 30, n_ <= pow2(bitsof(n_)))), patterns=[flog(z3.ToReal(n_))])]
MONO = [ForAll([nv_, K_, n_], Implies(And(n_ >= 0, K_ >= 0), lay(nv_, K_, n_) >= nv_ + 1), patterns=[lay(nv_, K_, n_)]), ForAll([A_, n_, x_], Implies(And(0 <= n_, n_ <= x_), cT(A_, n_) <= cT(A_, x_)), patterns=[z3.MultiPattern(cT(A_, n_), cT(A_, x_))])]
touch = z3.Function('touch', I, B)                 # always true: makes a term known to the instantiation of quantified facts
def prove_lemmas():
    r = {}
    # the recursive definition: bit(a,0) = a mod 2, bit(a,m+1) = bit(a div 2, m); pow2(0)=1, pow2(m+1)=2*pow2(m).  Injectivity by induction on m.
    s = z3.Solver(); s.set('timeout', 20000); m, a, c = Ints('m a c'); P = z3.Function('P', I, I); bt = z3.Function('bt', I, I, B)
    defs = [P(0) == 1, P(m + 1) == 2 * P(m), P(m) >= 1, ForAll([a_], bt(a_, 0) == (a_ % 2 == 1), patterns=[bt(a_, 0)]), ForAll([a_], bt(a_, m + 1) == bt(a_ / 2, m), patterns=[bt(a_, m + 1)])]
    d = Int('d')
    ex = lambda x, y, mm: Exists([k_], And(0 <= k_, k_ < mm, bt(x, k_) != bt(y, k_)))
    # step: from a difference of the halves below m, or of the last bit, obtain a difference below m+1
    step = [ForAll([a_, k_], Implies(k_ >= 0, bt(a_, k_ + 1) == bt(a_ / 2, k_)), patterns=[bt(a_ / 2, k_)])]
    s.add(m >= 0, *defs, *step, 0 <= a, a < P(m + 1), 0 <= c, c < P(m + 1), a != c)
    s.add(Implies(a / 2 != c / 2, And(0 <= d, d < m, bt(a / 2, d) != bt(c / 2, d))), And(a / 2 < P(m), c / 2 < P(m)) if 0 else BoolVal(True))
    # induction hypothesis needs a/2, c/2 < P(m), shown separately
    s2 = z3.Solver(); s2.add(0 <= a, a < 2 * P(m), Not(And(0 <= a / 2, a / 2 < P(m)))); ok2 = s2.check() == z3.unsat
    s.add(Not(Or(And(0 < m + 1, bt(a, 0) != bt(c, 0)), And(0 <= d + 1, d + 1 < m + 1, bt(a, d + 1) != bt(c, d + 1)))))
    r['difference of numbers below 2^m shows in a bit below m (induction)'] = ok2 and s.check() == z3.unsat
    ok = True                                    # machine operators: for every bit position, i & (1 << b) is zero iff the bit is clear
    x = z3.BitVec('x', 64)
    for i in range(31):
        q = z3.Solver(); q.add(z3.UGE(x, 0), z3.ULT(x, 2 ** 31)); q.add(((x & z3.BitVecVal(1 << i, 64)) != 0) != (z3.Extract(0, 0, z3.LShR(x, i)) == 1)); ok = ok and q.check() == z3.unsat
    r['i & (1 << b) tests bit b'] = ok
    q = z3.Solver(); n, x = Ints('n x'); A = z3.Const('A', z3.ArraySort(I, I)); q.add(0 <= n, n <= x, cT(A, n) <= cT(A, x), cT(A, x + 1) == cT(A, x) + b2i(T(Select(A, x))), Not(cT(A, n) <= cT(A, x + 1)))
    r['number of true literals of a prefix is monotone (induction on the longer prefix)'] = q.check() == z3.unsat
    q = z3.Solver(); q.add(K_ >= 0, n >= 0, lay(nv_, K_, n) >= nv_ + 1, lay(nv_, K_, n + 1) == lay(nv_, K_, n) + K_ + 2, Not(lay(nv_, K_, n + 1) >= nv_ + 1)); r['layers of counter variables are new (induction)'] = q.check() == z3.unsat
    import math                                  # the floating point expression, at the only places where it can go wrong (it is monotone in n)
    r['ceil(log(n)/log(2)) bits number n values (n up to 2^30, checked at and next to all powers of two)'] = all(1 <= math.ceil(math.log(v) / math.log(2)) <= 30 and v <= 2 ** math.ceil(math.log(v) / math.log(2)) for e in range(1, 31) for v in (2 ** e - 1, 2 ** e, 2 ** e + 1) if 2 <= v <= 2 ** 30)
    return r
def rmodel(nm, uf):
    import re
    class Rx:
        def __init__(s, p): s.pattern = p; s.rx = re.compile(p)
        def match(s, d): return s.rx.match(d)
    return (Rx(nm), uf)
def m_fun(f, lem=None):
    def g(ver, st, d, args, ins, m):
        r = f(args[0]); return r
    return g
MODELS = [rmodel(r'^log$', m_fun(flog)), rmodel(r'^ceil$', m_fun(fceil))]
OPTS = {'ghost': {'sat': B, 'open': B}}
CONTRACTS = []; add = CONTRACTS.append
sat = lambda s: s.g('sat'); opn = lambda s: s.g('open')
closed = lambda s: [('no clause is open', Not(opn(s)))]
nz = lambda *ls: [('variables are not 0', And(*[l != 0 for l in ls]))]
def says(s, f): return [('exactly the stated condition is added', sat(s) == And(sat(s.old), f)), ('no clause is open', Not(opn(s)))]
GM = dict(ghost_mod=('sat', 'open'))
ASSUMED = [Contract('ipasir_add', assumed=True, ensures=lambda s, rv, sol, l: [If(l == 0, And(sat(s) == And(sat(s.old), opn(s.old)), Not(opn(s))), And(sat(s) == sat(s.old), opn(s) == Or(opn(s.old), T(l))))], **GM)]
# sat and open are ghost variables of the model of the solver
CL = dict(ghost_mod=('sat', 'open'), globals_mod=('number_of_clauses',))
vec = lambda s, v: s.varr(v)
allnz = lambda s, v: [('variables are not 0', all_in(vec(s, v), 0, s.vlen(v), lambda k, x: x != 0))]
def some(A, hi, neg=False): return Exists([K], And(0 <= K, K < hi, Not(T(Select(A, K))) if neg else T(Select(A, K))))
def some_true(s, v): return some(vec(s, v), s.vlen(v))
def none(A, hi): return ForAll([K], Implies(And(0 <= K, K < hi), Not(T(Select(A, K)))), patterns=[Select(A, K)])
one = lambda nm, f: add(Contract(nm, requires=lambda s, sol, i: closed(s) + nz(i), ensures=lambda s, rv, sol, i: says(s, f(i)), **CL))
one('assertYes(void*, int)', lambda i: T(i)); one('assertNot(void*, int)', lambda i: Not(T(i)))
two = lambda nm, f: add(Contract(nm, requires=lambda s, sol, i, j: closed(s) + nz(i, j), ensures=lambda s, rv, sol, i, j: says(s, f(i, j)), **CL))
two('implies(void*, int, int)', lambda i, j: Implies(T(i), T(j))); two('impliesNot(void*, int, int)', lambda i, j: Implies(T(i), Not(T(j))))
thr = lambda nm: add(Contract(nm, requires=lambda s, sol, i, j, k: closed(s) + nz(i, j, k), ensures=lambda s, rv, sol, i, j, k: says(s, Implies(And(T(i), T(j)), T(k))), **CL))
thr('impliesAnd(void*, int, int, int)'); thr('andImplies(void*, int, int, int)')
V_ = 'std::vector<int, std::allocator<int> >&'
it = lambda s: s.iter()
rng = lambda s, v: And(0 <= it(s), it(s) <= s.vlen(v))
add(Contract('impliesOr(void*, int, %s)' % V_, requires=lambda s, sol, i, v: closed(s) + nz(i) + allnz(s, v), ensures=lambda s, rv, sol, i, v: says(s, Implies(T(i), some_true(s, v))),
    loops={0: Loop(lambda s: [rng(s, s.args[2]), sat(s) == sat(s.old), opn(s) == Or(Not(T(s.args[1])), some(vec(s, s.args[2]), it(s)))], variant=lambda s: s.vlen(s.args[2]) - it(s))}, **CL))
add(Contract('impliesPosAndNegImpliesOr(void*, int, int, %s)' % V_, requires=lambda s, sol, i, j, v: closed(s) + nz(i, j) + allnz(s, v), ensures=lambda s, rv, sol, i, j, v: says(s, Implies(And(T(i), Not(T(j))), some_true(s, v))),
    loops={0: Loop(lambda s: [rng(s, s.args[3]), sat(s) == sat(s.old), opn(s) == Or(Not(T(s.args[1])), T(s.args[2]), some(vec(s, s.args[3]), it(s)))], variant=lambda s: s.vlen(s.args[3]) - it(s))}, **CL))
for nm, pre in (('impliesAllNot', lambda i: T(i)), ('notImpliesAllNot', lambda i: Not(T(i)))):
    add(Contract('%s(void*, int, %s)' % (nm, V_), requires=lambda s, sol, i, v: closed(s) + nz(i) + allnz(s, v), ensures=lambda s, rv, sol, i, v, pre=pre: says(s, Implies(pre(i), none(vec(s, v), s.vlen(v)))),
        loops={0: Loop(lambda s, pre=pre: [rng(s, s.args[2]), Not(opn(s)), sat(s) == And(sat(s.old), Implies(pre(s.args[1]), none(vec(s, s.args[2]), it(s))))], variant=lambda s: s.vlen(s.args[2]) - it(s))}, **CL))
add(Contract('atLeastOne(void*, sat_capsule&, %s)' % V_, requires=lambda s, sol, c, v: closed(s) + allnz(s, v), ensures=lambda s, rv, sol, c, v: says(s, some_true(s, v)),
    loops={0: Loop(lambda s: [rng(s, s.args[2]), sat(s) == sat(s.old), opn(s) == some(vec(s, s.args[2]), it(s))], variant=lambda s: s.vlen(s.args[2]) - it(s))}, **CL))
# sets of variables
S_ = 'std::set<int, std::less<int>, std::allocator<int> >'
mem = lambda s, p, x: Select(s.smem(p), x)
snz = lambda s, p: [('variables are not 0', Not(mem(s, p, IntVal(0))))]
from models import s_en, s_card
def someneg(s, p, hi): S = s.smem(p); return Exists([K], And(0 <= K, K < hi, Not(T(s_en(S, K)))))
def all_true(s, p): return ForAll([K], Implies(mem(s, p, K), T(K)), patterns=[mem(s, p, K)])
add(Contract('andImplies(void*, %s, int)' % S_, requires=lambda s, sol, p, j: closed(s) + nz(j) + snz(s, p), ensures=lambda s, rv, sol, p, j: says(s, Implies(all_true(s, p), T(j))),
    loops={0: Loop(lambda s: [And(0 <= it(s), it(s) <= s_card(s.smem(s.args[1]))), sat(s) == sat(s.old), opn(s) == someneg(s, s.args[1], it(s))], variant=lambda s: s_card(s.smem(s.args[1])) - it(s))}, **CL))
add(Contract('notAll(void*, %s)' % S_, requires=lambda s, sol, p: closed(s) + snz(s, p), ensures=lambda s, rv, sol, p: says(s, Not(all_true(s, p))),
    loops={0: Loop(lambda s: [And(0 <= it(s), it(s) <= s_card(s.smem(s.args[1]))), sat(s) == sat(s.old), opn(s) == someneg(s, s.args[1], it(s))], variant=lambda s: s_card(s.smem(s.args[1])) - it(s))}, **CL))
# variables
NV = lambda s, c: s.f(c, 'sat_capsule.number_of_variables')
add(Contract('sat_capsule::sat_capsule()', requires=lambda s, c: [c.obj > 0], ensures=lambda s, rv, c: [('no variable yet', NV(s, c) == 0)], modifies=lambda s, c: [('sat_capsule.number_of_variables', c)]))
add(Contract('sat_capsule::new_variable()', ensures=lambda s, rv, c: [('the next number', And(rv == NV(s.old, c) + 1, NV(s, c) == rv))], modifies=lambda s, c: [('sat_capsule.number_of_variables', c)]))
# at most one
def pairs(A, P): return ForAll([J, K], Implies(And(0 <= J, J < K, P(J, K)), Or(Not(T(Select(A, J))), Not(T(Select(A, K))))), patterns=[z3.MultiPattern(Select(A, J), Select(A, K))])
def amo(A, n): return pairs(A, lambda j, k: k < n)
def b0(s):
    v = s.args[2]; i, n = s.local('i'), s.vlen(v)
    return [And(0 <= i, Or(i == 0, i <= n)), Not(opn(s)), sat(s) == And(sat(s.old), pairs(vec(s, v), lambda j, k: And(k < n, j < i)))]
def b1(s):
    v = s.args[2]; i, j0, n = s.local('i'), s.local('j'), s.vlen(v)
    return [And(0 <= i, i < j0, j0 <= n, s.local('ii') == Select(vec(s, v), i), i == s.outer().local('i')), Not(opn(s)), sat(s) == And(sat(s.old), pairs(vec(s, v), lambda j, k: And(k < n, Or(j < i, And(j == i, k < j0)))))]
add(Contract('atMostOneBinomial(void*, sat_capsule&, %s)' % V_, requires=lambda s, sol, c, v: closed(s) + allnz(s, v), ensures=lambda s, rv, sol, c, v: says(s, amo(vec(s, v), s.vlen(v))),
    loops={0: Loop(b0, variant=lambda s: s.vlen(s.args[2]) - s.local('i')), 1: Loop(b1, variant=lambda s: s.vlen(s.args[2]) - s.local('j'))}, **CL))
old_vars = lambda s, c, v: [('variables exist', And(NV(s, c) >= 0, s.vlen(v) <= 2 ** 30, all_in(vec(s, v), 0, s.vlen(v), lambda k, x: And(x != 0, x <= NV(s, c), -x <= NV(s, c)))))]
def coded(s, i, b): v = s.args[2]; return Implies(T(Select(vec(s, v), i)), T(NV(s.old, s.args[1]) + 1 + b) == Not(bit(i, b)))
def allcoded(s, P): return ForAll([J, K], Implies(P(J, K), coded(s, J, K)), patterns=[z3.MultiPattern(Select(vec(s, s.args[2]), J), bit(J, K))])
def choice(s): return allcoded(s, lambda i, b: And(0 <= i, i < s.vlen(s.args[2]), 0 <= b, b < NV(s, s.args[1]) - NV(s.old, s.args[1])))
def known_bits(s):
    """the code written so far covers exactly: choice restricted to P"""
    return NV(s, s.args[1]) == NV(s.old, s.args[1]) + s.local('bits')
def a1(s):
    v = s.args[2]; i = s.local('i')
    return [And(0 <= i, i <= s.vlen(v)), known_bits(s), Not(opn(s)), s.local('baseVar') == NV(s.old, s.args[1]) + 1, sat(s) == And(sat(s.old), allcoded(s, lambda x, b: And(0 <= x, x < i, 0 <= b, b < s.local('bits'))))]
def a2(s):
    v = s.args[2]; i = s.local('i'); b = s.local('b')
    return [And(0 <= i, i < s.vlen(v), 0 <= b, b <= s.local('bits'), i == s.outer().local('i')), known_bits(s), Not(opn(s)), s.local('baseVar') == NV(s.old, s.args[1]) + 1, sat(s) == And(sat(s.old), allcoded(s, lambda x, c: And(0 <= x, 0 <= c, c < s.local('bits'), Or(x < i, And(x == i, c < b)))))]
def hint(s, rv):
    v = s.args[2]
    try: m = s.local('bits')
    except Exception: return
    s.ver.assume(s.st, ForAll([J, K], touch(dif(J, K, m)), patterns=[z3.MultiPattern(Select(vec(s, v), J), Select(vec(s, v), K))]))
add(Contract('atMostOne(void*, sat_capsule&, %s)' % V_, requires=lambda s, sol, c, v: closed(s) + old_vars(s, c, v),
    ensures=lambda s, rv, sol, c, v: [('no clause is open', Not(opn(s))), ('only new variables', NV(s, c) >= NV(s.old, c)), ('at most one is true', Implies(sat(s), And(sat(s.old), amo(vec(s, v), s.vlen(v))))),
        ('every choice of at most one is possible', Implies(And(sat(s.old), amo(vec(s, v), s.vlen(v)), choice(s)), sat(s)))],
    modifies=lambda s, sol, c, v: [('sat_capsule.number_of_variables', c)], axioms=BITS + FLOG, pre_return=hint,
    loops={0: Loop(lambda s: [NV(s, s.args[1]) == NV(s.old, s.args[1]) + s.local('b'), And(1 <= s.local('b'), s.local('b') <= s.local('bits'))], variant=lambda s: s.local('bits') - s.local('b')), 1: Loop(a1, variant=lambda s: s.vlen(s.args[2]) - s.local('i')), 2: Loop(a2, variant=lambda s: s.local('bits') - s.local('b'))}, **CL))
# at most K
cntT = lambda s, n: cT(vec(s, s.args[3]), n)
L = lambda s, x: lay(NV(s.old, s.args[1]), s.args[2], x)
def layers(s, n): vs = s.local('vars'); return [('layers', And(s.vlen(vs) == n, all_in(s.varr(vs), 0, n, lambda k, x: x == L(s, k))))]
q = IntVal(0)
hit = z3.Function('hit', I, I, B)                    # always true: names the counter variables used in an argument
def hits(s): i, j, m = s.local('i'), s.local('j'), s.args[2]; return [hit(i, j), hit(i, j - 1), hit(i + 1, j), hit(i + 1, j - 1), hit(i + 1, m + 1)]
def counter(s):
    """the counter variables mean: at least j of the first x literals are true"""
    return ForAll([J, K], Implies(And(0 <= J, J <= s.vlen(s.args[3]), 0 <= K, K <= s.args[2] + 1), T(L(s, J) + K) == (cntT(s, J) >= K)), patterns=[hit(J, K), T(L(s, J) + K)])
def okB(s): return Implies(And(sat(s.old), cntT(s, s.vlen(s.args[3])) <= s.args[2], counter(s)), sat(s))
rest = lambda s: [Not(opn(s))]
k0 = lambda s: [And(0 <= s.local('x'), s.local('x') <= s.vlen(s.args[3])), NV(s, s.args[1]) == L(s, s.local('x')) - 1] + layers(s, s.local('x'))
k1 = lambda s: [And(0 <= s.local('x'), s.local('x') < s.vlen(s.args[3]), s.local('x') == s.outer().local('x'), 1 <= s.local('i'), s.local('i') <= s.args[2] + 2), NV(s, s.args[1]) == L(s, s.local('x')) + s.local('i') - 1, s.local('base') == L(s, s.local('x'))] + layers(s, s.local('x') + 1)
k2 = lambda s: [And(1 <= s.local('i'), s.local('i') <= s.args[2] + 2), NV(s, s.args[1]) == L(s, s.vlen(s.args[3])) + s.local('i') - 1] + layers(s, s.vlen(s.args[3]) + 1)
def reach(s, i): return Implies(And(sat(s), T(L(s, q))), And(sat(s.old), T(L(s, i) + cntT(s, i)), 0 <= cntT(s, i), cntT(s, i) <= s.args[2]))
def k3(s): i = s.local('i'); return [And(0 <= i, i <= s.vlen(s.args[3]), cntT(s, i) >= 0), Not(opn(s)), reach(s, i), okB(s)] + layers(s, s.vlen(s.args[3]) + 1)
def k4(s):
    i, j = s.local('i'), s.local('j')
    return [And(0 <= i, i < s.vlen(s.args[3]), 0 <= j, j <= s.args[2] + 1, i == s.outer().local('i'), cntT(s, i) >= 0), Not(opn(s)), reach(s, i), Implies(And(sat(s), T(L(s, q)), j > cntT(s, i)), T(L(s, i + 1) + cntT(s, i + 1))), okB(s)] + layers(s, s.vlen(s.args[3]) + 1)
def seed(s):
    v = s.args[3]; s.ver.assume(s.st, touch(cntT(s, IntVal(0)))); s.ver.assume(s.st, touch(L(s, IntVal(0))))
add(Contract('atMostK(void*, sat_capsule&, int, %s)' % V_, requires=lambda s, sol, c, k, v: closed(s) + old_vars(s, c, v) + [('K', k >= 0)],
    ensures=lambda s, rv, sol, c, k, v: [('no clause is open', Not(opn(s))), ('only new variables', NV(s, c) >= NV(s.old, c)), ('at most K are true', Implies(sat(s), And(sat(s.old), cntT(s, s.vlen(v)) <= k))), ('every choice of at most K is possible', okB(s))],
    modifies=lambda s, sol, c, k, v: [('sat_capsule.number_of_variables', c)], axioms=CNT_DEF + LAY_DEF + MONO, entry=seed, allocs=True,
    loops={0: Loop(k0), 1: Loop(k1), 2: Loop(k2), 3: Loop(k3), 4: Loop(k4, lemma=hits)}, **CL))
