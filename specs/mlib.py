"""Vocabulary for functions on the problem model (class Model) and search nodes."""
from lib import *
MP = 'progression::Model::'
mf = lambda s, t, f: s.f(t, 'Model.' + f)
nf = lambda s, n, f: s.f(n, 'searchNode.' + f)
pf = lambda s, p, f: s.f(p, 'planStep.' + f)
def row(s, t, f, i):
    """object id of the i-th inner array of the int** member f"""
    return Select(Select(s.heap0('ptr'), mf(s, t, f).obj), i)
def ent(s, t, f, i, j): return Select(Select(s.heap0('i32'), row(s, t, f, i)), j)
def num(s, t, f, i): return Select(s.arr(mf(s, t, f)), i)
def obj(s, t): return And(t.obj > 0, t.obj < s.ctr)
def iarr(s, t, f, n, w=4):
    p = mf(s, t, f); return And(p.obj > 0, p.obj < s.ctr, p.off == 0, s.len(p) >= w * n)
def lists(s, t, szf, f, n, lo, hi, name=None):
    """n lists: their lengths in the member szf and their entries in the member f; entries in [lo,hi)"""
    sz = lambda i: num(s, t, szf, i); r = lambda i: row(s, t, f, i); e = lambda i, j: ent(s, t, f, i, j)
    A = [(f + ': storage', And(n >= 0, iarr(s, t, szf, n), iarr(s, t, f, n, 8))),
         (f + ': rows', ForAll([K], Implies(And(0 <= K, K < n), And(sz(K) >= 0, Implies(sz(K) > 0, And(r(K) > 0, r(K) < s.ctr, s.len(PE(r(K))) >= 4 * sz(K))))), patterns=[sz(K), r(K)]))]
    if hi is not None: A.append((f + ': entries', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < sz(K)), And(lo <= e(K, J), e(K, J) < hi)), patterns=[e(K, J)])))
    return A
def bits(s, n): return s.varr(nf(s, n, 'state'), 'i8')
def nbits(s, n): return s.vlen(nf(s, n, 'state'))
def holds(A, f): return Select(A, f) != 0
def listed(s, t, szf, f, i, x, hi=None):
    """x is one of the entries of list i"""
    return Exists([K], And(0 <= K, K < (num(s, t, szf, i) if hi is None else hi), ent(s, t, f, i, K) == x))
from vc import sel
from models import s_card, s_en, s_rank, s_fin
def sets(s, D):
    """contents of an array of std::set<int>: index -> set"""
    return s.ver.named(sel(s.map(('SMEM',)), D.obj))
def named_row(s, ty, p): return s.ver.named(sel(s.heap(ty), p.obj))

def card_bound(S, n):
    """a finite set of numbers below n has at most n elements"""
    v = z3.Int('cv?')
    return Implies(And(n >= 0, ForAll([v], Implies(Select(S, v), And(0 <= v, v < n)))), s_card(S) <= n)
def prove_card():
    """card_bound, from the ascending enumeration: by induction the k-th element is at least k"""
    from models import set_axioms, ord_axioms, SET
    S = z3.Const('S', SET); n, k, v = Ints('n k v')
    def valid(f, *hyp):
        s = z3.Solver(); s.set('timeout', 10000); s.add(*set_axioms()); s.add(*ord_axioms()); s.add(s_fin(S)); s.add(*hyp); s.add(Not(f)); return s.check() == z3.unsat
    P = lambda k: Implies(k < s_card(S), s_en(S, k) >= k)
    nn = ForAll([v], Implies(Select(S, v), v >= 0))
    return {'card_bound: base': valid(P(IntVal(0)), nn), 'card_bound: step': valid(P(k + 1), nn, k >= 0, P(k)), 'card_bound': valid(card_bound(S, n), Implies(And(n >= 0, nn), P(n)))}
touch = z3.Function('touch', z3.IntSort(), z3.BoolSort())      # no meaning: makes a term known to the instantiation of quantified facts
def boolean(x): return x if z3.is_bool(x) else x != 0
