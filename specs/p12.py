"""P12: integer sets (noDelIntSet, bucketSet, bIntSet)."""
import z3
from lib import *
TU = '#include "intDataStructures/IntUtil.cpp"\n#include "intDataStructures/noDelIntSet.cpp"\n#include "intDataStructures/bucketSet.cpp"\n#include "intDataStructures/bIntSet.cpp"\n'
CONTRACTS = []
AXIOMS = M.AXIOMS
OPTS = {}
add = CONTRACTS.append
# ------------------------------------------------------------------ sets with a bit array and a list
def live(s, t): r = s.ver.root(t.obj); return And(t.obj != 0, r > 0, r < s.ctr)      # an object, or a part of one
class ListSet:
    def __init__(self, C): self.C = C
    def n(self, s, t): return s.f(t, self.C + '.currentSize')
    def cap(self, s, t): return s.f(t, self.C + '.containerSize')
    def it(self, s, t): return s.f(t, self.C + '.iterI')
    def b(self, s, t): return s.f(t, self.C + '.boolContainer')
    def c(self, s, t): return s.f(t, self.C + '.intContainer')
    def B(self, s, t): return s.arr(self.b(s, t), 'i8')
    def L(self, s, t): return s.arr(self.c(s, t))
    def mem(self, s, t, v): return And(0 <= v, v < self.cap(s, t), Select(self.B(s, t), v) == 1)
    def storage(self, s, t):
        b, c, cap = self.b(s, t), self.c(s, t), self.cap(s, t)
        return [('storage', And(live(s, t), cap >= 0, cap < 2**31, s.len(b) == cap, s.len(c) == 4 * cap, b.obj > 0, b.obj < s.ctr, c.obj > 0, c.obj < s.ctr))]
    def listok(self, s, t): return self.storage(s, t) + [('list', And(0 <= self.n(s, t), self.n(s, t) <= self.cap(s, t)))]
    def wf(self, s, t):
        n, cap, B, L = self.n(s, t), self.cap(s, t), self.B(s, t), self.L(s, t)
        return self.listok(s, t) + [('number of elements', n == cnt(B, 0, cap, 1)), ('flags', ForAll([K], Implies(And(0 <= K, K < cap), Or(Select(B, K) == 0, Select(B, K) == 1)), patterns=[Select(B, K)])),
            ('list in range', ForAll([K], Implies(And(0 <= K, K < n), And(0 <= Select(L, K), Select(L, K) < cap)), patterns=[Select(L, K)])),
            ('each element listed once', ForAll([V], cnt(L, 0, n, V) == If(self.mem(s, t, V), 1, 0), patterns=[cnt(L, 0, n, V), Select(B, V)]))]
    def fields(self, *fs): return lambda s, t, *a: [(self.C + '.' + f, t) for f in fs]
    def cont(self, s, t): return [('i8', self.b(s, t)), ('i32', self.c(s, t))]
    def same_set(self, s, t, u): return [('unchanged set', And(self.n(s, t) == self.n(u, t), self.cap(s, t) == self.cap(u, t), self.b(s, t).obj == self.b(u, t).obj, self.c(s, t).obj == self.c(u, t).obj))]
    def memset(self, s, t, P, trig=True):
        return ForAll([V], self.mem(s, t, V) == P(V), patterns=[Select(self.B(s, t), V)])
    def atpos(self, s, t, i):
        n, it, L = self.n(s, t), self.it(s, t), self.L(s, t)
        return ('position', Or(And(n == 0, i == -1), And(n > 0, 0 <= it, it <= n, i == If(it < n, Select(L, it), -1))))
    def pos(self, s, t): return If(self.n(s, t) == 0, IntVal(0), self.it(s, t))
def init_contract(S):
    P = 'progression::%s::' % S.C
    def inv(s):
        t, size = s.args; i = s.local('i')
        return S.storage(s, t) + [('so far', And(0 <= i, i <= S.cap(s, t), ForAll([K], Implies(And(0 <= K, K < i), Select(S.B(s, t), K) == 0), patterns=[Select(S.B(s, t), K)]))), ('fields', And(S.n(s, t) == 0, S.cap(s, t) == size, S.b(s, t).obj >= s.old.ctr, S.c(s, t).obj >= s.old.ctr))]
    add(Contract(P + 'init(int)', requires=lambda s, t, size: [And(size >= 0, size < 2**31, live(s, t))],
        ensures=lambda s, rv, t, size: S.wf(s, t) + [('empty', S.n(s, t) == 0), ('capacity', S.cap(s, t) == size), ('no member', S.memset(s, t, lambda v: BoolVal(False))), ('new storage', And(S.b(s, t).obj >= s.old.ctr, S.c(s, t).obj >= s.old.ctr))],
        modifies=S.fields('boolContainer', 'intContainer', 'containerSize', 'currentSize'), allocs=True, loops={0: Loop(inv, variant=lambda s: s.args[1] - s.local('i'))}))
def common(S):
    P = 'progression::%s::' % S.C
    add(Contract(P + 'getSize()', requires=S.wf, ensures=lambda s, rv, t: [('number of elements', rv == cnt(S.B(s, t), 0, S.cap(s, t), 1))]))
    add(Contract(P + 'isEmpty()', requires=S.wf, ensures=lambda s, rv, t: [('empty iff no member', rv == ForAll([V], Not(S.mem(s, t, V)), patterns=[Select(S.B(s, t), V)]))]))
    add(Contract(P + 'get(int)', requires=lambda s, t, i: S.storage(s, t) + [And(0 <= i, i < S.cap(s, t))], ensures=lambda s, rv, t, i: [('membership', rv == S.mem(s, t, i))]))
    add(Contract(P + 'getFirst()', requires=S.listok, ensures=lambda s, rv, t: [('first element', If(S.n(s, t) == 0, rv == -1, And(rv == Select(S.L(s, t), 0), S.it(s, t) == 0)))], modifies=S.fields('iterI')))
    add(Contract(P + 'getNext()', requires=lambda s, t: S.listok(s, t) + [S.it(s, t) >= -1],
        ensures=lambda s, rv, t: [('next element', And(S.it(s, t) == S.it(s.old, t) + 1, rv == If(S.it(s, t) < S.n(s, t), Select(S.L(s, t), S.it(s, t)), -1)))], modifies=S.fields('iterI')))
    def clear_inv(s):
        t = s.args[0]; i = s.local('i'); L = S.L(s, t); p = S.pos(s, t)
        return S.storage(s, t) + S.same_set(s, t, s.old) + [S.atpos(s, t, i), ('cleared so far', ForAll([V], Implies(And(0 <= V, V < S.cap(s, t)), Select(S.B(s, t), V) == If(cnt(L, 0, p, V) > 0, 0, Select(S.B(s.old, t), V))), patterns=[Select(S.B(s, t), V)]))]
    add(Contract(P + 'clear()', requires=S.wf, ensures=lambda s, rv, t: S.wf(s, t) + [('empty', S.n(s, t) == 0), ('no member', S.memset(s, t, lambda v: BoolVal(False))), ('storage kept', And(S.cap(s, t) == S.cap(s.old, t), S.b(s, t).obj == S.b(s.old, t).obj, S.c(s, t).obj == S.c(s.old, t).obj))],
        modifies=lambda s, t: S.fields('currentSize', 'iterI')(s, t) + [('i8', S.b(s, t))],
        loops={0: Loop(clear_inv, lemma=lambda s: [ForAll([V], M.extend(S.L(s, s.args[0]), 0, S.it(s, s.args[0]), V), patterns=[cnt(S.L(s, s.args[0]), 0, S.it(s, s.args[0]) + 1, V)]), ForAll([V], Implies(S.it(s, s.args[0]) >= 1, M.extend(S.L(s, s.args[0]), 0, S.it(s, s.args[0]) - 1, V)), patterns=[cnt(S.L(s, s.args[0]), 0, S.it(s, s.args[0]), V)])], variant=lambda s: If(S.n(s, s.args[0]) == 0, 0, S.n(s, s.args[0]) - S.it(s, s.args[0])))}))
def ins_ens(S):
    def f(s, rv, t, i):
        o = s.old
        return S.wf(s, t) + [('member added, others kept', S.memset(s, t, lambda v: Or(v == i, S.mem(o, t, v)))), ('size', S.n(s, t) == S.n(o, t) + If(S.mem(o, t, i), 0, 1)), ('storage kept', And(S.cap(s, t) == S.cap(o, t), S.b(s, t).obj == S.b(o, t).obj, S.c(s, t).obj == S.c(o, t).obj))]
    return f
def ins_entry_lemmas(S):
    def f(s, rv, t, i):
        o = s.old; n = S.n(o, t); L0, L1, B0 = S.L(o, t), S.L(s, t), S.B(o, t); cap = S.cap(o, t)
        return [ForAll([V], And(M.extend(L1, 0, n, V), M.same(L0, L1, 0, n, V)), patterns=[cnt(L1, 0, n + 1, V)]), M.two_values(B0, 0, cap, 0, 1)]
    return f
def full_lemma(S):
    """an element that is not in the set leaves room in the list (needed for the bounds of the store)"""
    def f(s, t, i):
        B = S.B(s, t); cap = S.cap(s, t)
        return [('room', Implies(Select(B, i) == 0, And(cnt(B, 0, cap, 0) >= 1, cnt(B, 0, cap, 0) + cnt(B, 0, cap, 1) <= cap)))]
    return f
N = ListSet('noDelIntSet')
PN = 'progression::noDelIntSet::'
init_contract(N); common(N)
def with_room(S, req):
    def entry(s):
        t, i = s.args; B = S.B(s, t); cap = S.cap(s, t)
        s.ver.assume(s.st, M.two_values(B, 0, cap, IntVal(0), IntVal(1)))       # proved lemma
    return entry
add(Contract(PN + 'insert(int)', requires=lambda s, t, i: N.wf(s, t) + [And(0 <= i, i < N.cap(s, t))], ensures=ins_ens(N), lemma=ins_entry_lemmas(N), entry=with_room(N, None),
    modifies=lambda s, t, i: N.fields('currentSize')(s, t) + N.cont(s, t)))
sort_contracts('progression::IntUtil::', add)
add(Contract(PN + 'sort()', requires=N.wf, ensures=lambda s, rv, t: N.wf(s, t) + [('ascending', sorted_(N.L(s, t), 0, N.n(s, t))), ('same members', N.memset(s, t, lambda v: N.mem(s.old, t, v)))] + N.same_set(s, t, s.old), modifies=lambda s, t: [('i32', N.c(s, t))]))
# iteration over X while inserting into R
def iter_lemma(X):
    def f(s):
        x = X(s); L = N.L(s, x); it = N.it(s, x)
        return [ForAll([V], M.extend(L, 0, it, V), patterns=[cnt(L, 0, it + 1, V)]), ForAll([V], Implies(it >= 1, M.extend(L, 0, it - 1, V)), patterns=[cnt(L, 0, it, V)])]
    return f
def iter_inv(X, R, rule, keep=()):
    """X: set iterated over, R: result; rule(s, v, visited): expected membership of v in R"""
    def f(s):
        x, r = X(s), R(s); i = s.local('i'); L = N.L(s, x); p = N.pos(s, x); o = s.old
        e = s.entered()
        out = N.wf(s, x) + N.wf(s, r) + [N.atpos(s, x, i), ('collected', N.memset(s, r, lambda v: rule(s, v, cnt(L, 0, p, v) > 0)))] + N.same_set(s, x, e) + [('result storage', And(N.cap(s, r) == N.cap(e, r), N.b(s, r).obj == N.b(e, r).obj, N.c(s, r).obj == N.c(e, r).obj))]
        return out
    return f
def iter_var(X): return lambda s: If(N.n(s, X(s)) == 0, 0, N.n(s, X(s)) - N.it(s, X(s)))
def iloop(X, R, rule): return Loop(iter_inv(X, R, rule), lemma=iter_lemma(X), variant=iter_var(X))
THIS = lambda s: s.args[0]
fresh_set = lambda s, r: ('new set', And(r.obj >= s.old.ctr, N.b(s, r).obj >= s.old.ctr, N.c(s, r).obj >= s.old.ctr))
def unchanged(s, *ts): return [('operand unchanged', And(*[And(ForAll([V], N.mem(s, t, V) == N.mem(s.old, t, V), patterns=[Select(N.B(s, t), V)])) for t in ts]))] + [x for t in ts for x in N.wf(s, t)]
add(Contract(PN + 'clone()', requires=N.wf, ensures=lambda s, rv, t: N.wf(s, rv) + [fresh_set(s, rv), ('same members', N.memset(s, rv, lambda v: N.mem(s.old, t, v))), ('capacity', N.cap(s, rv) == N.cap(s.old, t))] + unchanged(s, t),
    modifies=N.fields('iterI'), allocs=True, loops={0: iloop(THIS, lambda s: s.local('that'), lambda s, v, vis: vis)}))
mx = lambda a, b: If(a > b, a, b)
def binop(name, rule2, local_less, local_more, lrule):
    pass
# results in a new set
def ens_new(rule):
    return lambda s, rv, t, u: N.wf(s, rv) + [fresh_set(s, rv), ('members', N.memset(s, rv, lambda v: rule(N.mem(s.old, t, v), N.mem(s.old, u, v)))), ('capacity', N.cap(s, rv) == mx(N.cap(s.old, t), N.cap(s.old, u)))] + unchanged(s, t, u)
req2 = lambda s, t, u: N.wf(s, t) + N.wf(s, u)
mod2 = lambda s, t, u: [('noDelIntSet.iterI', t), ('noDelIntSet.iterI', u)]
SIG1, SIG2 = '(progression::noDelIntSet*)', '(progression::noDelIntSet*, progression::noDelIntSet*)'
U, I_, D = (lambda a, b: Or(a, b)), (lambda a, b: And(a, b)), (lambda a, b: And(a, Not(b)))
both = lambda s, *ts: [x for t in ts for x in N.wf(s, t)]
def keep(loop, *objs):
    """additionally: these sets stay as they were at the start of the function"""
    inv0 = loop.inv
    loop.inv = lambda s: inv0(s) + [('operands kept', And(*[And(N.cap(s, o(s)) == N.cap(s.old, o(s)), N.n(s, o(s)) == N.n(s.old, o(s)), N.b(s, o(s)).obj == N.b(s.old, o(s)).obj, N.c(s, o(s)).obj == N.c(s.old, o(s)).obj, N.B(s, o(s)) == N.B(s.old, o(s)), N.L(s, o(s)) == N.L(s.old, o(s))) for o in objs]))]
    return loop
SEC = lambda s: s.args[1]; SEC2 = lambda s: s.args[2]; RES = lambda s: s.args[1]
LESSB, LESSE, MOREE = (lambda s: s.local('lessBuckets')), (lambda s: s.local('lessElements')), (lambda s: s.local('moreElements'))
def locals_are(loop, less, more, sec):
    inv0 = loop.inv
    def f(s):
        l, m = s.local(less), s.local(more); t, u = s.args[0], sec(s)
        return inv0(s) + [('operands', Or(And(l.obj == t.obj, m.obj == u.obj), And(l.obj == u.obj, m.obj == t.obj)))]
    loop.inv = f
    return loop
def newres(loop):
    inv0 = loop.inv
    loop.inv = lambda s: inv0(s) + [('new result', And(s.local('that').obj >= s.old.ctr, N.b(s, s.local('that')).obj >= s.old.ctr, N.c(s, s.local('that')).obj >= s.old.ctr, N.cap(s, s.local('that')) == mx(N.cap(s.old, s.args[0]), N.cap(s.old, s.args[1]))))]
    return loop
CONTRACTS[-1].loops[0] = keep(CONTRACTS[-1].loops[0], THIS)
_cl = CONTRACTS[-1].loops[0].inv
CONTRACTS[-1].loops[0].inv = lambda s: _cl(s) + [('new result', And(s.local('that').obj >= s.old.ctr, N.b(s, s.local('that')).obj >= s.old.ctr, N.c(s, s.local('that')).obj >= s.old.ctr, N.cap(s, s.local('that')) == N.cap(s.old, s.args[0])))]
that = lambda s: s.local('that')
def memv(s, t, v): return N.mem(s.old, t, v)
add(Contract(PN + 'setUnion' + SIG1, requires=req2, ensures=ens_new(U), modifies=mod2, allocs=True,
    loops={0: locals_are(newres(keep(iloop(LESSB, that, lambda s, v, vis: Or(vis, memv(s, s.local('moreBuckets'), v))), THIS, SEC)), 'lessBuckets', 'moreBuckets', SEC)}))
add(Contract(PN + 'setIntersection' + SIG1, requires=req2, ensures=ens_new(I_), modifies=mod2, allocs=True,
    loops={0: locals_are(newres(keep(iloop(LESSE, that, lambda s, v, vis: And(vis, memv(s, s.local('moreElements'), v))), THIS, SEC)), 'lessElements', 'moreElements', SEC)}))
add(Contract(PN + 'setMinus' + SIG1, requires=req2, ensures=ens_new(D), modifies=mod2, allocs=True,
    loops={0: newres(keep(iloop(THIS, that, lambda s, v, vis: And(vis, Not(memv(s, s.args[1], v)))), THIS, SEC))}))
# results in a given set
def req3(s, t, r, u):
    dj = lambda a: And(r.obj != a.obj, N.b(s, r).obj != N.b(s, a).obj, N.c(s, r).obj != N.c(s, a).obj)
    return N.wf(s, t) + N.wf(s, r) + N.wf(s, u) + [('result is a different set', And(dj(t), dj(u))), ('result is large enough', And(N.cap(s, r) >= N.cap(s, t), N.cap(s, r) >= N.cap(s, u)))]
def ens3(rule): return lambda s, rv, t, r, u: N.wf(s, r) + [('members', N.memset(s, r, lambda v: rule(N.mem(s.old, t, v), N.mem(s.old, u, v))))] + unchanged(s, t, u)
mod3 = lambda s, t, r, u: [('noDelIntSet.iterI', t), ('noDelIntSet.iterI', u), ('noDelIntSet.iterI', r), ('noDelIntSet.currentSize', r)] + N.cont(s, r)
def rkeep(loop):
    inv0 = loop.inv
    loop.inv = lambda s: inv0(s) + [('result kept', And(N.cap(s, s.args[1]) == N.cap(s.old, s.args[1]), N.b(s, s.args[1]).obj == N.b(s.old, s.args[1]).obj, N.c(s, s.args[1]).obj == N.c(s.old, s.args[1]).obj))]
    return loop
add(Contract(PN + 'setUnion' + SIG2, requires=req3, ensures=ens3(U), modifies=mod3,
    loops={0: rkeep(keep(iloop(THIS, RES, lambda s, v, vis: vis), THIS, SEC2)), 1: rkeep(keep(iloop(SEC2, RES, lambda s, v, vis: Or(vis, memv(s, s.args[0], v))), THIS, SEC2))}))
add(Contract(PN + 'setIntersection' + SIG2, requires=req3, ensures=ens3(I_), modifies=mod3,
    loops={0: locals_are(rkeep(keep(iloop(LESSE, RES, lambda s, v, vis: And(vis, memv(s, s.local('moreElements'), v))), THIS, SEC2)), 'lessElements', 'moreElements', SEC2)}))
add(Contract(PN + 'setMinus' + SIG2, requires=req3, ensures=ens3(D), modifies=mod3,
    loops={0: rkeep(keep(iloop(THIS, RES, lambda s, v, vis: And(vis, Not(memv(s, s.args[2], v)))), THIS, SEC2))}))
# ------------------------------------------------------------------ bucketSet
PB = 'progression::bucketSet::'
bn = lambda s, t: s.f(t, 'bucketSet.currentSize'); bcap = lambda s, t: s.f(t, 'bucketSet.containersize'); bit = lambda s, t: s.f(t, 'bucketSet.iIter'); bnum = lambda s, t: s.f(t, 'bucketSet.numIterated')
bc = lambda s, t: s.f(t, 'bucketSet.container'); BB = lambda s, t: s.arr(bc(s, t), 'i8')
bmem = lambda s, t, v: And(0 <= v, v < bcap(s, t), Select(BB(s, t), v) == 1)
def bstore(s, t): return [('storage', And(bcap(s, t) >= 0, bcap(s, t) < 2**31, s.len(bc(s, t)) == bcap(s, t), bc(s, t).obj > 0))]
def bwf(s, t): return bstore(s, t) + [('number of elements', bn(s, t) == cnt(BB(s, t), 0, bcap(s, t), 1)), ('flags', ForAll([K], Implies(And(0 <= K, K < bcap(s, t)), Or(Select(BB(s, t), K) == 0, Select(BB(s, t), K) == 1)), patterns=[Select(BB(s, t), K)]))]
def bset(s, t, P): return ForAll([V], bmem(s, t, V) == P(V), patterns=[Select(BB(s, t), V)])
bf = lambda *fs: (lambda s, t, *a: [('bucketSet.' + f, t) for f in fs])
bkept = lambda s, t: ('storage kept', And(bcap(s, t) == bcap(s.old, t), bc(s, t).obj == bc(s.old, t).obj))
add(Contract(PB + 'clear()', requires=lambda s, t: bstore(s, t) + [('nothing set when empty', Implies(bn(s, t) <= 0, And(bn(s, t) == 0, ForAll([K], Implies(And(0 <= K, K < bcap(s, t)), Select(BB(s, t), K) == 0), patterns=[Select(BB(s, t), K)]))))],
    ensures=lambda s, rv, t: bwf(s, t) + [('empty', bn(s, t) == 0), ('no member', bset(s, t, lambda v: BoolVal(False))), bkept(s, t)], modifies=lambda s, t: bf('currentSize')(s, t) + [('i8', bc(s, t))],
    loops={0: Loop(lambda s: [('cleared so far', And(0 <= s.local('i'), s.local('i') <= bcap(s, s.args[0]), ForAll([K], Implies(And(0 <= K, K < s.local('i')), Select(BB(s, s.args[0]), K) == 0), patterns=[Select(BB(s, s.args[0]), K)])))], variant=lambda s: bcap(s, s.args[0]) - s.local('i'))}))
add(Contract(PB + 'init(int)', requires=lambda s, t, size: [And(size >= 0, size < 2**31)], ensures=lambda s, rv, t, size: bwf(s, t) + [('empty', bn(s, t) == 0), ('capacity', bcap(s, t) == size), ('no member', bset(s, t, lambda v: BoolVal(False)))],
    modifies=bf('currentSize', 'containersize', 'container'), allocs=True))
add(Contract(PB + 'insert(int)', requires=lambda s, t, i: bwf(s, t) + [And(0 <= i, i < bcap(s, t))], ensures=lambda s, rv, t, i: bwf(s, t) + [('member added, others kept', bset(s, t, lambda v: Or(v == i, bmem(s.old, t, v)))), bkept(s, t)], modifies=lambda s, t, i: bf('currentSize')(s, t) + [('i8', bc(s, t))]))
add(Contract(PB + 'erase(int)', requires=lambda s, t, i: bwf(s, t) + [And(0 <= i, i < bcap(s, t))], ensures=lambda s, rv, t, i: bwf(s, t) + [('member removed, others kept', bset(s, t, lambda v: And(v != i, bmem(s.old, t, v)))), bkept(s, t)], modifies=lambda s, t, i: bf('currentSize')(s, t) + [('i8', bc(s, t))]))
add(Contract(PB + 'getSize()', requires=bwf, ensures=lambda s, rv, t: [('number of elements', rv == cnt(BB(s, t), 0, bcap(s, t), 1))]))
add(Contract(PB + 'isEmpty()', requires=bwf, ensures=lambda s, rv, t: [('empty iff no member', rv == ForAll([V], Not(bmem(s, t, V)), patterns=[Select(BB(s, t), V)]))]))
add(Contract(PB + 'get(int)', requires=lambda s, t, i: bstore(s, t) + [And(0 <= i, i < bcap(s, t))], ensures=lambda s, rv, t, i: [('membership', rv == bmem(s, t, i))]))
def none_in(s, t, lo, hi): return ForAll([K], Implies(And(lo <= K, K < hi), Select(BB(s, t), K) != 1), patterns=[Select(BB(s, t), K)])
def bscan(lo):
    return Loop(lambda s: [('nothing so far', And(lo(s) <= s.local('i'), s.local('i') <= bcap(s, s.args[0]), none_in(s, s.args[0], lo(s), s.local('i'))))], variant=lambda s: bcap(s, s.args[0]) - s.local('i'))
ext = lambda s, rv, t: [M.extend(BB(s.old, t), 0, rv, 1), M.split(BB(s.old, t), 0, bit(s.old, t), rv, 1), M.split(BB(s.old, t), 0, bit(s.old, t), bcap(s, t), 1)]
add(Contract(PB + 'getFirst()', requires=bwf, modifies=bf('iIter', 'numIterated'), lemma=ext, loops={0: bscan(lambda s: IntVal(0))},
    ensures=lambda s, rv, t: [('smallest element', If(bn(s, t) == 0, rv == -1, And(bmem(s, t, rv), none_in(s, t, IntVal(0), rv), bit(s, t) == rv + 1, bnum(s, t) == cnt(BB(s, t), 0, bit(s, t), 1))))]))
def bpos(s, t): return [('iteration state', And(0 <= bit(s, t), bit(s, t) <= bcap(s, t), bnum(s, t) == cnt(BB(s, t), 0, bit(s, t), 1)))]
add(Contract(PB + 'getNext()', requires=lambda s, t: bwf(s, t) + bpos(s, t), modifies=bf('iIter', 'numIterated'), lemma=ext, loops={0: bscan(lambda s: bit(s.old, s.args[0]))},
    ensures=lambda s, rv, t: [('next larger element', If(rv == -1, none_in(s, t, bit(s.old, t), bcap(s, t)), And(rv >= bit(s.old, t), bmem(s, t, rv), none_in(s, t, bit(s.old, t), rv), bit(s, t) == rv + 1, bnum(s, t) == cnt(BB(s, t), 0, bit(s, t), 1))))]))
def rm_ens(lo):
    def f(s, rv, t):
        o = s.old
        return bwf(s, t) + [('smallest element removed', If(rv == -1, And(none_in(o, t, lo(s, t), bcap(s, t)), BB(s, t) == BB(o, t)), And(rv >= lo(s, t), bmem(o, t, rv), none_in(o, t, lo(s, t), rv), bset(s, t, lambda v: And(v != rv, bmem(o, t, v))), bit(s, t) == rv + 1))), bkept(s, t)]
    return f
add(Contract(PB + 'removeFirst()', requires=bwf, modifies=lambda s, t: bf('iIter', 'currentSize')(s, t) + [('i8', bc(s, t))], ensures=rm_ens(lambda s, t: IntVal(0)), loops={0: bscan(lambda s: IntVal(0))}))
add(Contract(PB + 'removeNext()', requires=lambda s, t: bwf(s, t) + [And(0 <= bit(s, t), bit(s, t) <= bcap(s, t))], modifies=lambda s, t: bf('iIter', 'currentSize')(s, t) + [('i8', bc(s, t))], ensures=rm_ens(lambda s, t: bit(s.old, t)), loops={0: bscan(lambda s: bit(s.old, s.args[0]))}))
# ------------------------------------------------------------------ bIntSet (kept sorted by insert and erase)
S = ListSet('bIntSet')
PS = 'progression::bIntSet::'
init_contract(S); common(S)
sort_contracts(PS, add)
asc = lambda s, t: ('ascending', sorted_(S.L(s, t), 0, S.n(s, t)))
add(Contract(PS + 'append(int)', requires=lambda s, t, i: S.wf(s, t) + [And(0 <= i, i < S.cap(s, t))], ensures=ins_ens(S), lemma=ins_entry_lemmas(S), entry=with_room(S, None), modifies=lambda s, t, i: S.fields('currentSize')(s, t) + S.cont(s, t)))
def from_(A, A0, lo, hi):
    w = lambda x: M.wit(A0, lo, hi, x)
    return all_in(A, lo, hi, lambda k, x: And(cnt(A, lo, hi, x) >= 1, cnt(A0, lo, hi, x) >= 1, lo <= w(x), w(x) < hi, Select(A0, w(x)) == x))
add(Contract(PS + 'sortSet()', requires=S.listok, ensures=lambda s, rv, t: [asc(s, t), ('same elements', perm(S.L(s, t), S.L(s.old, t), 0, S.n(s, t))), ('values', from_(S.L(s, t), S.L(s.old, t), 0, S.n(s, t)))] + S.same_set(s, t, s.old), modifies=lambda s, t: [('i32', S.c(s, t))]))
def ins2(s, pre, post, rv, t, a, lo, hi):
    me = s.args[0]; n = S.n(s.old, me); L0, L1 = S.L(s.old, me), pre.arr(a)
    return [ForAll([V], And(M.extend(L1, 0, n, V), M.same(L0, L1, 0, n, V)), patterns=[cnt(L1, 0, n + 1, V)])]
add(Contract(PS + 'insert(int)', requires=lambda s, t, i: S.wf(s, t) + [And(0 <= i, i < S.cap(s, t))], ensures=lambda s, rv, t, i: ins_ens(S)(s, rv, t, i) + [('ascending', Implies(Or(Not(S.mem(s.old, t, i)), asc(s.old, t)[1]), asc(s, t)[1]))], entry=with_room(S, None), call_lemmas={PS + 'sort(int*, int, int)': ins2}, modifies=lambda s, t, i: S.fields('currentSize')(s, t) + S.cont(s, t)))
add(Contract(PS + 'find(int*, int, int, int)', requires=lambda s, t, a, lo, hi, v: [('range', Implies(lo <= hi, And(lo >= 0, 4 * (hi + 1) <= s.len(a), hi < 2**31 - 1))), ('sorted', sorted_(s.arr(a), lo, hi + 1))],
    ensures=lambda s, rv, t, a, lo, hi, v: [('index or absent', If(rv == -1, all_in(s.arr(a), lo, hi + 1, lambda k, x: x != v), And(lo <= rv, rv <= hi, Select(s.arr(a), rv) == v)))],
    loops={0: Loop(lambda s: [('range', And(s.old.args[2] <= s.local('minIndex'), s.local('maxIndex') <= s.old.args[3])), ('left', all_in(s.arr(s.args[1]), s.args[2], s.local('minIndex'), lambda k, x: x != s.args[4])), ('right', all_in(s.arr(s.args[1]), s.local('maxIndex') + 1, s.args[3] + 1, lambda k, x: x != s.args[4]))], variant=lambda s: If(s.local('maxIndex') >= s.local('minIndex'), s.local('maxIndex') - s.local('minIndex') + 1, 0))}))
def er_lemma(s, pre, post, rv, t, a, lo, hi):
    me = s.args[0]; n = S.n(s.old, me); L1 = post.arr(a)
    MX = IntVal(2**31 - 1); L0 = pre.arr(a)
    return [ForAll([V], M.extend(L1, 0, n - 1, V), patterns=[cnt(L1, 0, n - 1, V)]), ForAll([V], M.extend(L1, 0, n - 1, V), patterns=[cnt(L1, 0, n, V)]), cnt(L0, 0, n, MX) >= 0, cnt(L1, 0, n, MX) >= 0]
add(Contract(PS + 'erase(int)', requires=lambda s, t, i: S.wf(s, t) + [And(0 <= i, i < S.cap(s, t))],
    ensures=lambda s, rv, t, i: S.wf(s, t) + [('member removed, others kept', S.memset(s, t, lambda v: And(v != i, S.mem(s.old, t, v)))), ('ascending', Implies(Or(S.mem(s.old, t, i), asc(s.old, t)[1]), asc(s, t)[1]))],
    call_lemmas={PS + 'sort(int*, int, int)': er_lemma}, modifies=lambda s, t, i: S.fields('currentSize')(s, t) + S.cont(s, t)))
