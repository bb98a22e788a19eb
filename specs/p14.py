"""P14: binary min-heap of (key, value) pairs (IntPairHeap<int>)."""
from lib import *
TU = '#include "intDataStructures/IntPairHeap.h"\ntemplate class progression::IntPairHeap<int>;\n'
CONTRACTS = []
OPTS = {'memcpy_elem': 'i32'}
add = CONTRACTS.append
I = z3.IntSort(); ARR = M.ARR
# pairs: injective coding, and the array of pairs of two arrays
pair = z3.Function('pair', I, I, I); fst = z3.Function('fst', I, I); snd = z3.Function('snd', I, I); zipf = z3.Function('zip', ARR, ARR, ARR)
a_, b_ = z3.Consts('za? zb?', ARR); x_, y_, i_ = z3.Ints('zx? zy? zi?')
PAIR = [ForAll([x_, y_], And(fst(pair(x_, y_)) == x_, snd(pair(x_, y_)) == y_), patterns=[pair(x_, y_)]),
        ForAll([a_, b_, i_], Select(zipf(a_, b_), i_) == pair(Select(a_, i_), Select(b_, i_)), patterns=[Select(zipf(a_, b_), i_)])]
AXIOMS = M.AXIOMS + PAIR
def zstore(A, B, i, x, y):
    """writing both components is writing the pair (extensionality of arrays)"""
    return zipf(Store(A, i, x), Store(B, i, y)) == Store(zipf(A, B), i, pair(x, y))
C = 'IntPairHeap'
P = 'progression::IntPairHeap<int>::'
nx = lambda s, t: s.f(t, C + '.nextIndex'); cap = lambda s, t: s.f(t, C + '.arraySize')
kp = lambda s, t: s.f(t, C + '.keys'); vp = lambda s, t: s.f(t, C + '.vals')
KA = lambda s, t: s.arr(kp(s, t)); VA = lambda s, t: s.arr(vp(s, t)); Z = lambda s, t: zipf(KA(s, t), VA(s, t))
LOW = IntVal(-2**31)
def store_ok(s, t):
    return [('storage', And(t.obj > 0, 1 <= nx(s, t), nx(s, t) <= cap(s, t), cap(s, t) < 2**30, s.len(kp(s, t)) == 4 * cap(s, t), s.len(vp(s, t)) == 4 * cap(s, t), kp(s, t).obj > 0, vp(s, t).obj > 0, kp(s, t).obj != vp(s, t).obj, kp(s, t).obj < s.ctr, vp(s, t).obj < s.ctr))]
def heap(A, n, skip=None):
    c = And(2 <= K, K < n) if skip is None else And(2 <= K, K < n, skip(K))
    return ForAll([K], Implies(c, Select(A, K / 2) <= Select(A, K)), patterns=[Select(A, K)])
def keys_ok(A, n): return And(Select(A, 0) == LOW, ForAll([K], Implies(And(1 <= K, K < n), Select(A, K) >= LOW), patterns=[Select(A, K)]))
def wf(s, t): return store_ok(s, t) + [('sentinel and key range', keys_ok(KA(s, t), nx(s, t))), ('heap order', heap(KA(s, t), nx(s, t)))]
def root_min(A, n):
    """a heap has its minimum at the root (by induction over the index: K[1] <= K[k/2] <= K[k]); proved in prove_lemmas"""
    return Implies(heap(A, n), ForAll([K], Implies(And(1 <= K, K < n), Select(A, 1) <= Select(A, K)), patterns=[Select(A, K)]))
def prove_lemmas():
    A = z3.Const('A', ARR); n, k = Ints('n k'); j = Int('j')
    s = z3.Solver(); s.set('timeout', 20000)
    s.add(heap(A, n), ForAll([j], Implies(And(1 <= j, j < k, j < n), Select(A, 1) <= Select(A, j)), patterns=[Select(A, j)]), 1 <= k, k < n, Not(Select(A, 1) <= Select(A, k)))
    r = {'heap root is minimal': s.check() == z3.unsat}
    s = z3.Solver(); B = z3.Const('B', ARR); i, x, y = Ints('i x y'); L, R = zipf(Store(A, i, x), Store(B, i, y)), Store(zipf(A, B), i, pair(x, y)); q = Int('q')
    s.add(PAIR[1], Select(L, q) != Select(R, q)); r['pair store'] = s.check() == z3.unsat
    return r
def count(s, t, v): return cnt(Z(s, t), 1, nx(s, t), v)
add(Contract(P + 'IntPairHeap(int)', requires=lambda s, t, size: [And(size < 2**30, t.obj > 0, t.obj < s.ctr)],
    ensures=lambda s, rv, t, size: wf(s, t) + [('empty', nx(s, t) == 1)], modifies=lambda s, t, size: [(C + '.' + f, t) for f in ('keys', 'vals', 'nextIndex', 'arraySize')], allocs=True))
add(Contract(P + 'isEmpty()', requires=wf, ensures=lambda s, rv, t: [('empty iff no entry', rv == ForAll([V], cnt(Z(s, t), 1, nx(s, t), V) == 0, patterns=[cnt(Z(s, t), 1, nx(s, t), V)]))],
    lemma=lambda s, rv, t: [cnt(Z(s, t), 1, nx(s, t), Select(Z(s, t), 1)) >= 0]))
add(Contract(P + 'size()', requires=wf, ensures=lambda s, rv, t: [('number of entries', rv == nx(s, t) - 1)]))
add(Contract(P + 'clear()', requires=wf, ensures=lambda s, rv, t: wf(s, t) + [('empty', nx(s, t) == 1)], modifies=lambda s, t: [(C + '.nextIndex', t)]))
top = lambda s, t: pair(Select(KA(s, t), 1), Select(VA(s, t), 1))
def nonempty(s, t): return wf(s, t) + [('not empty', nx(s, t) > 1)]
def top_ens(s, rv, t):
    return [('entry', cnt(Z(s, t), 1, nx(s, t), top(s, t)) >= 1), ('minimal', ForAll([V], Implies(cnt(Z(s, t), 1, nx(s, t), V) > 0, Select(KA(s, t), 1) <= fst(V)), patterns=[cnt(Z(s, t), 1, nx(s, t), V)]))]
tl = lambda s, rv, t: [root_min(KA(s, t), nx(s, t)), Select(Z(s, t), 1) == top(s, t)]
add(Contract(P + 'topKey()', requires=nonempty, ensures=lambda s, rv, t: [('key of the top entry', rv == Select(KA(s, t), 1))] + top_ens(s, rv, t), lemma=tl))
add(Contract(P + 'topVal()', requires=nonempty, ensures=lambda s, rv, t: [('value of the top entry', rv == Select(VA(s, t), 1))] + top_ens(s, rv, t), lemma=tl))
def zswap(A, B, i, j):
    """swapping two entries in both arrays is swapping the pairs: two instances of zstore"""
    return [zstore(A, B, i, Select(A, j), Select(B, j)), zstore(Store(A, i, Select(A, j)), Store(B, i, Select(B, j)), j, Select(A, i), Select(B, i))]
def swap_lemma(s, i, j, lo, hi):
    A, B = s.outer(0).arr(kp(s, s.args[0])), s.outer(0).arr(vp(s, s.args[0])); N = Z(s, s.args[0])
    return zswap(A, B, i, j) + [Select(zipf(A, B), i) == pair(Select(A, i), Select(B, i)), Select(zipf(A, B), j) == pair(Select(A, j), Select(B, j))]
def up_inv(s):
    t, key, val = s.args; c, n = s.local('current'), nx(s, t); A = KA(s, t)
    return [('position', And(1 <= c, c <= n)), ('heap order but here', heap(A, n + 1, lambda k: k != c)), ('children of the hole', ForAll([K], Implies(And(2 <= K, K < n + 1, K / 2 == c, c >= 2), Select(A, c / 2) <= Select(A, K)), patterns=[Select(A, K)])),
            ('keys', keys_ok(A, n + 1)), ('same entries', ForAll([V], cnt(Z(s, t), 1, n + 1, V) == count(s.old, t, V) + b2i(V == pair(key, val)), patterns=[cnt(Z(s, t), 1, n + 1, V)]))]
def up_init(s):
    t, key, val = s.args; n = nx(s, t); O = Z(s.old, t)
    return [ForAll([V], And(M.extend(Z(s, t), 1, n, V), M.same(O, Z(s, t), 1, n, V)), patterns=[cnt(Z(s, t), 1, n + 1, V)])]
def mods(s, t, *a): return [('i32', kp(s, t)), ('i32', vp(s, t))]
add(Contract(P + 'add(int, int)', requires=lambda s, t, key, val: wf(s, t) + [And(key >= LOW, cap(s, t) < 2**29)],
    ensures=lambda s, rv, t, key, val: wf(s, t) + [('one more entry', nx(s, t) == nx(s.old, t) + 1), ('entries', ForAll([V], count(s, t, V) == count(s.old, t, V) + b2i(V == pair(key, val)), patterns=[cnt(Z(s, t), 1, nx(s, t), V)])),
        ('storage kept while there is room', If(nx(s.old, t) < cap(s.old, t), And(cap(s, t) == cap(s.old, t), kp(s, t).obj == kp(s.old, t).obj, vp(s, t).obj == vp(s.old, t).obj), And(kp(s, t).obj >= s.old.ctr, vp(s, t).obj >= s.old.ctr)))],
    modifies=lambda s, t, *a: mods(s, t) + [(C + '.' + f, t) for f in ('keys', 'vals', 'nextIndex', 'arraySize')], allocs=True,
    loops={0: Loop(up_inv, init_lemma=up_init, lemma=lambda s: swap_lemma(s, s.outer(0).local('current'), s.outer(0).local('current') / 2, 1, 0), variant=lambda s: s.local('current'))}))
def dn_inv(s):
    t = s.args[0]; c, n = s.local('current'), nx(s, t); A = KA(s, t); sw = s.local('swapped')
    return [('position', And(1 <= c, Or(c < n, n == 1), n == nx(s.old, t) - 1)), ('heap order but here', heap(A, n, lambda k: Or(K / 2 != c, sw == 0))), ('children of the hole', ForAll([K], Implies(And(2 <= K, K < n, K / 2 == c, c >= 2), Select(A, c / 2) <= Select(A, K)), patterns=[Select(A, K)])),
            ('keys', keys_ok(A, n)), ('same entries', ForAll([V], cnt(Z(s, t), 1, n, V) == count(s.old, t, V) - b2i(V == top(s.old, t)), patterns=[cnt(Z(s, t), 1, n, V)]))]
def dn_init(s):
    t = s.args[0]; n = nx(s, t); A, B = KA(s.old, t), VA(s.old, t); O = zipf(A, B)
    return [ForAll([V], And(M.extend(O, 1, n, V), M.extend(Z(s, t), 1, n, V)), patterns=[cnt(Z(s, t), 1, n, V)]), zstore(A, B, IntVal(1), Select(A, n), Select(B, n)), Select(O, 1) == top(s.old, t), Select(O, n) == pair(Select(A, n), Select(B, n))]
def dn_swap(s):
    h = s.outer(0); c = h.local('current'); t = s.args[0]
    return swap_lemma(s, c, 2 * c, 1, 0) + swap_lemma(s, c, 2 * c + 1, 1, 0)
add(Contract(P + 'pop()', requires=lambda s, t: nonempty(s, t), ensures=lambda s, rv, t: wf(s, t) + [('one entry less', nx(s, t) == nx(s.old, t) - 1), ('entries', ForAll([V], count(s, t, V) == count(s.old, t, V) - b2i(V == top(s.old, t)), patterns=[cnt(Z(s, t), 1, nx(s, t), V)]))],
    modifies=lambda s, t: mods(s, t) + [(C + '.nextIndex', t)], loops={0: Loop(dn_inv, init_lemma=dn_init, lemma=dn_swap, variant=lambda s: nx(s, s.args[0]) - s.local('current') + 1 + s.local('swapped'))}))
