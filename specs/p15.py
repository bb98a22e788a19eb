"""P15: queue and stack fringe (UnsortedFringe: a chain of storage blocks, addressed by global positions)."""
from lib import *
TU = '#include "search/UnsrtFringeContainer.cpp"\n#include "search/UnsortedFringe.cpp"\n#include "search/QueueFringe.cpp"\n#include "search/StackFringe.cpp"\n'
CONTRACTS = []; AXIOMS = []
I = z3.IntSort(); A1 = z3.ArraySort(I, I); A2 = z3.ArraySort(I, A1)
# ghost state, per fringe: block number -> block, block -> number, storage of a block -> number, first and last block number
OPTS = {'ghost': {'at': A2, 'blk': A2, 'cblk': A2, 'bf': A1, 'bl': A1}}
add = CONTRACTS.append
SZ = 1024 * 1024
U, CN = 'UnsortedFringe', 'UnsrtFringeContainer'
P = 'progression::UnsortedFringe::'
at = lambda s, t, b: Select(Select(s.g('at'), t.obj), b)
bf = lambda s, t: Select(s.g('bf'), t.obj); bl = lambda s, t: Select(s.g('bl'), t.obj)
first = lambda s, t: s.f(t, U + '.firstContainer'); last = lambda s, t: s.f(t, U + '.lastContainer'); count = lambda s, t: s.f(t, U + '.sizeCounter')
cf = lambda s, o, f: s.f(PE(o), CN + '.' + f)
cont = lambda s, o: s.f(PE(o), CN + '.content').obj
left = lambda s, t: bf(s, t) * SZ + cf(s, first(s, t).obj, 'leftIndex'); right = lambda s, t: bl(s, t) * SZ + cf(s, last(s, t).obj, 'rightIndex')
def elem(s, t, g): return Select(Select(s.heap0('ptr'), cont(s, at(s, t, g / SZ))), g % SZ)
b = Int('b?')
def wf(s, t, *_):
    F, L = bf(s, t), bl(s, t); AT = Select(s.g('at'), t.obj); a = Select(AT, b)
    blk = lambda f: ForAll([b], Implies(And(F <= b, b <= L), f(a)), patterns=[a])
    return [('ends', And(t.obj > 0, t.obj < s.ctr, F <= L, first(s, t).obj == at(s, t, F), last(s, t).obj == at(s, t, L))),
        ('blocks', blk(lambda a: And(a > 0, a < s.ctr, s.len(PE(a)) >= 8, Select(Select(s.g('blk'), t.obj), a) == b, cf(s, a, 'containerSize') == SZ, cont(s, a) > 0, cont(s, a) < s.ctr, s.len(PE(cont(s, a))) == 8 * SZ, Select(Select(s.g('cblk'), t.obj), cont(s, a)) == b))),
        ('chain', blk(lambda a: And(Implies(b < L, And(s.f(PE(a), CN + '.nextContainer').obj == Select(AT, b + 1), cf(s, a, 'rightIndex') == SZ, cf(s, a, 'hasNextContainer') == 1)), Implies(b > F, And(s.f(PE(a), CN + '.prevContainer').obj == Select(AT, b - 1), cf(s, a, 'leftIndex') == -1, cf(s, a, 'hasPrevContainer') == 1))))),
        ('indexes', And(0 <= cf(s, first(s, t).obj, 'leftIndex'), cf(s, first(s, t).obj, 'leftIndex') < SZ, 0 <= cf(s, last(s, t).obj, 'rightIndex'), cf(s, last(s, t).obj, 'rightIndex') < SZ)),
        ('size', And(count(s, t) == right(s, t) - left(s, t) - 1, count(s, t) >= 0))]
def same(s, t, lo, hi):
    return ForAll([K], Implies(And(lo < K, K < hi), elem(s, t, K) == elem(s.old, t, K)), patterns=[elem(s, t, K)])
G = ('at', 'blk', 'cblk', 'bf', 'bl')
def set_at(s, t, b, o, newF, newL, ob=None):
    """ghost assignment: block number b is the object o; the chain is now [newF,newL]"""
    v, st = s.ver, s.st; T = t.obj
    v.setghost(st, 'at', Store(s.g('at'), T, Store(Select(s.g('at'), T), b, o))); v.setghost(st, 'blk', Store(s.g('blk'), T, Store(Select(s.g('blk'), T), o, b)))
    v.setghost(st, 'cblk', Store(s.g('cblk'), T, Store(Select(s.g('cblk'), T), cont(s, o), b)))
    v.setghost(st, 'bf', Store(s.g('bf'), T, newF)); v.setghost(st, 'bl', Store(s.g('bl'), T, newL))
def gframe(s, t): return [('other fringes', And(*[ForAll([K], Implies(K != t.obj, Select(s.g(n), K) == Select(s.old.g(n), K)), patterns=[Select(s.g(n), K)]) for n in G]))]
def ctor_ghost(s, rv): t = s.args[0]; set_at(s, t, IntVal(0), first(s, t).obj, IntVal(0), IntVal(0))
add(Contract(P + 'UnsortedFringe()', requires=lambda s, t: [And(t.obj > 0, t.obj < s.ctr)], ensures=lambda s, rv, t: wf(s, t) + [('empty', count(s, t) == 0)] + gframe(s, t), modifies=lambda s, t: [(U + '.' + f, t) for f in ('firstContainer', 'lastContainer', 'sizeCounter', 'currentID')], ghost_mod=G, allocs=True, pre_return=ctor_ghost))
add(Contract(P + 'size()', requires=wf, ensures=lambda s, rv, t: [('number of elements', rv == right(s, t) - left(s, t) - 1)]))
add(Contract(P + 'empty()', requires=wf, ensures=lambda s, rv, t: [('empty iff no element', rv == (right(s, t) - left(s, t) - 1 == 0))]))
def ghost_last(s, rv):
    t = s.args[0]; o = s.old; grown = last(s, t).obj != last(o, t).obj; L = bl(o, t)
    set_at(s, t, If(grown, L + 1, L), last(s, t).obj, bf(o, t), If(grown, L + 1, L))
def ghost_first(s, rv):
    t = s.args[0]; o = s.old; grown = first(s, t).obj != first(o, t).obj; F = bf(o, t)
    set_at(s, t, If(grown, F - 1, F), first(s, t).obj, If(grown, F - 1, F), bl(o, t))
def drop_last(s, rv):
    t = s.args[0]; o = s.old; L = bl(o, t); gone = last(s, t).obj != last(o, t).obj; T = t.obj
    s.ver.setghost(s.st, 'bl', Store(s.g('bl'), T, If(gone, L - 1, L)))
def drop_first(s, rv):
    t = s.args[0]; o = s.old; F = bf(o, t); gone = first(s, t).obj != first(o, t).obj; T = t.obj
    s.ver.setghost(s.st, 'bf', Store(s.g('bf'), T, If(gone, F + 1, F)))
touch = z3.Function('touch', I, z3.BoolSort())      # no meaning: makes a term known to the instantiation of quantified facts
def hint(s):
    t = s.args[0]
    for x in (at(s, t, bf(s, t)), at(s, t, bl(s, t)), at(s, t, bf(s, t) + 1), at(s, t, bl(s, t) - 1)): s.ver.assume(s.st, touch(x))
def cm(s, o, *fs): return [(CN + '.' + f, PE(o)) for f in fs]
add(Contract(P + 'addLast(progression::searchNode*)', requires=wf,
    ensures=lambda s, rv, t, n: wf(s, t) + [('one more at the end', And(right(s, t) == right(s.old, t) + 1, left(s, t) == left(s.old, t))), ('added element', elem(s, t, right(s.old, t)) == n.obj), ('others kept', same(s, t, left(s, t), right(s.old, t)))] + gframe(s, t),
    modifies=lambda s, t, n: [(U + '.' + f, t) for f in ('lastContainer', 'sizeCounter', 'currentID')] + cm(s, last(s, t).obj, 'rightIndex', 'nextContainer', 'hasNextContainer') + [('ptr', PE(cont(s, last(s, t).obj)))], ghost_mod=G, allocs=True, entry=hint, pre_return=ghost_last))
add(Contract(P + 'addFirst(progression::searchNode*)', requires=wf,
    ensures=lambda s, rv, t, n: wf(s, t) + [('one more at the front', And(right(s, t) == right(s.old, t), left(s, t) == left(s.old, t) - 1)), ('added element', elem(s, t, left(s.old, t)) == n.obj), ('others kept', same(s, t, left(s.old, t), right(s.old, t)))] + gframe(s, t),
    modifies=lambda s, t, n: [(U + '.' + f, t) for f in ('firstContainer', 'sizeCounter', 'currentID')] + cm(s, first(s, t).obj, 'leftIndex', 'prevContainer', 'hasPrevContainer') + [('ptr', PE(cont(s, first(s, t).obj)))], ghost_mod=G, allocs=True, entry=hint, pre_return=ghost_first))
def rm(s, rv, t, front):
    o = s.old; e = count(o, t) == 0
    moved = And(left(s, t) == left(o, t) + 1, right(s, t) == right(o, t), rv.obj == elem(o, t, left(o, t) + 1)) if front else And(left(s, t) == left(o, t), right(s, t) == right(o, t) - 1, rv.obj == elem(o, t, right(o, t) - 1))
    return wf(s, t) + [('element removed and returned', If(e, And(rv.obj == 0, left(s, t) == left(o, t), right(s, t) == right(o, t)), moved)), ('others kept', same(s, t, left(s, t), right(s, t)))] + gframe(s, t)
nxt = lambda s, t, d: at(s, t, (bf(s, t) + 1) if d > 0 else (bl(s, t) - 1))
add(Contract(P + 'removeFirst()', requires=wf, ensures=lambda s, rv, t: rm(s, rv, t, True), modifies=lambda s, t: [(U + '.' + f, t) for f in ('firstContainer', 'sizeCounter')] + cm(s, first(s, t).obj, 'leftIndex') + cm(s, nxt(s, t, 1), 'leftIndex', 'hasPrevContainer'), ghost_mod=('bf',), entry=hint, pre_return=drop_first))
add(Contract(P + 'removeLast()', requires=wf, ensures=lambda s, rv, t: rm(s, rv, t, False), modifies=lambda s, t: [(U + '.' + f, t) for f in ('lastContainer', 'sizeCounter')] + cm(s, last(s, t).obj, 'rightIndex') + cm(s, nxt(s, t, -1), 'rightIndex', 'hasNextContainer'), ghost_mod=('bl',), entry=hint, pre_return=drop_last))
# the queue and the stack: one unsorted fringe, filled at its end and emptied at its front resp. its end
for cls, take in (('QueueFringe', True), ('StackFringe', False)):
    Q = 'progression::' + cls + '::'
    def mk(cls=cls, take=take, Q=Q):
        un = lambda s, t: s.f(t, cls + '.f')
        # PE(obj): the fringe is a separate allocation
        qwf = lambda s, t, *_: [('queue object', And(t.obj > 0, t.obj < s.ctr, un(s, t).off == 0))] + wf(s, un(s, t))
        add(Contract(Q + cls + '()', requires=lambda s, t: [And(t.obj > 0, t.obj < s.ctr)], ensures=lambda s, rv, t: qwf(s, t) + [('empty', count(s, un(s, t)) == 0)], modifies=lambda s, t: [(cls + '.f', t)], ghost_mod=G, allocs=True))
        def ren(c):   # the contract of the underlying operation, read at the field f
            return c
        base = {c.name: c for c in CONTRACTS}
        for op, und in (('push(progression::searchNode*)', 'addLast(progression::searchNode*)'), ('empty()', 'empty()'), ('top()', 'removeFirst()' if take else 'removeLast()'), ('size()', 'size()')):
            def one(op=op, c=base[P + und]):
                add(Contract(Q + op, requires=qwf, ensures=lambda s, rv, t, *a: qwf(s, t) + [('same fringe', un(s, t).obj == un(s.old, t).obj)] + c.ensures(s, rv, un(s.old, t), *a),
                    modifies=(lambda s, t, *a: c.modifies(s, un(s, t), *a)) if c.modifies else None, ghost_mod=c.ghost_mod, allocs=c.allocs))
            one()
    mk()
