"""P13: integer stacks (IntStack, FlexIntStack)."""
import z3
from vc import Contract, Loop, View
from z3 import And, Or, Not, Implies, ForAll, Int, If
TU = '#include "intDataStructures/IntStack.cpp"\n#include "intDataStructures/FlexIntStack.cpp"\n'
OPTS = {'memcpy_elem': 'i32'}
CONTRACTS = []
k = Int('k')
def mk(C, flex):
    n = lambda s, t: s.f(t, C + '.currentSize')
    cap = lambda s, t: s.f(t, C + '.containerSize')
    it = lambda s, t: s.f(t, C + '.iterI')
    ic = lambda s, t: s.f(t, C + '.intContainer')
    def wf(s, t):
        return [('size', And(0 <= n(s, t), n(s, t) <= cap(s, t))), ('storage', And(s.len(ic(s, t)) == 4 * cap(s, t), ic(s, t).obj != t.obj, ic(s, t).obj > 0, cap(s, t) >= 0))]
    def same(s, t, upto):
        return ForAll([k], Implies(And(0 <= k, k < upto), z3.Select(s.arr(ic(s, t)), k) == z3.Select(s.old.arr(ic(s.old, t)), k)), patterns=[z3.Select(s.arr(ic(s, t)), k)])
    def el(s, t, i): return z3.Select(s.arr(ic(s, t)), i)
    P = 'progression::%s::' % C
    def contents_mod(s, t): return [('i32', ic(s, t))]
    fields = lambda *fs: (lambda s, t, *a: [(C + '.' + f, t) for f in fs])
    add = CONTRACTS.append
    add(Contract(P + 'init(int)', requires=lambda s, t, size: size >= 0,
        ensures=lambda s, rv, t, size: wf(s, t) + [('empty', n(s, t) == 0), ('capacity', cap(s, t) == size)],
        modifies=fields('intContainer', 'containerSize', 'currentSize'), allocs=True))
    if flex:
        add(Contract(P + 'push(int)', requires=lambda s, t, i: wf(s, t),
            ensures=lambda s, rv, t, i: wf(s, t) + [('one more', n(s, t) == n(s.old, t) + 1), ('on top', el(s, t, n(s.old, t)) == i), ('rest kept', same(s, t, n(s.old, t)))],
            modifies=lambda s, t, i: contents_mod(s, t) + fields('intContainer', 'containerSize', 'currentSize')(s, t), allocs=True))
    else:
        add(Contract(P + 'push(int)', requires=lambda s, t, i: wf(s, t) + [n(s, t) < cap(s, t)],
            ensures=lambda s, rv, t, i: wf(s, t) + [('one more', n(s, t) == n(s.old, t) + 1), ('on top', el(s, t, n(s.old, t)) == i), ('rest kept', same(s, t, n(s.old, t)))],
            modifies=lambda s, t, i: contents_mod(s, t) + fields('currentSize')(s, t)))
    add(Contract(P + 'pop()', requires=wf,
        ensures=lambda s, rv, t: wf(s, t) + [('last in first out', If(n(s.old, t) == 0, And(rv == -1, n(s, t) == 0), And(rv == el(s.old, t, n(s.old, t) - 1), n(s, t) == n(s.old, t) - 1))), ('rest kept', same(s, t, n(s, t)))],
        modifies=fields('currentSize')))
    add(Contract(P + 'isEmpty()', requires=wf, ensures=lambda s, rv, t: [('empty iff no element', rv == (n(s, t) == 0))]))
    add(Contract(P + 'getSize()', requires=wf, ensures=lambda s, rv, t: [('size', rv == n(s, t))]))
    add(Contract(P + 'clear()', requires=wf, ensures=lambda s, rv, t: wf(s, t) + [('empty', n(s, t) == 0)], modifies=fields('currentSize')))
    add(Contract(P + 'getFirst()', requires=wf, ensures=lambda s, rv, t: [('first element', If(n(s, t) == 0, rv == -1, And(rv == el(s, t, 0), it(s, t) == 0)))], modifies=fields('iterI')))
    add(Contract(P + 'getNext()', requires=lambda s, t: wf(s, t) + [And(it(s, t) >= 0)],
        ensures=lambda s, rv, t: [('next element', And(it(s, t) == it(s.old, t) + 1, If(it(s, t) < n(s, t), rv == el(s, t, it(s, t)), rv == -1)))], modifies=fields('iterI')))
mk('IntStack', False)
mk('FlexIntStack', True)
