"""Contract of Model::generateMethodRepresentation, used by P05 (index from tasks to methods) and P07 (first/last/successor information)."""
from mlib import *
nT = lambda s, t: mf(s, t, 'numTasks'); nM = lambda s, t: mf(s, t, 'numMethods')
nsub = lambda s, t, i: num(s, t, 'numSubTasks', i); nord = lambda s, t, i: num(s, t, 'numOrderings', i)
dec = lambda s, t, i: num(s, t, 'decomposedTask', i); orow = lambda s, t, i: Select(s.heap0('i32'), row(s, t, 'ordering', i))
x, y = Ints('x? y?')
OFF = 8
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort()); I = z3.IntSort()
# number of ordering pairs (p,q) among the first h/2 pairs with p == v resp. q == v; number of j below n without a predecessor resp. successor
ecnt = z3.Function('pairs_from', ARR, I, I, I); scnt = z3.Function('pairs_to', ARR, I, I, I)
fpos = z3.Function('firsts_below', ARR, I, I, I); lpos = z3.Function('lasts_below', ARR, I, I, I)
A_ = z3.Const('A?', ARR); h_, v_, j_ = Ints('h? v? j?')
DEFS = [ForAll([A_, v_], And(ecnt(A_, 0, v_) == 0), patterns=[ecnt(A_, 0, v_)]), ForAll([A_, v_], scnt(A_, 0, v_) == 0, patterns=[scnt(A_, 0, v_)])]
def step2(A, h): return [('definition of the pair counts', ForAll([V], And(ecnt(A, h + 2, V) == ecnt(A, h, V) + b2i(Select(A, h) == V), ecnt(A, h, V) >= 0), patterns=[ecnt(A, h + 2, V)])), ('', ForAll([V], And(scnt(A, h + 2, V) == scnt(A, h, V) + b2i(Select(A, h + 1) == V), scnt(A, h, V) >= 0), patterns=[scnt(A, h + 2, V)]))]
def step1(A, h, j): return [('definition of the positions', And(fpos(A, h, j + 1) == fpos(A, h, j) + b2i(scnt(A, h, j) == 0), lpos(A, h, j + 1) == lpos(A, h, j) + b2i(ecnt(A, h, j) == 0), fpos(A, h, 0) == 0, lpos(A, h, 0) == 0))]
T = lambda s: s.args[0]
def req(s, t):
    m = nM(s, t); r = row(s, t, 'ordering', K); st = row(s, t, 'subTasks', K)
    return [('model', obj(s, t)), ('sizes', And(m >= 0, nT(s, t) > 0, m < 2**31, iarr(s, t, 'decomposedTask', m), iarr(s, t, 'numSubTasks', m), iarr(s, t, 'numOrderings', m), iarr(s, t, 'isPrimitive', nT(s, t), 1), iarr(s, t, 'ordering', m, 8), iarr(s, t, 'subTasks', m, 8))),
            ('decomposed tasks', all_in(s.arr(mf(s, t, 'decomposedTask')), 0, m, lambda k, x: And(0 <= x, x < nT(s, t)))),
            ('rows', ForAll([K], Implies(And(0 <= K, K < m), And(nsub(s, t, K) >= 0, nord(s, t, K) >= 0, nord(s, t, K) % 2 == 0, Implies(nord(s, t, K) > 0, And(r > 0, r < s.ctr, s.len(PE(r)) >= 4 * nord(s, t, K))), Implies(nsub(s, t, K) > 0, And(st > 0, st < s.ctr, s.len(PE(st)) >= 4 * nsub(s, t, K))))), patterns=[nsub(s, t, K), nord(s, t, K), r, st])),
            ('subtasks', ForAll([K, J], Implies(And(0 <= K, K < m, 0 <= J, J < nsub(s, t, K)), And(0 <= ent(s, t, 'subTasks', K, J), ent(s, t, 'subTasks', K, J) < nT(s, t))), patterns=[ent(s, t, 'subTasks', K, J)])),
            ('ordering pairs', ForAll([K, J], Implies(And(0 <= K, K < m, 0 <= J, J < nord(s, t, K)), And(0 <= ent(s, t, 'ordering', K, J), ent(s, t, 'ordering', K, J) < nsub(s, t, K))), patterns=[ent(s, t, 'ordering', K, J)]))]
# ---- part 1: methods of a task
tmp = lambda s: s.local('tTaskToMethods')
def vl(s): return s.ver.named(sel(s.map(('VLEN',)), tmp(s).obj))
def el(s, k, j): s.vdata(PE(tmp(s).obj, IntVal(0))); return Select(Select(s.heap0('i32'), z3.Function('vdata', I, I, I)(tmp(s).obj, k)), j)
D = lambda s, t: s.arr(mf(s, t, 'decomposedTask'))
WHICH = 1            # the part of the contract being generated (set by contract())
def vecs(s, i):
    t = T(s); L = vl(s); d = D(s.old, t)
    R = [('counts', ForAll([K], Implies(And(OFF <= K, K < OFF + nT(s, t)), Select(L, K) == cnt(d, 0, i, K - OFF)), patterns=[Select(L, K)])),
            ('elements', ForAll([K, J], Implies(And(OFF <= K, K < OFF + nT(s, t), 0 <= J, J < Select(L, K)), And(0 <= el(s, K, J), el(s, K, J) < i, Select(d, el(s, K, J)) == K - OFF)), patterns=[el(s, K, J)])),
            ('ascending', ForAll([K, J, x], Implies(And(OFF <= K, K < OFF + nT(s, t), 0 <= J, J < x, x < Select(L, K)), el(s, K, J) < el(s, K, x)), patterns=[z3.MultiPattern(el(s, K, J), el(s, K, x))])),
            ('positions', ForAll([x], Implies(And(0 <= x, x < i), And(0 <= cnt(d, 0, x, Select(d, x)), cnt(d, 0, x, Select(d, x)) < cnt(d, 0, i, Select(d, x)), el(s, Select(d, x) + OFF, cnt(d, 0, x, Select(d, x))) == x)), patterns=[Select(d, x)]))]
    return R if WHICH == 1 else [('vector lengths', ForAll([K], And(Select(L, K) >= 0, Select(L, K) <= i), patterns=[Select(L, K)]))]
def l1(s):
    i = s.local('i'); return [('range', And(0 <= i, i <= nM(s, T(s))))] + vecs(s, i)
NM = lambda s, t, f: num(s, t, 'numMethodsForTask', f); TM = lambda s, t, f, k: ent(s, t, 'taskToMethods', f, k); TR = lambda s, t, f: row(s, t, 'taskToMethods', f)
def index(s, n, post=False):
    if WHICH != 1: return []
    t = T(s)
    big = lambda f: And(TR(s, t, f) >= s.old.ctr, TR(s, t, f) < s.ctr, s.len(PE(TR(s, t, f))) == 4 * NM(s, t, f), *([] if post else [TR(s, t, f) != tmp(s).obj]), TR(s, t, f) != mf(s, t, 'numMethodsForTask').obj, TR(s, t, f) != mf(s, t, 'taskToMethods').obj)
    return [('sizes', ForAll([K], Implies(And(0 <= K, K < n), And(NM(s, t, K) == cnt(D(s.old, t), 0, nM(s, t), K), NM(s, t, K) >= 0, Implies(NM(s, t, K) > 0, big(K)))), patterns=[NM(s, t, K), TR(s, t, K)])),
            ('rows differ', ForAll([K, J], Implies(And(0 <= K, K < J, J < n, NM(s, t, K) > 0, NM(s, t, J) > 0), TR(s, t, K) != TR(s, t, J)), patterns=[z3.MultiPattern(TR(s, t, K), TR(s, t, J))]))]
def copied(s, n):
    if WHICH != 1: return []
    t = T(s); return [('copied', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < NM(s, t, K)), TM(s, t, K, J) == el(s, K + OFF, J)), patterns=[TM(s, t, K, J)]))]
def l2(s):
    t = T(s); i = s.local('i'); return [('range', And(0 <= i, i <= nT(s, t)))] + index(s, i) + copied(s, i)
def l3(s):
    t = T(s); i, j = s.local('i'), s.local('j'); r = TR(s, t, i); n = NM(s, t, i)
    return [('range', And(0 <= j, j <= n, n == cnt(D(s.old, t), 0, nM(s, t), i) if WHICH == 1 else n == Select(vl(s), i + OFF), Implies(n > 0, And(r >= s.old.ctr, r < s.ctr, r != tmp(s).obj, r != mf(s, t, 'numMethodsForTask').obj, r != mf(s, t, 'taskToMethods').obj, s.len(PE(r)) == 4 * n))))] + index(s, i) + copied(s, i) + \
        ([] if WHICH != 1 else [('this row', ForAll([K], Implies(And(0 <= K, K < i, NM(s, t, K) > 0, n > 0), TR(s, t, K) != r), patterns=[TR(s, t, K)]))]) + ([] if WHICH != 1 else [('this copy', ForAll([J], Implies(And(0 <= J, J < j), TM(s, t, i, J) == el(s, i + OFF, J)), patterns=[TM(s, t, i, J)]))])
def result1(s):
    """what the finished index says (independent of the temporary vectors)"""
    t = T(s); o = s.old; d = D(o, t); n = nT(s, t); pos = cnt(d, 0, x, Select(d, x))
    return [('number of methods of a task', ForAll([K], Implies(And(0 <= K, K < n), And(NM(s, t, K) >= 0, NM(s, t, K) == cnt(d, 0, nM(s, t), K))), patterns=[NM(s, t, K)])),
            ('listed methods decompose the task', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < NM(s, t, K)), And(0 <= TM(s, t, K, J), TM(s, t, K, J) < nM(s, t), Select(d, TM(s, t, K, J)) == K)), patterns=[TM(s, t, K, J)])),
            ('methods of a task ascending, each once', ForAll([K, J, x], Implies(And(0 <= K, K < n, 0 <= J, J < x, x < NM(s, t, K)), TM(s, t, K, J) < TM(s, t, K, x)), patterns=[z3.MultiPattern(TM(s, t, K, J), TM(s, t, K, x))])),
            ('every method is listed at its task', ForAll([x], Implies(And(0 <= x, x < nM(s, t)), And(0 <= pos, pos < NM(s, t, Select(d, x)), TM(s, t, Select(d, x), pos) == x)), patterns=[Select(d, x)]))]
# ---- part 2: first, last, successors
FAM = ('methodSubtaskSuccNum', 'methodsFirstTasks', 'methodsLastTasks')
OUTER = ('taskToMethods', 'numMethodsForTask', 'methodsFirstTasks', 'numFirstTasks', 'numFirstAbstractSubTasks', 'numFirstPrimSubTasks', 'methodsLastTasks', 'numLastTasks', 'methodSubtaskSuccNum')
def sep2(s, n, top=None):
    """the rows of part 2 are new objects, allocated in order"""
    t = T(s); r = [lambda i, f=f: row(s, t, f, i) for f in FAM]; base = mf(s, t, 'methodSubtaskSuccNum').obj
    ln = lambda i: And(s.len(PE(r[0](i))) == 4 * nsub(s, t, i), s.len(PE(r[1](i))) == 4 * num(s, t, 'numFirstTasks', i), s.len(PE(r[2](i))) == 4 * num(s, t, 'numLastTasks', i))
    return [('rows', ForAll([K], Implies(And(0 <= K, K < n), And(r[0](K) > base, r[0](K) < r[1](K), r[1](K) < r[2](K), r[2](K) < (s.ctr if top is None else top))), patterns=[r[0](K), r[1](K), r[2](K)]))]
ORD = lambda s, t, i: orow(s.old, t, i)
SN = lambda s, t, i, j: ent(s, t, 'methodSubtaskSuccNum', i, j); MF = lambda s, t, i, k: ent(s, t, 'methodsFirstTasks', i, k); ML = lambda s, t, i, k: ent(s, t, 'methodsLastTasks', i, k)
def info(s, n):
    """the three lists of the methods below n"""
    t = T(s); o = s.old; A = ORD(s, t, K); H = nord(o, t, K); N = nsub(o, t, K)
    def lst(E, cntf, pos, nf, what):
        return [('number of ' + what, ForAll([K], Implies(And(0 <= K, K < n), num(s, t, nf, K) == pos(A, H, N)), patterns=[num(s, t, nf, K)])), (what + ' not negative', ForAll([K], Implies(And(0 <= K, K < n), num(s, t, nf, K) >= 0), patterns=[num(s, t, nf, K)])),
                (what + ' qualify', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < num(s, t, nf, K)), And(0 <= E(s, t, K, J), E(s, t, K, J) < N, cntf(A, H, E(s, t, K, J)) == 0)), patterns=[E(s, t, K, J)])),
                (what + ' ascending', ForAll([K, J, x], Implies(And(0 <= K, K < n, 0 <= J, J < x, x < num(s, t, nf, K)), E(s, t, K, J) < E(s, t, K, x)), patterns=[z3.MultiPattern(E(s, t, K, J), E(s, t, K, x))])),
                ('all ' + what + ' listed', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < N, cntf(A, H, J) == 0), And(0 <= pos(A, H, J), pos(A, H, J) < num(s, t, nf, K), E(s, t, K, pos(A, H, J)) == J)), patterns=[pos(A, H, J)]))]
    A1 = [('successor counts', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < N), SN(s, t, K, J) == ecnt(A, H, J)), patterns=[SN(s, t, K, J)]))]
    return A1 if WHICH == 'succ' else lst(MF, scnt, fpos, 'numFirstTasks', 'first subtasks') if WHICH == 'first' else lst(ML, ecnt, lpos, 'numLastTasks', 'last subtasks') if WHICH == 'last' else []
def cur(s, stage):
    """the method being processed"""
    t = T(s); i = s.local('i'); o = s.old; A = ORD(s, t, i); H = nord(o, t, i); N = nsub(o, t, i)
    fi, la = s.local('firsts'), s.local('lasts'); r0 = row(s, t, FAM[0], i)
    FB = named_row(s, 'i8', fi); LB = named_row(s, 'i8', la); SB = s.ver.named(sel(s.heap('i32'), r0))
    R = [('this method', And(0 <= i, i < nM(s, t), fi.obj > mf(s, t, 'methodSubtaskSuccNum').obj, fi.obj < la.obj, la.obj < r0, r0 < s.ctr, fi.off == 0, la.off == 0, s.len(PE(r0)) == 4 * N, s.len(fi) == N, s.len(la) == N)),
         ('above earlier rows', ForAll([K], Implies(And(0 <= K, K < i), row(s, t, FAM[2], K) < fi.obj), patterns=[row(s, t, f, K) for f in FAM]))]
    return R, i, A, H, N, FB, LB, SB, r0
def arrays(s):
    t = T(s); p = [mf(s, t, f) for f in OUTER]; q = [8, 4, 8, 4, 4, 4, 8, 4, 8]; n = [nT(s, t), nT(s, t)] + [nM(s, t)] * 7
    return [('result arrays', And(p[0].obj > tmp(s).obj, tmp(s).obj == s.old.ctr, *[a.obj > b.obj for a, b in zip(p[1:], p)][0:1], *[s.len(a) == w * k for a, w, k in zip(p, q, n)], *[p[k + 1].obj > p[k].obj for k in range(1, 8)], p[8].obj < s.ctr, *[p[k].obj >= s.old.ctr for k in range(9)]))]
IND = [f for f in OUTER[2:]]
def part1_kept(s):
    if WHICH != 1: return []
    t = T(s)
    return [('index rows are older', ForAll([K], Implies(And(0 <= K, K < nT(s, t), NM(s, t, K) > 0), And(TR(s, t, K) >= s.old.ctr, TR(s, t, K) < mf(s, t, 'methodsFirstTasks').obj)), patterns=[TR(s, t, K)]))] + result1(s)
def l5(s):
    t = T(s); i = s.local('i')
    return [('range', And(0 <= i, i <= nM(s, t)))] + arrays(s) + part1_kept(s) + sep2(s, i) + info(s, i)
def inrange(s): i = s.local('i'); return [('method', And(0 <= i, i < nM(s, T(s))))]
def l6(s):
    R, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); j = s.local('j')
    return R + [('range', And(0 <= j, j <= N)), ('zero', ForAll([J], Implies(And(0 <= J, J < j), Select(SB, J) == 0), patterns=[Select(SB, J)]))]
def l7(s):
    R, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); j = s.local('ps')
    return R + [('range', And(0 <= j, j <= N)), ('all true', ForAll([J], Implies(And(0 <= J, J < j), And(Select(FB, J) == 1, Select(LB, J) == 1)), patterns=[Select(FB, J), Select(LB, J)]))]
def pairs(A, h, N, FB, LB, SB):
    return [('counted pairs', ForAll([J], Implies(And(0 <= J, J < N), And(Select(SB, J) == ecnt(A, h, J), ecnt(A, h, J) >= 0)), patterns=[Select(SB, J), ecnt(A, h, J)])),
            ('no predecessor', ForAll([J], Implies(And(0 <= J, J < N), And((Select(FB, J) != 0) == (scnt(A, h, J) == 0), scnt(A, h, J) >= 0)), patterns=[Select(FB, J), scnt(A, h, J)])),
            ('no successor', ForAll([J], Implies(And(0 <= J, J < N), (Select(LB, J) != 0) == (ecnt(A, h, J) == 0)), patterns=[Select(LB, J), ecnt(A, h, J)]))]
def l8(s):
    R, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); o = s.local('o')
    return R + [('range', And(0 <= o, o <= H, o % 2 == 0))] + pairs(A, o, N, FB, LB, SB)
def mono(pos, cntf, A, H, j): return ForAll([J], Implies(And(0 <= J, J <= j), And(0 <= pos(A, H, J), pos(A, H, J) <= pos(A, H, j), Implies(And(J < j, cntf(A, H, J) == 0), pos(A, H, J) < pos(A, H, j)))), patterns=[pos(A, H, J)])
def counts(s, i, A, H, j):
    t = T(s); n = lambda f: num(s, t, f, i)
    return [('number of firsts so far', And(n('numFirstTasks') == fpos(A, H, j), n('numFirstPrimSubTasks') + n('numFirstAbstractSubTasks') == fpos(A, H, j), n('numFirstPrimSubTasks') >= 0, n('numFirstAbstractSubTasks') >= 0, fpos(A, H, j) <= j, lpos(A, H, j) <= j)), ('number of lasts so far', n('numLastTasks') == lpos(A, H, j)), ('firsts ordered', mono(fpos, scnt, A, H, j)), ('lasts ordered', mono(lpos, ecnt, A, H, j))]
def l9(s):
    R, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); j = s.local('j')
    nf = {'first': 'numFirstTasks', 'last': 'numLastTasks'}.get(WHICH)
    return R + [('range', And(0 <= j, j <= N))] + counts(s, i, A, H, j) + ([('earlier methods', ForAll([K], Implies(And(0 <= K, K < i), num(s, T(s), nf, K) == num(s.entered(), T(s), nf, K)), patterns=[num(s, T(s), nf, K)]))] if nf else [])
def l10(s):
    R, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); j = s.local('j'); t = T(s)
    def part(f, E, cntf, pos, c, mine):
        r = row(s, t, f, i)
        return [('index ' + f, s.local(c) == pos(A, H, j)), ('row ' + f, And(r > r0, r < s.ctr)), ('ordered ' + f, mono(pos, cntf, A, H, j)), ('length ' + f, s.len(PE(r)) == 4 * pos(A, H, N))] + ([] if not mine else [
                ('qualify ' + f, ForAll([J], Implies(And(0 <= J, J < pos(A, H, j)), And(0 <= E(s, t, i, J), E(s, t, i, J) < j, cntf(A, H, E(s, t, i, J)) == 0)), patterns=[E(s, t, i, J)])),
                ('ascending ' + f, ForAll([J, x], Implies(And(0 <= J, J < x, x < pos(A, H, j)), E(s, t, i, J) < E(s, t, i, x)), patterns=[z3.MultiPattern(E(s, t, i, J), E(s, t, i, x))])),
                ('placed ' + f, ForAll([J], Implies(And(0 <= J, J < j, cntf(A, H, J) == 0), E(s, t, i, pos(A, H, J)) == J), patterns=[pos(A, H, J)]))])
    return R + [('range', And(0 <= j, j <= N, row(s, t, 'methodsFirstTasks', i) < row(s, t, 'methodsLastTasks', i)))] + part('methodsFirstTasks', MF, scnt, fpos, 'curFI', WHICH == 'first') + part('methodsLastTasks', ML, ecnt, lpos, 'curLI', WHICH == 'last')
def fr5(s):
    t = T(s); return {'i32': [mf(s, t, f) for f in ('numFirstTasks', 'numFirstAbstractSubTasks', 'numFirstPrimSubTasks', 'numLastTasks')], 'ptr': [mf(s, t, f) for f in FAM], 'i8': []}
def lem8(s): _, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); return step2(A, s.local('o'))
def lem9(s): _, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); return step1(A, H, s.local('j'))
def fr1(s): return {'i32': [lambda x: s.ver.root(x) == tmp(s).obj]}
def lem1(s):
    if WHICH != 1: return []
    d = D(s.old, T(s)); i = s.local('i'); return [ForAll([V], M.extend(d, 0, i, V), patterns=[cnt(d, 0, i + 1, V)])]
def lem2(s):
    if WHICH != 1: return []
    d = D(s.old, T(s)); n = nM(s, T(s)); return [ForAll([V], M.two_values(d, 0, n, V, V + 1), patterns=[cnt(d, 0, n, V)])]
def zero9(s): _, i, A, H, N, FB, LB, SB, r0 = cur(s, 0); return [And(fpos(A, H, 0) == 0, lpos(A, H, 0) == 0)]
def contract(which):
    def rq(s, t):
        global WHICH
        WHICH = which; return req(s, t)
    nMv = lambda s: nM(s, T(s)) - s.local('i'); N_ = lambda s: nsub(s, T(s), s.local('i'))
    return Contract(MP + 'generateMethodRepresentation()' + (' #%s' % which if which != 1 else ''), requires=rq, allocs=True, opts=dict(forget=True), modifies=lambda s, t: [('Model.' + f, t) for f in OUTER],
        ensures=lambda s, rv, t: result1(s) if which == 1 else info(s, nM(s, t)),
        loops={1: Loop(l1, variant=nMv, frame=fr1, lemma=lem1), 2: Loop(l2, init_lemma=lem2, variant=lambda s: nT(s, T(s)) - s.local('i')), 3: Loop(l3, variant=lambda s: NM(s, T(s), s.local('i')) - s.local('j')),
               5: Loop(l5, variant=nMv, frame=fr5), 6: Loop(l6, variant=lambda s: N_(s) - s.local('j')), 7: Loop(l7, variant=lambda s: N_(s) - s.local('ps')), 8: Loop(l8, variant=lambda s: nord(s, T(s), s.local('i')) - s.local('o'), lemma=lem8),
               9: Loop(l9, variant=lambda s: N_(s) - s.local('j'), lemma=lem9, init_lemma=zero9), 10: Loop(l10, variant=lambda s: N_(s) - s.local('j'), lemma=lem9, init_lemma=zero9)})
