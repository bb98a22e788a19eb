"""P08: strongly connected components and reachability of struct graph (sat/disabling_graph.cpp)."""
from mlib import *
from cntmath import AXIOMS as CNT, prove_axioms, cnt, extend as cnt_ext, split as cnt_split, two_values as cnt_two_values
import re
from models import vlen_get, vlen_set, vd, loc, scalar_of
from vc import upd
TU = '#include "sat/disabling_graph.cpp"\n#include "Model.cpp"\n'
CONTRACTS = []; add = CONTRACTS.append
I = z3.IntSort(); AR = z3.ArraySort(I, I); B = z3.BoolSort()
# ghost: position of a vertex on the stack (set when it is pushed)
OPTS = {'ghost': {'pos': AR, 'qhead': I, 'qpos': AR}}
class Rx:
    def __init__(self, p): self.pattern = p; self.rx = re.compile(p)
    def match(self, d): return self.rx.match(d)
def push(ver, st, d, args, ins, m):
    th = args[0]; n = vlen_get(ver, st, th); key = ('H', 'i32'); v = scalar_of(ver, st, args[1], key); D = vd(ver, st, th)
    mm = ver.getmap(st, key, ('int', 32)); ver.setmap(st, key, upd(mm, D, upd(sel(mm, D), n, v)), D); vlen_set(ver, st, th, n + 1)
    ver.setghost(st, 'pos', z3.Store(ver.getghost(st, 'pos'), v, n)); return None
MODELS = [(Rx(r'std::vector<int, std::allocator<int> ?>::push_back\('), push)]
# ---- reachability: the smallest reflexive and transitive relation that contains the edges (the smallest: used once, see least())
R = z3.Function('reaches', I, I, B)
X, Y, Z_ = Ints('x? y? z?')
ne = z3.Function('component', I, B)     # no meaning: makes a number known to the instantiation of quantified facts
AXIOMS = CNT + [ForAll([X], ne(X), patterns=[ne(X)])]
RAX = [ForAll([X], R(X, X), patterns=[R(X, X)]), ForAll([X, Y, Z_], Implies(And(R(X, Y), R(Y, Z_)), R(X, Z_)), patterns=[z3.MultiPattern(R(X, Y), R(Y, Z_))])]
class SCC:
    """the component search of one class; acc: how the class represents the graph and the state of the search"""
    def __init__(self, acc):
        self.__dict__.update(acc); N = build(**acc); self.__dict__.update(N)
def build(cls, gf, V, inV, graph_ok, edges, comp, inv, sv, objs, rows_apart):
    # ---- state of the component search
    U = lambda s: s.arr(sv(s, 'U'), 'i8'); CS = lambda s: s.arr(sv(s, 'containedS'), 'i8'); DF = lambda s: s.arr(sv(s, 'dfsI')); LOW = lambda s: s.arr(sv(s, 'lowlink'))
    ST = lambda s: s.varr(sv(s, 'S')); SN = lambda s: s.vlen(sv(s, 'S')); POS = lambda s: s.g('pos'); C = lambda s, t: s.arr(gf(s, t, comp)); NC = lambda s, t: gf(s, t, 'numSCCs'); MD = lambda s: sv(s, 'maxdfs')
    un = lambda s, x: Select(U(s), x) == 1; on = lambda s, x: Select(CS(s), x) == 1
    done = lambda s, x: And(Not(un(s, x)), Not(on(s, x)))
    def work(s, t): return [sv(s, x) for x in ('U', 'containedS', 'dfsI', 'lowlink')] + [gf(s, t, comp)]
    def storage(s, t):
        n = V(s, t); W = work(s, t); S = sv(s, 'S'); D = s.vdata(S); model = objs(s, t); own = [p.obj for p in W] + [S.obj, D.obj]
        return [('work arrays', And(*[And(p.obj > 0, p.obj < s.ctr, p.off == 0, s.len(p) >= w * n) for p, w in zip(W, (1, 1, 4, 4, 4))], S.obj > 0, S.obj < s.ctr, S.off == 0, z3.Distinct(*own), *[x != y for x in own for y in model]))] + rows_apart(s, t, own)
    def wf(s, t):
        """the invariant of the search"""
        n = SN(s); x = Select(ST(s), K); y = Select(ST(s), J); c = lambda v: Select(C(s, t), v)
        return [('flags', ForAll([K], Implies(inV(s, t, K), And(Or(Select(U(s), K) == 0, un(s, K)), Or(Select(CS(s), K) == 0, on(s, K)), Implies(un(s, K), Not(on(s, K))))), patterns=[Select(U(s), K), Select(CS(s), K)])),
            ('counters', And(NC(s, t) >= 0, MD(s) >= 0, NC(s, t) + n + cnt(U(s), 0, V(s, t), 1) <= V(s, t))),
            ('assigned', ForAll([K], Implies(And(inV(s, t, K), done(s, K)), And(0 <= c(K), c(K) < NC(s, t))), patterns=[c(K), Select(CS(s), K)])),
            ('numbers', ForAll([K], Implies(And(inV(s, t, K), Not(un(s, K))), And(0 <= Select(DF(s), K), Select(DF(s), K) < MD(s))), patterns=[Select(DF(s), K)])),
            ('stack', ForAll([K], Implies(And(0 <= K, K < n), And(inV(s, t, x), on(s, x), Not(un(s, x)), Select(POS(s), x) == K)), patterns=[x])),
            ('stack positions', ForAll([K], Implies(And(inV(s, t, K), on(s, K)), And(0 <= Select(POS(s), K), Select(POS(s), K) < n, Select(ST(s), Select(POS(s), K)) == K)), patterns=[Select(CS(s), K)])),
            ('stack order', ForAll([K, J], Implies(And(0 <= K, K < J, J < n), Select(DF(s), x) < Select(DF(s), y)), patterns=[z3.MultiPattern(x, y)])),
            ('edges of assigned vertices', edges(s, t, [K], And(inV(s, t, K), done(s, K)), K, lambda e: And(done(s, e), c(e) <= c(K)))),
            ('same component', ForAll([K, J], Implies(And(inV(s, t, K), inV(s, t, J), done(s, K), done(s, J), c(K) == c(J)), R(K, J)), patterns=[z3.MultiPattern(c(K), c(J))])),
            ('components are not empty', ForAll([K], Implies(And(ne(K), 0 <= K, K < NC(s, t)), Exists([J], And(inV(s, t, J), done(s, J), c(J) == K), patterns=[c(J)])), patterns=[ne(K)]))]
    def kept(o, s, t):
        """what a search below leaves unchanged"""
        return [('visited stay visited', ForAll([K], Implies(And(inV(s, t, K), Not(un(o, K))), And(Not(un(s, K)), Select(DF(s), K) == Select(DF(o), K), Select(CS(s), K) == Select(CS(o), K), Implies(done(o, K), Select(C(s, t), K) == Select(C(o, t), K)))), patterns=[Select(U(s), K), Select(C(o, t), K), Select(CS(s), K), Select(DF(s), K)])),
            ('lowlinks', ForAll([K], Implies(And(inV(s, t, K), Not(un(o, K))), Select(LOW(s), K) == Select(LOW(o), K)), patterns=[Select(LOW(s), K)])),
            ('stack below', ForAll([K], Implies(And(0 <= K, K < SN(o)), Select(ST(s), K) == Select(ST(o), K)), patterns=[Select(ST(s), K), Select(ST(o), K)])),
            ('counters grow', And(NC(s, t) >= NC(o, t), MD(s) >= MD(o), SN(s) >= SN(o)))]
    unv = lambda s, t: cnt(U(s), 0, V(s, t), 1)
    def t_req(s, t, v): return graph_ok(s, t) + storage(s, t) + wf(s, t) + [('vertex', And(inV(s, t, v), un(s, v))), ('stack reaches the vertex', ForAll([K], Implies(And(0 <= K, K < SN(s)), R(Select(ST(s), K), v)), patterns=[Select(ST(s), K)]))]
    def above(s, o, t, v, lo):
        """the vertices that the search below v left on the stack"""
        x = Select(ST(s), K)
        return [('new stack and the vertex reach each other', ForAll([K], Implies(And(lo <= K, K < SN(s)), And(R(x, v), R(v, x))), patterns=[x])),
            ('edges of new stack vertices', edges(s, t, [K], And(lo <= K, K < SN(s)), x, lambda e: And(Not(un(s, e)), Implies(on(s, e), Select(DF(s), e) >= Select(LOW(s), v)))))]
    def low(s, o, t, v, hi): z = Z_; return Exists([z], And(0 <= z, z < hi, Select(LOW(s), v) == Select(DF(s), Select(ST(s), z)), R(v, Select(ST(s), z))), patterns=[Select(ST(s), z)])
    def t_ens(s, rv, t, v):
        o = s.old; l = Select(LOW(s), v); d = Select(DF(s), v)
        return wf(s, t) + kept(o, s, t) + [('visited', And(Not(un(s, v)), d == MD(o), l <= d)), ('fewer unvisited', unv(s, t) < unv(o, t))] + above(s, o, t, v, SN(o)) + \
            [('root', If(l == d, SN(s) == SN(o), And(SN(s) > SN(o), Select(ST(s), SN(o)) == v, low(s, o, t, v, SN(o)))))]
    def TM(s, t, v=None): return [('i8', sv(s, 'U')), ('i8', sv(s, 'containedS')), ('i32', sv(s, 'dfsI')), ('i32', sv(s, 'lowlink')), ('i32', gf(s, t, comp)), ('i32', s.vdata(sv(s, 'S'))), ('VLEN', sv(s, 'S')), (cls + '.numSCCs', t)]
    def edges_loop(s, i, hi, sofar):
        o = s.old; t, v = s.args; k = SN(o); l = Select(LOW(s), v); d = Select(DF(s), v)
        return [('range', And(0 <= i, i <= hi))] + wf(s, t) + kept(o, s, t) + [('fewer unvisited', unv(s, t) < unv(o, t)),
            ('vertex', And(SN(s) > k, Select(ST(s), k) == v, Not(un(s, v)), on(s, v), d == MD(o), l <= d))] + above(s, o, t, v, k + 1) + \
            [('lowlink', low(s, o, t, v, k + 1)), ('edges so far', edges(s, t, [], True, v, lambda e: And(Not(un(s, e)), Implies(on(s, e), Select(DF(s), e) >= l)), sofar))]
    def pop_loop(s):
        o = s.old; t, v = s.args; k = SN(o); E = s.entered(); P = lambda x: And(on(E, x), Select(POS(E), x) >= SN(s))
        return [('range', And(k < SN(s), SN(s) <= SN(E))), ('popped', ForAll([K], Implies(inV(s, t, K), And(Select(CS(s), K) == If(P(K), 0, Select(CS(E), K)), Select(C(s, t), K) == If(P(K), NC(s, t), Select(C(E, t), K)))), patterns=[Select(CS(s), K), Select(C(s, t), K)]))]
    # ---- calcSCCs
    def fresh_(s, p, n, w=4): return And(p.obj >= s.old.ctr, p.obj < s.ctr, p.off == 0, s.len(p) >= w * n)
    def work_new(s, t):
        n = V(s, t); W = work(s, t); S = sv(s, 'S')
        return [('new work arrays', And(*[fresh_(s, p, n, w) for p, w in zip(W, (1, 1, 4, 4, 4))], S.obj >= s.old.ctr, S.obj < s.ctr, z3.Distinct(*[p.obj for p in W], S.obj)))]
    def l_init(s): t = s.args[0]; return [cnt_two_values(U(s), 0, V(s, t), 1, 0), cnt(U(s), 0, V(s, t), 0) >= 0]
    def c_init(s):
        t = s.args[0]; i = s.local('i'); return [('range', And(0 <= i, i <= V(s, t)))] + work_new(s, t) + [('counters', And(NC(s, t) == 0, MD(s) == 0, SN(s) == 0)), ('all unvisited', ForAll([K], Implies(And(0 <= K, K < i), And(un(s, K), Not(on(s, K)), Select(CS(s), K) == 0, Select(C(s, t), K) == -1)), patterns=[Select(U(s), K), Select(CS(s), K), Select(C(s, t), K)]))]
    def c_main(s):
        t = s.args[0]; i = s.local('i'); return [('range', And(0 <= i, i <= V(s, t)))] + work_new(s, t) + wf(s, t) + [('stack empty', SN(s) == 0), ('visited so far', ForAll([K], Implies(And(0 <= K, K < i), Not(un(s, K))), patterns=[Select(U(s), K)]))]
    def final(s, t, c=None):
        """the component numbers"""
        c = lambda v: Select(C(s, t), v)
        return [('in range', ForAll([K], Implies(inV(s, t, K), And(0 <= c(K), c(K) < NC(s, t))), patterns=[c(K)])), ('same component: connected', ForAll([K, J], Implies(And(inV(s, t, K), inV(s, t, J), c(K) == c(J)), And(R(K, J), R(J, K))), patterns=[z3.MultiPattern(c(K), c(J))])),
            ('edges', edges(s, t, [K], inV(s, t, K), K, lambda e: c(e) <= c(K))),
            ('components are not empty', ForAll([K], Implies(And(ne(K), 0 <= K, K < NC(s, t)), Exists([J], And(inV(s, t, J), c(J) == K), patterns=[c(J)])), patterns=[ne(K)])), ('component count', And(NC(s, t) >= 0, NC(s, t) <= V(s, t)))]
    SZ = lambda s, t: s.arr(gf(s, t, 'sccSize')); LC = lambda s: s.local('currentI')
    def numbers(s, t): p = gf(s, t, comp); return [('component array', fresh_(s, p, V(s, t)))] + final(s, t)
    def c_zero(s): t = s.args[0]; i = s.local('i'); p = gf(s, t, 'sccSize'); return [('range', And(0 <= i, i <= NC(s, t), fresh_(s, p, NC(s, t)), p.obj != gf(s, t, comp).obj))] + numbers(s, t) + [('zero', ForAll([K], Implies(And(0 <= K, K < i), Select(SZ(s, t), K) == 0), patterns=[Select(SZ(s, t), K)]))]
    def sizes(s, t, n): return [('sizes', ForAll([K], Implies(And(0 <= K, K < NC(s, t)), Select(SZ(s, t), K) == cnt(C(s, t), 0, n, K)), patterns=[Select(SZ(s, t), K)])), ('size array', And(fresh_(s, gf(s, t, 'sccSize'), NC(s, t)), gf(s, t, 'sccSize').obj != gf(s, t, comp).obj))]
    def c_count(s): t = s.args[0]; i = s.local('i'); return [('range', And(0 <= i, i <= V(s, t)))] + numbers(s, t) + sizes(s, t, i)
    def l_count(s): t = s.args[0]; i = s.local('i'); return [ForAll([K], cnt_ext(C(s, t), 0, i, K), patterns=[Select(SZ(s, t), K)])]
    def members(s, t):
        p = gf(s, t, inv); return [('member lists', And(fresh_(s, p, NC(s, t), 8), p.obj != gf(s, t, comp).obj, p.obj != gf(s, t, 'sccSize').obj))]
    def c_zero2(s): t = s.args[0]; i = s.local('i'); p = LC(s); return [('range', And(0 <= i, i <= NC(s, t), fresh_(s, p, NC(s, t)), p.obj != gf(s, t, comp).obj, p.obj != gf(s, t, 'sccSize').obj, p.obj != gf(s, t, inv).obj))] + numbers(s, t) + sizes(s, t, V(s, t)) + members(s, t) + [('zero', ForAll([K], Implies(And(0 <= K, K < i), Select(s.arr(p), K) == 0), patterns=[Select(s.arr(p), K)]))]
    mrow = lambda s, t, c: Select(s.arr(gf(s, t, inv), 'ptr'), c); mem = lambda s, t, c, j: Select(Select(s.heap0('i32'), mrow(s, t, c)), j)
    def rows_(s, t, n, cur=True):
        r, r2 = mrow(s, t, K), mrow(s, t, J); objs = [gf(s, t, x).obj for x in (comp, 'sccSize', inv)] + ([LC(s).obj] if cur else [])
        return [('member rows', ForAll([K], Implies(And(0 <= K, K < n), And(r >= s.old.ctr, r < s.ctr, s.len(PE(r)) >= 4 * Select(SZ(s, t), K), *[r != x for x in objs])), patterns=[r])), ('member rows differ', ForAll([K, J], Implies(And(0 <= K, K < J, J < n), r != r2), patterns=[z3.MultiPattern(r, r2)]))]
    def cur_arr(s, t): p = LC(s); return [('cursor array', And(fresh_(s, p, NC(s, t)), *[p.obj != gf(s, t, x).obj for x in (comp, 'sccSize', inv)]))]
    def c_alloc(s): t = s.args[0]; i = s.local('i'); p = LC(s); return [('range', And(0 <= i, i <= NC(s, t)))] + cur_arr(s, t) + numbers(s, t) + sizes(s, t, V(s, t)) + members(s, t) + rows_(s, t, i) + [('zero', ForAll([K], Implies(And(0 <= K, K < NC(s, t)), Select(s.arr(p), K) == 0), patterns=[Select(s.arr(p), K)]))]
    def filled(s, t, n, c):
        sc = lambda v: Select(C(s, t), v); k = cnt(C(s, t), 0, K, sc(K)); m = mem(s, t, K, J)
        return [('every vertex is listed', ForAll([K], Implies(And(0 <= K, K < n), And(0 <= k, k < c(sc(K)), mem(s, t, sc(K), k) == K)), patterns=[sc(K)])),
            ('listed vertices', ForAll([K, J], Implies(And(0 <= K, K < NC(s, t), 0 <= J, J < c(K)), And(0 <= m, m < n, sc(m) == K)), patterns=[m])),
            ('listed once', ForAll([K, J, X], Implies(And(0 <= K, K < NC(s, t), 0 <= J, J < X, X < c(K)), m < mem(s, t, K, X)), patterns=[z3.MultiPattern(m, mem(s, t, K, X))]))]
    def c_fill(s):
        t = s.args[0]; i = s.local('i'); A = s.arr(LC(s)); return [('range', And(0 <= i, i <= V(s, t)))] + cur_arr(s, t) + numbers(s, t) + sizes(s, t, V(s, t)) + members(s, t) + rows_(s, t, NC(s, t)) + \
            [('cursors', ForAll([K], Implies(And(0 <= K, K < NC(s, t)), Select(A, K) == cnt(C(s, t), 0, i, K)), patterns=[Select(A, K)]))] + filled(s, t, i, lambda c: Select(A, c))
    def split(s):
        t = s.args[0]; i = s.local('i'); a = C(s, t); c = Select(a, i); return [ForAll([K], cnt_ext(a, 0, i, K), patterns=[Select(s.arr(LC(s)), K)]), cnt_ext(a, 0, i, c), cnt_split(a, 0, i + 1, V(s, t), c), cnt(a, i + 1, V(s, t), c) >= 0]
    def least(s, rv, t):
        """reachability is the smallest such relation: a set that is closed under the edges contains what its members reach; for the sets {y : number of y <= number of x}"""
        c = lambda v: Select(C(s, t), v)
        return [Implies(edges(s, t, [K], inV(s, t, K), K, lambda e: c(e) <= c(K)), ForAll([X, Y], Implies(And(inV(s, t, X), inV(s, t, Y), R(X, Y)), c(Y) <= c(X)), patterns=[R(X, Y)]))]
    def c_ens(s, rv, t):
        c = lambda v: Select(C(s, t), v); z = lambda k: Select(SZ(s, t), k)
        return final(s, t)[:1] + [('same component exactly if each reaches the other', ForAll([K, J], Implies(And(inV(s, t, K), inV(s, t, J)), (c(K) == c(J)) == And(R(K, J), R(J, K))), patterns=[z3.MultiPattern(c(K), c(J))])), ] + final(s, t)[3:] + \
            [('sizes', ForAll([K], Implies(And(0 <= K, K < NC(s, t)), z(K) == cnt(C(s, t), 0, V(s, t), K)), patterns=[z(K)]))] + filled(s, t, V(s, t), z) + \
            [('new arrays', And(*[And(gf(s, t, x).obj >= s.old.ctr, gf(s, t, x).obj < s.ctr, gf(s, t, x).off == 0, s.len(gf(s, t, x)) >= w * n) for x, w, n in ((comp, 4, V(s, t)), ('sccSize', 4, NC(s, t)), (inv, 8, NC(s, t)))]))]
    return dict(locals())
gf = lambda s, t, f: s.f(t, 'graph.' + f)
V = lambda s, t: gf(s, t, 'numVertices')
grow = lambda s, t, v, f='adj': Select(s.arr(gf(s, t, f), 'ptr'), v)
deg = lambda s, t, v: Select(s.arr(gf(s, t, 'adjSize')), v)
edge = lambda s, t, v, j: Select(Select(s.heap0('i32'), grow(s, t, v)), j)
inV = lambda s, t, x: And(0 <= x, x < V(s, t))
def graph(s, t, rel=True):
    n = V(s, t); r = grow(s, t, K); a, z = gf(s, t, 'adj'), gf(s, t, 'adjSize')
    return [('graph', And(obj(s, t), 0 <= n, n < 2**29, *[And(p.obj > 0, p.obj < s.ctr, p.off == 0, s.len(p) >= w * n) for p, w in ((a, 8), (z, 4))])),
        ('rows', ForAll([K], Implies(inV(s, t, K), And(deg(s, t, K) >= 0, deg(s, t, K) < 2**30, r > 0, r < s.ctr, s.len(PE(r)) >= 4 * deg(s, t, K))), patterns=[deg(s, t, K), r])),
        ('edges', ForAll([K, J], Implies(And(inV(s, t, K), 0 <= J, J < deg(s, t, K)), And(inV(s, t, edge(s, t, K, J)), *([R(K, edge(s, t, K, J))] if rel else []))), patterns=[edge(s, t, K, J)]))]
def edges(s, t, xs, c, v, body, sofar=None): e = edge(s, t, v, J); return ForAll(xs + [J], Implies(And(c, 0 <= J, J < (deg(s, t, v) if sofar is None else sofar)), body(e)), patterns=[e])
comp, inv = 'vertexToSCC', 'sccToVertices'
sv = lambda s, x: s.glob(x)      # state of the search: global variables
def objs(s, t): return [t.obj, gf(s, t, 'adj').obj, gf(s, t, 'adjSize').obj]
def rows_apart(s, t, own): return [('rows are not work arrays', ForAll([K], Implies(inV(s, t, K), And(*[grow(s, t, K) != x for x in own])), patterns=[grow(s, t, K)]))]
GA = dict(cls='graph', gf=gf, V=V, inV=inV, graph_ok=graph, edges=edges, comp=comp, inv=inv, sv=sv, objs=objs, rows_apart=rows_apart)
G = SCC(GA); NC = G.NC; fresh_ = G.fresh_
add(Contract('graph::tarjan(int)', requires=G.t_req, ensures=G.t_ens, modifies=G.TM, globals_mod=('maxdfs',), ghost_mod=('pos',), decreases=lambda s, t, v: G.unv(s, t), axioms=RAX,
    loops={0: Loop(lambda s: G.edges_loop(s, s.local('i'), deg(s, *s.args), s.local('i'))), 1: Loop(G.pop_loop, variant=lambda s: G.SN(s))}))
GLOB = ('maxdfs', 'U', 'S', 'containedS', 'dfsI', 'lowlink')
new_only = lambda s: {'i32': [lambda x: Not(s.ver.pre_existing(x))]}
add(Contract('graph::calcSCCs()', requires=lambda s, t: graph(s, t), ensures=G.c_ens, lemma=G.least, axioms=RAX, allocs=True, globals_mod=GLOB, ghost_mod=('pos',), modifies=lambda s, t: [('graph.' + f, t) for f in ('numSCCs', 'vertexToSCC', 'sccToVertices', 'sccSize')],
    loops={0: Loop(G.c_init, lemma=G.l_init, init_lemma=G.l_init), 1: Loop(G.c_main), 2: Loop(G.c_zero), 3: Loop(G.c_count, lemma=G.l_count, init_lemma=G.l_count), 4: Loop(G.c_zero2), 5: Loop(G.c_alloc), 6: Loop(G.c_fill, lemma=G.split, frame=new_only)}))
# ---- construction from sets of neighbours
add(Contract('graph::graph(int)', requires=lambda s, t, n: [And(t.obj > 0, t.obj < s.ctr, n >= 0, n < 2**29)], allocs=True, modifies=lambda s, t, n: [('graph.' + f, t) for f in ('numVertices', 'adj', 'adjSize', 'numSCCs', 'vertexToSCC', 'sccToVertices', 'sccSize')],
    ensures=lambda s, rv, t, n: [('vertices', V(s, t) == n), ('new arrays', And(fresh_(s, gf(s, t, 'adj'), n, 8), fresh_(s, gf(s, t, 'adjSize'), n), gf(s, t, 'adj').obj != gf(s, t, 'adjSize').obj))]))
nset = lambda s, S, i: Select(s.ver.named(sel(s.map(('SMEM',)), s.vdata(S).obj)), i)
def vec_sets(s, S, lim=None):
    n = s.vlen(S); F = [('sets', n < 2**29), ('finite sets', ForAll([K], Implies(And(0 <= K, K < n), And(s_fin(nset(s, S, K)), s_card(nset(s, S, K)) >= 0, s_card(nset(s, S, K)) < 2**30)), patterns=[nset(s, S, K)]))]
    return F
def built(s, t, S, n):
    r = grow(s, t, K); own = [gf(s, t, f).obj for f in ('adj', 'adjSize')]
    return [('degrees', ForAll([K], Implies(And(0 <= K, K < n), deg(s, t, K) == s_card(nset(s, S, K))), patterns=[deg(s, t, K), r])), ('rows', ForAll([K], Implies(And(0 <= K, K < n), And(r >= s.old.ctr, r < s.ctr, *[r != x for x in own], s.len(PE(r)) >= 4 * deg(s, t, K))), patterns=[r, deg(s, t, K)])),
        ('rows differ', ForAll([K, J], Implies(And(0 <= K, K < J, J < n), r != grow(s, t, J)), patterns=[z3.MultiPattern(r, grow(s, t, J))])),
        ('neighbours', ForAll([K, J], Implies(And(0 <= K, K < n, 0 <= J, J < deg(s, t, K)), edge(s, t, K, J) == s_en(nset(s, S, K), J)), patterns=[edge(s, t, K, J)]))]
def b_arr(s, t, S): n = V(s, t); return [('graph', And(n == s.vlen(S), fresh_(s, gf(s, t, 'adj'), n, 8), fresh_(s, gf(s, t, 'adjSize'), n), gf(s, t, 'adj').obj != gf(s, t, 'adjSize').obj))]
def b_outer(s): t, S = s.args; i = s.local('i'); return [('range', And(0 <= i, i <= V(s, t)))] + b_arr(s, t, S) + built(s, t, S, i)
def b_inner(s):
    t, S = s.args; i = s.local('i'); r = grow(s, t, i); it = s.iter(); Q = nset(s, S, i); own = [gf(s, t, f).obj for f in ('adj', 'adjSize')]
    return [('range', And(0 <= i, i < V(s, t), 0 <= it, it <= s_card(Q), s.local('pos') == it, deg(s, t, i) == s_card(Q)))] + b_arr(s, t, S) + built(s, t, S, i) + [('this row', And(r >= s.old.ctr, r < s.ctr, *[r != x for x in own], s.len(PE(r)) >= 4 * s_card(Q), ForAll([K], Implies(And(0 <= K, K < i), grow(s, t, K) != r), patterns=[grow(s, t, K)]))),
        ('this neighbours', ForAll([J], Implies(And(0 <= J, J < it), edge(s, t, i, J) == s_en(Q, J)), patterns=[edge(s, t, i, J)]))]
def g_ens(s, rv, t, S):
    return b_arr(s, t, S) + built(s, t, S, V(s, t)) + [('every neighbour is listed once', ForAll([K, X], Implies(And(inV(s, t, K), Select(nset(s, S, K), X)), And(0 <= s_rank(nset(s, S, K), X), s_rank(nset(s, S, K), X) < deg(s, t, K), edge(s, t, K, s_rank(nset(s, S, K), X)) == X)), patterns=[Select(nset(s, S, K), X)])),
        ('only neighbours are listed', ForAll([K, J], Implies(And(inV(s, t, K), 0 <= J, J < deg(s, t, K)), And(Select(nset(s, S, K), edge(s, t, K, J)), s_rank(nset(s, S, K), edge(s, t, K, J)) == J)), patterns=[edge(s, t, K, J)]))]
SETV = 'std::vector<std::unordered_set<int, std::hash<int>, std::equal_to<int>, std::allocator<int> >, std::allocator<std::unordered_set<int, std::hash<int>, std::equal_to<int>, std::allocator<int> > > >'
add(Contract('graph::graph(%s&)' % SETV, requires=lambda s, t, S: [And(t.obj > 0, t.obj < s.ctr)] + vec_sets(s, S), ensures=g_ens, allocs=True, modifies=lambda s, t, S: [('graph.' + f, t) for f in ('numVertices', 'adj', 'adjSize', 'numSCCs', 'vertexToSCC', 'sccToVertices', 'sccSize')],
    loops={0: Loop(b_outer, frame=lambda s: {'i32': [lambda x: Not(s.ver.pre_existing(x))], 'ptr': [lambda x: Not(s.ver.pre_existing(x))]}), 1: Loop(b_inner)}))
# ---- calcSCCGraph
EP = lambda c, d: None
cn = lambda s, t, v: Select(s.arr(gf(s, t, 'vertexToSCC')), v)
w1 = z3.Function('edge_from', I, I, I); w2 = z3.Function('edge_no', I, I, I)
def sg_only(s, t, S, i, j):
    m = Select(nset(s, S, K), X); a, b = Ints('ea? eb?'); e = edge(s, t, a, b)
    return [('only edges between components', ForAll([K, X], Implies(And(0 <= K, K < NC(s, t), m), And(K != X, 0 <= X, X < NC(s, t), Exists([a, b], And(0 <= a, Or(a < i, And(a == i, b < j)), inV(s, t, a), 0 <= b, b < deg(s, t, a), cn(s, t, a) == K, cn(s, t, e) == X), patterns=[e]))), patterns=[m]))]
def sg_all(s, t, S, i, j):
    e = edge(s, t, K, J); return [('all edges between components', ForAll([K, J], Implies(And(0 <= K, Or(K < i, And(K == i, J < j)), inV(s, t, K), 0 <= J, J < deg(s, t, K), cn(s, t, K) != cn(s, t, e)), Select(nset(s, S, cn(s, t, K)), cn(s, t, e))), patterns=[e]))]
def sg_sets(s, t, S): return [('sets', s.vlen(S) == NC(s, t)), ('finite', ForAll([K], Implies(And(0 <= K, K < NC(s, t)), And(s_fin(nset(s, S, K)), s_card(nset(s, S, K)) >= 0)), patterns=[nset(s, S, K)]))]
def sg_outer(s): t = s.args[0]; i = s.local('i'); S = s.local('sccg'); return [('range', And(0 <= i, i <= V(s, t)))] + sg_sets(s, t, S) + sg_only(s, t, S, i, IntVal(0)) + sg_all(s, t, S, i, IntVal(0))
def sg_inner(s): t = s.args[0]; i = s.local('i'); j = s.local('j'); S = s.local('sccg'); return [('range', And(0 <= i, i < V(s, t), 0 <= j, j <= deg(s, t, i)))] + sg_sets(s, t, S) + sg_only(s, t, S, i, j) + sg_all(s, t, S, i, j)
def sg_card(s): t = s.args[0]; S = s.local('sccg'); return [ForAll([K], card_bound(nset(s, S, K), NC(s, t)), patterns=[nset(s, S, K)])]
def sg_req(s, t): c = gf(s, t, 'vertexToSCC'); return graph(s, t, False) + [('components', And(0 <= NC(s, t), NC(s, t) < 2**29, c.obj > 0, c.obj < s.ctr, c.off == 0, s.len(c) >= 4 * V(s, t))), ('component numbers', ForAll([K], Implies(inV(s, t, K), And(0 <= cn(s, t, K), cn(s, t, K) < NC(s, t))), patterns=[cn(s, t, K)]))]
def sg_ens(s, rv, t):
    g = gf(s, t, 'scc_graph'); a, b = Ints('ea? eb?'); e = edge(s, t, a, b); f = edge(s, g, K, J); p = Z_; h = edge(s, t, K, J)
    return [('one vertex per component', And(g.obj >= s.old.ctr, V(s, g) == NC(s, t))),
        ('edges are edges between different components', ForAll([K, J], Implies(And(inV(s, g, K), 0 <= J, J < deg(s, g, K)), And(f != K, inV(s, g, f), Exists([a, b], And(inV(s, t, a), 0 <= b, b < deg(s, t, a), cn(s, t, a) == K, cn(s, t, e) == f), patterns=[e]))), patterns=[f])),
        ('every edge between different components', ForAll([K, J], Implies(And(inV(s, t, K), 0 <= J, J < deg(s, t, K), cn(s, t, K) != cn(s, t, h)), Exists([p], And(0 <= p, p < deg(s, g, cn(s, t, K)), edge(s, g, cn(s, t, K), p) == cn(s, t, h)), patterns=[edge(s, g, cn(s, t, K), p)])), patterns=[h])),
        ('no edge twice', ForAll([K, J, X], Implies(And(inV(s, g, K), 0 <= J, J < X, X < deg(s, g, K)), f != edge(s, g, K, X)), patterns=[z3.MultiPattern(f, edge(s, g, K, X))]))]
add(Contract('graph::calcSCCGraph()', requires=sg_req, ensures=sg_ens, allocs=True, modifies=lambda s, t: [('graph.scc_graph', t)], loops={0: Loop(sg_outer, lemma=sg_card), 1: Loop(sg_inner)}))

# ---- reachability between sets of vertices
def queue(ver, st, d, args, ins, m):
    th = args[0]; h = ver.getghost(st, 'qhead'); n = vlen_get(ver, st, th); nm = re.search(r'> ?>::(~?\w+)', d).group(1); key = ('H', 'i32')
    if nm == 'queue': vlen_set(ver, st, th, IntVal(0)); ver.setghost(st, 'qhead', IntVal(0)); ver.setghost(st, 'qpos', z3.K(I, IntVal(-1))); return None
    if nm == 'size': return n - h
    if nm == 'empty': return n == h
    if nm == 'front': ver.check(st, 'bounds', h < n, 'front of an empty queue'); return PE(vd(ver, st, th), h)
    if nm == 'pop': ver.check(st, 'bounds', h < n, 'pop of an empty queue'); ver.setghost(st, 'qhead', h + 1); return None
    if nm == 'push':
        v = scalar_of(ver, st, args[1], key); D = vd(ver, st, th); mm = ver.getmap(st, key, ('int', 32)); ver.setmap(st, key, upd(mm, D, upd(sel(mm, D), n, v)), D); vlen_set(ver, st, th, n + 1)
        ver.setghost(st, 'qpos', z3.Store(ver.getghost(st, 'qpos'), v, n)); return None
    return None
MODELS += [(Rx(r'(void )?std::queue<int, std::deque<int, .*> ?>::(queue|~queue|push|pop|front|size|empty)(<.*>)?\('), queue)]
FV, TV = (lambda s: (s.args if s.old is None else s.old.args)[1]), (lambda s: (s.args if s.old is None else s.old.args)[2])
o_ = lambda s: s if s.old is None else s.old
fr = lambda s, k: Select(o_(s).varr(FV(s)), k); to = lambda s, k: Select(o_(s).varr(TV(s)), k); fn = lambda s: o_(s).vlen(FV(s)); tn = lambda s: o_(s).vlen(TV(s))
def q_req(s, t, f, g):
    return graph(s, t, False) + [('vertices', And(s.vlen(f) < 2**30, ForAll([K], Implies(And(0 <= K, K < s.vlen(f)), inV(s, t, Select(s.varr(f), K))), patterns=[Select(s.varr(f), K)]), ForAll([K], Implies(And(0 <= K, K < s.vlen(g)), inV(s, t, Select(s.varr(g), K))), patterns=[Select(s.varr(g), K)])))]
TS = lambda s: s.smem(s.local('toSet')); inT = lambda s, x: Select(TS(s), x)
a_, b_ = Ints('fa? tb?')
FR = z3.Function('reached_from_a_start', I, B)      # defined by  FR(x) = some start reaches x
from_R = lambda s, x: FR(x)
def fr_def(s): return ForAll([X], FR(X) == Exists([a_], And(0 <= a_, a_ < fn(s), R(fr(s, a_), X)), patterns=[fr(s, a_)]), patterns=[FR(X)])
def fr_facts(s):
    """consequences of the definition (prove_lemmas)"""
    t = s.args[0]; e = edge(s, t, K, J); return [ForAll([K], Implies(And(0 <= K, K < fn(s)), FR(fr(s, K))), patterns=[fr(s, K)]), ForAll([K, J], Implies(And(inV(s, t, K), 0 <= J, J < deg(s, t, K), FR(K)), FR(e)), patterns=[e])]
def toset(s, n): return [('targets are in the set', ForAll([K], Implies(And(0 <= K, K < n), inT(s, to(s, K))), patterns=[to(s, K)])), ('the set has only targets', ForAll([X], Implies(inT(s, X), Exists([b_], And(0 <= b_, b_ < n, to(s, b_) == X), patterns=[to(s, b_)])), patterns=[inT(s, X)]))]
VI = lambda s: s.arr(s.local('visi'), 'i8'); vis = lambda s, x: Select(VI(s), x) != 0
def visarr(s): p = s.local('visi'); return [('visited array', And(p.obj >= s.old.ctr, p.obj < s.ctr, p.off == 0, s.len(p) >= V(s, s.args[0])))]
QD = lambda s: s.varr(s.local('q')); QN = lambda s: s.vlen(s.local('q')); QH = lambda s: s.g('qhead'); QP = lambda s: s.g('qpos')
def novis(s): return [('none visited', ForAll([K], Implies(inV(s, s.args[0], K), Select(VI(s), K) == 0), patterns=[Select(VI(s), K)]))]
def nofrom(s, n): return [('no start is a target', ForAll([K], Implies(And(0 <= K, K < n), Not(inT(s, fr(s, K)))), patterns=[fr(s, K)]))]
def inq(s, x): return And(0 <= Select(QP(s), x), Select(QP(s), x) < QN(s), Select(QD(s), Select(QP(s), x)) == x)
def entries(s): t = s.args[0]; x = Select(QD(s), K); return [('queue', And(0 <= QH(s), QH(s) <= QN(s))), ('queue entries', ForAll([K], Implies(And(0 <= K, K < QN(s)), And(inV(s, t, x), from_R(s, x))), patterns=[x])), ('last positions', ForAll([X], Implies(Select(QP(s), X) >= 0, And(Select(QP(s), X) < QN(s), Select(QD(s), Select(QP(s), X)) == X)), patterns=[Select(QP(s), X)]))]
def q0(s): return [('range', And(0 <= s.iter(), s.iter() <= tn(s)))] + toset(s, s.iter())
def q1(s): i = s.local('i'); t = s.args[0]; return [('range', And(0 <= i, i <= V(s, t)))] + toset(s, tn(s)) + visarr(s) + [('none visited', ForAll([K], Implies(And(0 <= K, K < i), Select(VI(s), K) == 0), patterns=[Select(VI(s), K)]))]
def q2(s): return [('range', And(0 <= s.iter(), s.iter() <= fn(s), QH(s) == 0))] + toset(s, tn(s)) + visarr(s) + novis(s) + nofrom(s, s.iter()) + entries(s) + [('starts are queued', ForAll([K], Implies(And(0 <= K, K < s.iter()), inq(s, fr(s, K))), patterns=[fr(s, K)]))]
def q_base(s):
    t = s.args[0]
    return toset(s, tn(s)) + visarr(s) + nofrom(s, fn(s)) + entries(s) + [('starts were queued', ForAll([K], Implies(And(0 <= K, K < fn(s)), inq(s, fr(s, K))), patterns=[fr(s, K)])), ('visited vertices', ForAll([X], Implies(And(inV(s, t, X), vis(s, X)), And(inq(s, X), Not(inT(s, X)))), patterns=[Select(VI(s), X)]))]
isfrom = lambda s, x: Exists([a_], And(0 <= a_, a_ < fn(s), fr(s, a_) == x), patterns=[fr(s, a_)])
def expanded(s, but=None):
    t = s.args[0]; e = edge(s, t, X, J)
    return [('expanded', ForAll([X, J], Implies(And(inV(s, t, X), 0 <= Select(QP(s), X), Select(QP(s), X) < QH(s), *([Select(QP(s), X) != QH(s) - 1] if but else []), 0 <= J, J < deg(s, t, X)), vis(s, e)), patterns=[e]))]
def q3(s): return q_base(s) + expanded(s)
def q4(s):
    t = s.args[0]; j = s.local('j'); x = s.local('x'); e = edge(s, t, x, J)
    return [('range', And(0 <= j, j <= deg(s, t, x), inV(s, t, x), from_R(s, x), QH(s) >= 1, Select(QD(s), QH(s) - 1) == x))] + q_base(s) + expanded(s, True) + [('neighbours so far', ForAll([J], Implies(And(0 <= J, J < j), vis(s, e)), patterns=[e]))]
def q_least(s, rv, t, f, g):
    """reachability is the smallest such relation, for the set of the starts and the visited vertices"""
    try: s.local('visi')
    except Exception: return [fr_def(s)]
    inC = lambda x: Or(vis(s, x), isfrom(s, x))
    return [fr_def(s), Implies(And(Not(rv), ForAll([K, J], Implies(And(inV(s, t, K), 0 <= J, J < deg(s, t, K), inC(K)), inC(edge(s, t, K, J))), patterns=[edge(s, t, K, J)])), ForAll([K, Y], Implies(And(0 <= K, K < fn(s), inV(s, t, Y), R(fr(s, K), Y)), inC(Y)), patterns=[R(fr(s, K), Y)]))]
def q_ens(s, rv, t, f, g):
    return [('reachable: a path exists', Implies(rv, Exists([a_, b_], And(0 <= a_, a_ < fn(s), 0 <= b_, b_ < tn(s), R(fr(s, a_), to(s, b_))), patterns=[z3.MultiPattern(fr(s, a_), to(s, b_))]))),
        ('not reachable: no path exists', Implies(Not(rv), ForAll([K, J], Implies(And(0 <= K, K < fn(s), 0 <= J, J < tn(s)), Not(R(fr(s, K), to(s, J)))), patterns=[R(fr(s, K), to(s, J))])))]
VEC = 'std::vector<int, std::allocator<int> >'
add(Contract('graph::can_reach_any_of(%s&, %s&)' % (VEC, VEC), requires=q_req, ensures=q_ens, lemma=q_least, allocs=True, ghost_mod=('qhead', 'qpos'), loops={0: Loop(q0), 1: Loop(q1), 2: Loop(q2, lemma=fr_facts), 3: Loop(q3, lemma=fr_facts, frame=lambda s: {'i8': [lambda x: Not(s.ver.pre_existing(x))]}), 4: Loop(q4, lemma=fr_facts)}))
def d2(s):
    t = s.args[0]; x = fr(s, K); return [('range', And(0 <= s.iter(), s.iter() <= fn(s)))] + toset(s, tn(s)) + nofrom(s, s.iter()) + [('neighbours', ForAll([K, J], Implies(And(0 <= K, K < s.iter(), 0 <= J, J < deg(s, t, x)), Not(inT(s, edge(s, t, x, J)))), patterns=[edge(s, t, x, J)]))]
def d3(s):
    t = s.args[0]; j = s.local('j'); it = s.iter(); x = fr(s, it); return [('range', And(0 <= it, it < fn(s), 0 <= j, j <= deg(s, t, x), Not(inT(s, x))))] + d2(s) + [('neighbours so far', ForAll([J], Implies(And(0 <= J, J < j), Not(inT(s, edge(s, t, x, J)))), patterns=[edge(s, t, x, J)]))]
def d_ens(s, rv, t, f, g):
    x = fr(s, K); c = z3.Int('ec?')
    return [('a start is a target or has one as neighbour', Implies(rv, Exists([a_, b_], And(0 <= a_, a_ < fn(s), 0 <= b_, b_ < tn(s), Or(fr(s, a_) == to(s, b_), Exists([c], And(0 <= c, c < deg(s, t, fr(s, a_)), edge(s, t, fr(s, a_), c) == to(s, b_)), patterns=[edge(s, t, fr(s, a_), c)]))), patterns=[z3.MultiPattern(fr(s, a_), to(s, b_))]))),
        ('no start is a target', Implies(Not(rv), ForAll([K, J], Implies(And(0 <= K, K < fn(s), 0 <= J, J < tn(s)), x != to(s, J)), patterns=[z3.MultiPattern(x, to(s, J))]))),
        ('no neighbour of a start is a target', Implies(Not(rv), ForAll([K, J, X], Implies(And(0 <= K, K < fn(s), 0 <= J, J < tn(s), 0 <= X, X < deg(s, t, x)), edge(s, t, x, X) != to(s, J)), patterns=[z3.MultiPattern(edge(s, t, x, X), to(s, J))])))]
add(Contract('graph::can_reach_any_of_directly(%s&, %s&)' % (VEC, VEC), requires=q_req, ensures=d_ens, allocs=True, loops={0: Loop(q0), 1: Loop(d2), 2: Loop(d3)}))

# ---- the same search over the task decomposition graph (class Model): a task has an edge to every subtask of each of its methods
MG = lambda x: '@_ZN11progression%d%sE' % (len(x), x)
nTk = lambda s, t: mf(s, t, 'numTasks')
met = lambda s, t, v, j: ent(s, t, 'taskToMethods', v, j); nm_ = lambda s, t, v: num(s, t, 'numMethodsForTask', v); sub = lambda s, t, m, j: ent(s, t, 'subTasks', m, j); ns_ = lambda s, t, m: num(s, t, 'numSubTasks', m)
def m_edges(s, t, xs, c, v, body, sofar=None):
    e = sub(s, t, met(s, t, v, J), Y); lim = True if sofar is None else Or(J < sofar[0], And(J == sofar[0], Y < sofar[1]))
    return ForAll(xs + [J, Y], Implies(And(c, 0 <= J, J < nm_(s, t, v), 0 <= Y, Y < ns_(s, t, met(s, t, v, J)), lim), body(e)), patterns=[e])
m_inV = lambda s, t, x: And(0 <= x, x < nTk(s, t))
def m_graph(s, t):
    n = nTk(s, t); F = [('model', And(obj(s, t), 0 <= n, n < 2**29, 0 <= mf(s, t, 'numMethods')))] + lists(s, t, 'numMethodsForTask', 'taskToMethods', n, 0, mf(s, t, 'numMethods')) + lists(s, t, 'numSubTasks', 'subTasks', mf(s, t, 'numMethods'), 0, n)
    return F + [('edges', m_edges(s, t, [K], m_inV(s, t, K), K, lambda e: R(K, e)))]
def m_objs(s, t): return [t.obj] + [mf(s, t, f).obj for f in ('numMethodsForTask', 'taskToMethods', 'numSubTasks', 'subTasks')]
def m_rows_apart(s, t, own): a, b = row(s, t, 'taskToMethods', K), row(s, t, 'subTasks', K); return [('rows are not work arrays', And(*[ForAll([K], Implies(And(0 <= K, K < h, n > 0), And(*[r != x for x in own])), patterns=[r]) for r, h, n in ((a, nTk(s, t), nm_(s, t, K)), (b, mf(s, t, 'numMethods'), ns_(s, t, K)))]))]
MA = dict(cls='Model', gf=mf, V=nTk, inV=m_inV, graph_ok=m_graph, edges=m_edges, comp='taskToSCC', inv='sccToTasks', sv=lambda s, x: s.glob(MG(x)), objs=m_objs, rows_apart=m_rows_apart)
M_ = SCC(MA); MODELT = 'progression::Model::tarjan(int)'
def m_outer(s): t, v = s.args; i = s.local('iM'); return M_.edges_loop(s, i, nm_(s, t, v), (i, IntVal(0)))
def m_inner(s): t, v = s.args; i, j = s.local('iM'), s.local('iST'); m = met(s, t, v, i); return M_.edges_loop(s, j, ns_(s, t, m), (i, j)) + [('method', And(0 <= i, i < nm_(s, t, v), s.local('m') == m))]
add(Contract(MODELT, requires=M_.t_req, ensures=M_.t_ens, modifies=M_.TM, globals_mod=(MG('maxdfs')[1:],), ghost_mod=('pos',), decreases=lambda s, t, v: M_.unv(s, t), axioms=RAX,
    loops={0: Loop(m_outer), 1: Loop(m_inner), 2: Loop(M_.pop_loop, variant=lambda s: M_.SN(s))}))

# indicator of the components with at least two members
ge2 = z3.Function('at_least_two', AR, AR); A_ = z3.Const('A?', AR)
GE2 = [ForAll([A_, X], Select(ge2(A_), X) == If(Select(A_, X) >= 2, 1, 0), patterns=[Select(ge2(A_), X)]), ForAll([A_, X, Y], ge2(z3.Store(A_, X, Y)) == z3.Store(ge2(A_), X, If(Y >= 2, 1, 0)), patterns=[ge2(z3.Store(A_, X, Y))])]
n2 = lambda s, t, n: cnt(ge2(M_.SZ(s, t)), 0, n, 1)
mC = lambda s, t: mf(s, t, 'numCyclicSccs')
def big(s): t = s.args[0]; return [('large components', mC(s, t) == n2(s, t, M_.NC(s, t)))]
def mc_zero(s): t = s.args[0]; i = s.local('i'); return M_.c_zero(s) + [('no large component', n2(s, t, i) == 0)]
def l_zero(s): t = s.args[0]; i = s.local('i'); return [cnt_ext(ge2(M_.SZ(s, t)), 0, i, 1)]
def mc_fill(s): return M_.c_fill(s)
def done_part(s): t = s.args[0]; return M_.numbers(s, t) + M_.sizes(s, t, V_(s)) + M_.members(s, t) + M_.rows_(s, t, M_.NC(s, t), False) + M_.filled(s, t, V_(s), lambda c: Select(M_.SZ(s, t), c)) + big(s)
V_ = lambda s: nTk(s, s.args[0])
SL = lambda s: s.smem(s.local('selfLoopSccs'))
def sl(s, lim): x = Y; return [('self loop components', And(s_fin(SL(s)), s_card(SL(s)) >= 0, ForAll([x], Implies(Select(SL(s), x), And(0 <= x, x < lim)), patterns=[Select(SL(s), x)])))]
def m_self(s): i = s.local('i'); return [('range', And(0 <= i, i <= M_.NC(s, s.args[0])))] + done_part(s) + sl(s, i)
def task_(s): t = s.args[0]; return [('task', And(0 <= s.local('task'), s.local('task') < nTk(s, t)))]
def m_self1(s): i, j = s.local('i'), s.local('mi'); t = s.args[0]; return [('range', And(0 <= i, i < M_.NC(s, t), 0 <= j, j <= nm_(s, t, s.local('task'))))] + task_(s) + done_part(s) + sl(s, i + 1)
def m_self2(s): i, j, k = s.local('i'), s.local('mi'), s.local('ist'); t = s.args[0]; return [('range', And(0 <= i, i < M_.NC(s, t), 0 <= j, j < nm_(s, t, s.local('task')), 0 <= s.local('method'), s.local('method') < mf(s, t, 'numMethods'), 0 <= k, k <= ns_(s, t, s.local('method'))))] + task_(s) + done_part(s) + sl(s, i + 1)
def cyc(s):
    t = s.args[0]; p = mf(s, t, 'sccsCyclic'); return M_.numbers(s, t) + M_.sizes(s, t, V_(s)) + M_.members(s, t) + M_.rows_(s, t, M_.NC(s, t), False) + M_.filled(s, t, V_(s), lambda c: Select(M_.SZ(s, t), c)) + [('self loops', And(s_fin(SL(s)), s_card(SL(s)) >= 0)), ('number of cyclic components', mC(s, t) == n2(s, t, M_.NC(s, t)) + s_card(SL(s))), ('cyclic components', And(fresh_(s, p, mC(s, t)), *[p.obj != mf(s, t, f).obj for f in ('taskToSCC', 'sccSize', 'sccToTasks')])), ('rows are not the list', ForAll([K], Implies(And(0 <= K, K < M_.NC(s, t)), M_.mrow(s, t, K) != p.obj), patterns=[M_.mrow(s, t, K)]))]
def m_cyc(s): t = s.args[0]; i, j = s.local('i'), s.local('j'); return [('range', And(0 <= i, i <= M_.NC(s, t), j == n2(s, t, i)))] + cyc(s)
def l_cyc(s): t = s.args[0]; i = s.local('i'); a = ge2(M_.SZ(s, t)); n = M_.NC(s, t); return [cnt_ext(a, 0, i, 1), cnt_split(a, 0, i, n, 1), cnt_split(a, i, i + 1, n, 1), cnt_ext(a, i, i, 1), cnt(a, i, n, 1) >= 0, cnt(a, i + 1, n, 1) >= 0, card_bound(SL(s), n), cnt_two_values(a, 0, n, 1, 0), cnt(a, 0, n, 0) >= 0]
def m_cyc2(s): t = s.args[0]; it = s.iter_of(s.local_ptr('it')) if hasattr(s, 'local_ptr') else itpos(s); j = s.local('j'); return [('range', And(0 <= it, it <= s_card(SL(s)), j == n2(s, t, M_.NC(s, t)) + it))] + cyc(s)
def itpos(s):
    for fr in reversed(s.st.frames):
        for nm, l in fr.names.items():
            if nm == 'it': return s.iter_of(l[-1][0])
def all_reached(cv, pre, s, rv, t, v):
    """reachability is the smallest such relation: the set of the visited tasks"""
    vis_ = lambda x: Not(M_.un(s, x)); return [Implies(And(vis_(v), m_edges(s, t, [K], And(m_inV(s, t, K), vis_(K)), K, lambda e: vis_(e))), ForAll([X], Implies(And(m_inV(s, t, X), R(v, X)), vis_(X)), patterns=[Select(M_.U(s), X)]))]
new2 = lambda s: {'i32': [lambda x: Not(s.ver.pre_existing(x))], 'i8': [lambda x: Not(s.ver.pre_existing(x))], 'ptr': [lambda x: Not(s.ver.pre_existing(x))]}
def mc_req(s, t): i = mf(s, t, 'initialTask'); return m_graph(s, t) + [('initial task', m_inV(s, t, i)), ('every task can be reached', ForAll([X], Implies(m_inV(s, t, X), R(i, X)), patterns=[R(i, X), touch(X)]))]
def mc_lem(s, rv, t): return M_.least(s, rv, t)
add(Contract('progression::Model::calcSCCs()', requires=mc_req, ensures=M_.c_ens, lemma=mc_lem, axioms=RAX + GE2, call_lemmas={MODELT: all_reached}, allocs=True, globals_mod=[MG(x)[1:] for x in GLOB], ghost_mod=('pos',),
    modifies=lambda s, t: [('Model.' + f, t) for f in ('numSCCs', 'taskToSCC', 'sccToTasks', 'sccSize', 'numCyclicSccs', 'numSccOneWithSelfLoops', 'sccsCyclic', 'sccMaxSize')],
    loops={0: Loop(M_.c_init, lemma=M_.l_init, init_lemma=M_.l_init), 1: Loop(mc_zero, lemma=l_zero, init_lemma=l_zero), 2: Loop(lambda s: M_.c_count(s) + big(s), lemma=M_.l_count, init_lemma=M_.l_count), 3: Loop(lambda s: M_.c_zero2(s) + big(s)), 4: Loop(lambda s: M_.c_alloc(s) + big(s)), 5: Loop(lambda s: M_.c_fill(s) + big(s), lemma=M_.split, frame=new_only),
        6: Loop(m_self), 7: Loop(m_self1), 8: Loop(m_self2), 9: Loop(m_cyc, lemma=l_cyc, init_lemma=l_cyc, frame=new_only), 10: Loop(m_cyc2, frame=new_only)}))
def prove_lemmas():
    f, e = z3.Function('start', I, I), z3.Function('edge', I, I, I); k, j, n = z3.Ints('k j n'); s = z3.Solver(); s.set('timeout', 10000)
    s.add(*RAX, ForAll([K, J], R(K, e(K, J)), patterns=[e(K, J)]), ForAll([X], FR(X) == Exists([K], And(0 <= K, K < n, R(f(K), X)))), Or(And(0 <= k, k < n, Not(FR(f(k)))), And(FR(k), Not(FR(e(k, j))))))
    r0 = {'starts are reached, reached vertices reach their neighbours': s.check() == z3.unsat}
    r = dict(prove_axioms()); r.update(r0); r.update(prove_card()); return r
