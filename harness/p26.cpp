// P26 bounded check: visited-node detection against explicit isomorphism tests.  Non-trivial: at least two nodes with equal states and equal task multisets.
//FLAGS: -I$REPO/src/search -I$REPO/src/heuristics
//SRC: VisitedList.cpp Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp Util.cpp intDataStructures/CompressedSequenceSet.cpp
#include "walk.h"
#define private public
#include "VisitedList.h"
using namespace hm;
// small stand-in for the hash table (16 million buckets in the program, checked by P11): many keys share a trie
hash_table::hash_table() : hash_table(1) {}
hash_table::hash_table(int) : buckets(1 + rnd(0, 40)) { table = (void **)calloc(buckets, sizeof(void *)); }
void **hash_table::get(size_t x) { return table + x % buckets; }
// isomorphism of labelled partial orders, by backtracking
static bool iso(const Net &a, const Net &b) {
  int n = a.st.size(); if (n != (int)b.st.size()) return false; { VI x = a.task, y = b.task; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) return false; }
  auto sig = [&](const Net &g, int i) { std::vector<int> r{g.task[i]}; VI s, p; for (int j = 0; j < n; j++) { if (g.ord[i][j]) s.push_back(g.task[j]); if (g.ord[j][i]) p.push_back(g.task[j]); } std::sort(s.begin(), s.end()); std::sort(p.begin(), p.end()); r.push_back(-1); r.insert(r.end(), s.begin(), s.end()); r.push_back(-1); r.insert(r.end(), p.begin(), p.end()); return r; };
  std::vector<VI> sa, sb; for (int i = 0; i < n; i++) { sa.push_back(sig(a, i)); sb.push_back(sig(b, i)); }
  VI map(n, -1); std::vector<char> used(n, 0); long steps = 0;
  std::function<bool(int)> go = [&](int i) -> bool { if (i == n) return true; if (++steps > 2000000) return true; for (int j = 0; j < n; j++) { if (used[j] || sa[i] != sb[j]) continue; bool ok = true; for (int k = 0; k < i && ok; k++) ok = a.ord[i][k] == b.ord[j][map[k]] && a.ord[k][i] == b.ord[map[k]][j]; if (!ok) continue; map[i] = j; used[j] = 1; if (go(i + 1)) return true; used[j] = 0; } return false; };
  return go(0);
}
struct Ins { searchNode *n; Net net; SI s; int f; };
struct Cfg { bool reopen, taskH, seqH, topo, pairs, layers, gi, par; };
static Cfg rc() { return {coin(), coin(), coin(), coin(70), coin(), coin(), coin(80), coin()}; }
static std::string cs(const Cfg &c) { return cat("config", !c.reopen, c.taskH, c.seqH, c.topo, c.pairs, c.layers, c.gi, c.par); }
static void fillTasks(searchNode *n, const Net &N) { if (n->containedTasks) return; std::map<int, int> c; for (int t : N.task) c[t]++; n->numContainedTasks = c.size(); n->containedTasks = new int[c.size() + 1]; n->containedTaskCount = new int[c.size() + 1]; int i = 0; for (auto [t, k] : c) { n->containedTasks[i] = t; n->containedTaskCount[i++] = k; } }
struct Visi { VisitedList *v; bool sound, complete; Cfg c; std::vector<Ins> done; };
static std::vector<Visi *> all;
static Visi mkv(Model *m, const Cfg &c) {
  Visi r; r.c = c; r.v = new VisitedList(m, false, !c.reopen, c.taskH, c.seqH, c.topo, c.pairs, c.layers, c.gi, c.par);
  
  bool seq = m->isTotallyOrdered || (c.par && m->isParallelSequences); r.sound = seq ? c.topo : c.gi; r.complete = true; return r;
}
static void insert(Visi &r, searchNode *n) {
  Ins x{n, net(n), state(n), n->fValue}; fillTasks(n, x.net);
  bool isNew = r.v->insertVisi(n); bool found = false, cheap = false, same = false;
  for (auto &d : r.done) if (d.s == x.s && (r.sound || !isNew)) { if (d.n == n) same = true; if (d.n == n || iso(d.net, x.net)) { found = true; if (d.f <= x.f) cheap = true; } }
  if (!isNew && r.sound && !found) fail(cat("node", r.done.size(), "reported as visited, but no earlier node is isomorphic:", nets(x.net), "state", str(x.s)));
  if (isNew && r.complete && same && (cheap || !r.c.reopen)) fail(cat("the same node inserted again is reported as new:", nets(x.net)));
  r.done.push_back(x);
}
static void freeV(Visi &r) { free(r.v->stateTable->table); delete r.v->stateTable; delete r.v; }
// a node with an arbitrary network
static searchNode *synth(const Net &N, const std::vector<bool> &st, const HTN &p, const VI &perm) {
  searchNode *n = new searchNode(); n->state = st; n->fValue = 0; int k = N.task.size(); std::vector<planStep *> ps(k); Rel red = reduction(N.ord); static int id = 1000000;
  for (int q = 0; q < k; q++) { int i = perm[q]; ps[i] = new planStep(); ps[i]->id = id++; ps[i]->task = N.task[i]; ps[i]->pointersToMe = 1; }
  for (int i = 0; i < k; i++) { std::vector<planStep *> s; for (int j = 0; j < k; j++) if (red[i][j]) s.push_back(ps[j]); if (coin()) std::shuffle(s.begin(), s.end(), rng); ps[i]->numSuccessors = s.size(); ps[i]->successorList = new planStep *[s.size() + 1]; std::copy(s.begin(), s.end(), ps[i]->successorList); }
  std::vector<planStep *> A, P; for (int q = 0; q < k; q++) { int i = perm[q]; bool pre = false; for (int j = 0; j < k; j++) pre = pre || N.ord[j][i]; if (!pre) (p.prim(N.task[i]) ? P : A).push_back(ps[i]); }
  n->numAbstract = A.size(); n->numPrimitive = P.size(); n->unconstraintAbstract = new planStep *[A.size() + 1]; n->unconstraintPrimitive = new planStep *[P.size() + 1]; std::copy(A.begin(), A.end(), n->unconstraintAbstract); std::copy(P.begin(), P.end(), n->unconstraintPrimitive);
  return n;
}
static Net rnet(int k, int labels, int lo) { Net N; N.st.resize(k); Opt o; o.total = 10; N.ord = closure(rel(k, randorder(k, o))); for (int i = 0; i < k; i++) N.task.push_back(lo + rnd(0, labels - 1)); return N; }
static void synthetic() {
  Opt o; o.maxb = 70; HTN p = gen(o); Cfg c = rc(); c.gi = true; int k = rnd(1, 7), labels = rnd(1, std::min(3, p.nt)), lo = rnd(0, p.nt - labels);
  begin(cat(cs(c), "facts", p.nb, "tasks", p.nt, "networks over labels from", lo, ":")); Model *m = load(p); m->isTotallyOrdered = false; m->isParallelSequences = false; Visi v = mkv(m, c);
  std::vector<Net> nets_; std::vector<std::vector<bool>> sts; for (int i = 0; i < 2; i++) { std::vector<bool> b(p.nb); for (int j = 0; j < p.nb; j++) b[j] = coin(); sts.push_back(b); } sts.push_back(sts[0]); { int f = rnd(0, p.nb - 1); sts[2][f] = !sts[2][f]; }
  for (int i = 0; i < 14; i++) { Net N; if (nets_.size() && coin(60)) { N = nets_[rnd(0, nets_.size() - 1)]; int kk = N.task.size(); int w = rnd(0, 4); if (w >= 2 && kk > 2) { Rel r = reduction(N.ord); int a = rnd(0, kk - 1), b = rnd(0, kk - 1), d = rnd(0, kk - 1); if (r[a][b] && !r[a][d] && b != d && a != d && N.task[b] == N.task[d]) { r[a][b] = 0; r[a][d] = 1; if (w == 3) for (int e = 0; e < kk; e++) if (e != a && r[e][d] && !r[e][b]) { r[e][d] = 0; r[e][b] = 1; break; } Rel cl = closure(r); bool cyc = false; for (int q = 0; q < kk; q++) cyc = cyc || cl[q][q]; if (cyc) continue; N.ord = cl; } } else if (w == 0 && kk > 1) { int a = rnd(0, kk - 1), b = rnd(0, kk - 1); if (a != b && !N.ord[b][a]) { Rel r = reduction(N.ord); if (r[a][b]) { r[a][b] = 0; int c2 = rnd(0, kk - 1); if (c2 != a && !N.ord[c2][a]) r[a][c2] = 1; } else r[a][b] = 1; N.ord = closure(r); bool cyc = false; for (int q = 0; q < kk; q++) cyc = cyc || N.ord[q][q]; if (cyc) continue; } } else if (w == 1) { N.task[rnd(0, kk - 1)] = lo + rnd(0, labels - 1); } } else N = rnet(coin(70) ? k : rnd(1, 8), labels, lo);
    nets_.push_back(N); VI perm(N.task.size()); for (size_t q = 0; q < perm.size(); q++) perm[q] = q; std::shuffle(perm.begin(), perm.end(), rng);
    searchNode *n = synth(N, sts[coin(60) ? 0 : rnd(0, 2)], p, perm); if (coin(30)) n->fValue = rnd(0, 2); note(cat("|", nets(net(n)), "f", n->fValue));
    insert(v, n); if (coin(40)) insert(v, n); if (coin(20)) insert(v, v.done[rnd(0, v.done.size() - 1)].n); }
  freeV(v);
}
static void walks() {
  Opt o; int kind = rnd(0, 3); o.maxb = coin(20) ? 66 : 2; o.maxa = 3; o.maxT = 3; if (kind == 1) { o.total = 100; } HTN p = gen(o);
  if (kind == 1) for (auto &me : p.mets) { me.ord.clear(); for (size_t i = 0; i + 1 < me.sub.size(); i++) me.ord.push_back({(int)i, (int)i + 1}); }
  if (kind >= 2) for (auto &me : p.mets) if (me.task != p.init) { me.ord.clear(); for (size_t i = 0; i + 1 < me.sub.size(); i++) me.ord.push_back({(int)i, (int)i + 1}); }
  Cfg c = rc(); begin(cat(cs(c), brief(p))); Model *m = load(p); Visi v = mkv(m, c); std::vector<searchNode *> keep;
  for (int w = 0; w < 6; w++) { searchNode *n = m->prepareTNi(m); n->fValue = 0; keep.push_back(n); for (int l = 0; l < 10; l++) { if (l || !w) { if (coin(20)) n->fValue = rnd(0, 2); else n->fValue = 0; insert(v, n); if (coin(20)) insert(v, n); } auto st = steps(p, n); if (st.empty() || net(n).st.size() > 9) break; Step s = st[rnd(0, st.size() - 1)]; note(sd(n, s)); searchNode *x = s.isAct ? m->apply(n, s.idx) : m->decompose(n, s.idx, s.method); x->fValue = 0; keep.push_back(x); n = x; } note("restart;"); }
  freeV(v);
}
void harness() { int i = 0; while (time_left()) { if (i++ % 2) synthetic(); else walks(); } }
