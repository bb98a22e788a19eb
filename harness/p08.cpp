// P08 bounded run: components, component graphs and reachability queries of random digraphs and random decomposition hierarchies.  Non-trivial: some component has two vertices
//SRC: sat/disabling_graph.cpp Invariants.cpp Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "model.h"
#include "sat/disabling_graph.h"
using namespace hm;
typedef std::vector<std::vector<char>> BM;
static BM reach(BM r) { int n = r.size(); for (int i = 0; i < n; i++) r[i][i] = 1; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1; return r; }
static void comps(int n, const BM &r, int nc, const int *c, int **inv, const int *sz) {
  if (nc < 0 || nc > n) fail(cat("number of components", nc));
  for (int i = 0; i < n; i++) { if (c[i] < 0 || c[i] >= nc) fail(cat("component of vertex", i, "is", c[i])); for (int j = 0; j < n; j++) if ((c[i] == c[j]) != (r[i][j] && r[j][i])) fail(cat("vertices", i, "and", j, "have components", c[i], c[j])); }
  int tot = 0; for (int k = 0; k < nc; k++) { tot += sz[k]; if (sz[k] < 1) fail(cat("component", k, "is empty")); std::set<int> s; for (int j = 0; j < sz[k]; j++) { int v = inv[k][j]; if (v < 0 || v >= n || c[v] != k || !s.insert(v).second) fail(cat("member list of component", k, "has", v)); } }
  if (tot != n) fail(cat("the member lists have", tot, "entries for", n, "vertices"));
}
static void digraph() {
  int n = coin(20) ? rnd(0, 3) : rnd(2, coin(20) ? 25 : 9); int pr = coin(30) ? rnd(0, 8) : rnd(5, 35); std::vector<std::unordered_set<int>> adj(n); BM e(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (coin(i == j ? pr / 2 : pr)) { adj[i].insert(j); e[i][j] = 1; }
  if (coin(30)) for (int i = 0; i + 1 < n; i++) { adj[i].insert(i + 1); e[i][i + 1] = 1; }
  BM r = reach(e); bool two = false; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) two |= r[i][j] && r[j][i];
  std::string b = cat("digraph", n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (e[i][j]) b += cat("", i) + ">" + std::to_string(j);
  begin(b, two); graph g(adj);
  for (int i = 0; i < n; i++) { std::set<int> s; for (int k = 0; k < g.adjSize[i]; k++) { int x = g.adj[i][k]; if (!adj[i].count(x) || !s.insert(x).second) fail(cat("edge", i, x)); } if (s.size() != adj[i].size()) fail(cat("edges of vertex", i)); }
  for (int q = 0; q < 6; q++) {
    VI f = subset(n, rnd(0, 40)), t = subset(n, rnd(0, 40)); if (coin(20) && f.size()) f.push_back(f[0]); bool any = false, dir = false;
    for (int x : f) for (int y : t) { any |= r[x][y]; dir |= e[x][y] || x == y; }
    if (g.can_reach_any_of(f, t) != any) fail(cat("can_reach_any_of from", str(f), "to", str(t), "is", !any));
    if (g.can_reach_any_of_directly(f, t) != dir) fail(cat("can_reach_any_of_directly from", str(f), "to", str(t), "is", !dir));
  }
  g.calcSCCs(); comps(n, r, g.numSCCs, g.vertexToSCC, g.sccToVertices, g.sccSize); g.calcSCCGraph();
  graph &s = *g.scc_graph; if (s.numVertices != g.numSCCs) fail("size of the component graph"); std::set<std::pair<int, int>> want, have;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (e[i][j] && g.vertexToSCC[i] != g.vertexToSCC[j]) want.insert({g.vertexToSCC[i], g.vertexToSCC[j]});
  for (int i = 0; i < s.numVertices; i++) for (int k = 0; k < s.adjSize[i]; k++) if (!have.insert({i, s.adj[i][k]}).second) fail(cat("component edge twice from", i));
  if (want != have) fail(cat("the component graph has", have.size(), "edges instead of", want.size()));
}
static void hierarchy() {
  Opt o; o.maxT = coin(30) ? 12 : 5; o.maxm = coin(30) ? 5 : 3; o.solvable = coin(); HTN p = gen(o); int n = p.nt; BM e(n, std::vector<char>(n, 0));
  for (auto &m : p.mets) for (int x : m.sub) e[m.task][x] = 1;
  BM r = reach(e); for (int i = 0; i < n; i++) if (!r[p.init][i]) return;
  bool two = false; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) two |= r[i][j] && r[j][i];
  begin(brief(p), two); bool all = coin(); Model *m = load(p, false, all ? progression::mtrALL : progression::mtrACTIONS); m->calcSCCs(); comps(n, r, m->numSCCs, m->taskToSCC, m->sccToTasks, m->sccSize);
  int cyc = 0, self = 0; std::set<int> C; for (int k = 0; k < m->numSCCs; k++) { int t = m->sccToTasks[k][0]; bool c = m->sccSize[k] > 1, l = !c && e[t][t]; cyc += c || l; self += l; if (c || l) C.insert(k); }
  if (m->numCyclicSccs != cyc || m->numSccOneWithSelfLoops != self) fail(cat("numbers of cyclic components", m->numCyclicSccs, m->numSccOneWithSelfLoops, "instead of", cyc, self));
  for (int k = 0; k < cyc; k++) if (!C.erase(m->sccsCyclic[k])) fail(cat("list of cyclic components has", m->sccsCyclic[k]));
  m->calcSCCGraph(); std::set<std::pair<int, int>> want, have, back;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (e[i][j] && m->taskToSCC[i] != m->taskToSCC[j]) want.insert({m->taskToSCC[i], m->taskToSCC[j]});
  for (int k = 0; k < m->numSCCs; k++) { for (int j = 0; j < m->sccGnumSucc[k]; j++) if (!have.insert({k, m->sccG[k][j]}).second) fail(cat("component edge twice from", k)); for (int j = 0; j < m->sccGnumPred[k]; j++) if (!back.insert({m->sccGinverse[k][j], k}).second) fail(cat("inverse component edge twice from", k)); }
  if (want != have) fail(cat("the component graph has", have.size(), "edges instead of", want.size())); if (want != back) fail(cat("the inverse component graph has", back.size(), "edges instead of", want.size()));
  for (int i = 0; i < n; i++) { std::set<int> s; for (int k = 0; k < m->numReachable[i]; k++) { int x = m->reachable[i][k]; if (x < 0 || x >= n || !r[i][x] || !s.insert(x).second) fail(cat("task", i, "is said to reach", x)); } for (int j = 0; j < (all ? n : p.na()); j++) if (r[i][j] && !s.count(j)) fail(cat("task", i, "reaches", j, "which is not listed")); }
  delete m;
}
void harness() { while (time_left()) { if (coin(50)) digraph(); else hierarchy(); } }
