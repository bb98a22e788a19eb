// P06 bounded check: ordering constraints of random and of all small methods.  Non-trivial: at least one constraint.
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "walk.h"
using namespace hm;
static bool acyclic(const Rel &r) { Rel c = closure(r); for (size_t i = 0; i < c.size(); i++) if (c[i][i]) return false; return true; }
static void distinct(Model *m, int i, const char *w) { std::set<std::pair<int, int>> s; check(m->numOrderings[i] % 2 == 0, "odd length"); for (int o = 0; o < m->numOrderings[i]; o += 2) { int a = m->ordering[i][o], b = m->ordering[i][o + 1]; check(a >= 0 && b >= 0 && a < m->numSubTasks[i] && b < m->numSubTasks[i], "constraint on an unknown subtask"); check(s.insert({a, b}).second, cat(w, "constraint listed twice")); } }
static bool total(const Rel &c) { for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < c.size(); j++) if (i != j && !c[i][j] && !c[j][i]) return false; return true; }
static void run(const std::vector<Met> &ms, int nt) {
  HTN p; p.nb = 1; p.vars = {{0, 0}}; for (int i = 0; i < 3; i++) p.acts.push_back({1, {}, {}, {}}); p.nt = 3 + nt; p.init = 3; p.mets = ms; begin(brief(p), ms[0].ord.size() > 0);
  Model *m = load(p); bool tot = true;
  for (size_t i = 0; i < ms.size(); i++) { Rel r = rel(ms[i].sub.size(), ms[i].ord); distinct(m, i, "reduction:"); if (relOf(m, i) != reduction(r)) fail(cat("reduction of method", i, "gives", arr(m->ordering[i], m->numOrderings[i]))); tot = tot && total(closure(r)); }
  check(m->isTotallyOrdered == tot, "model totally ordered"); bool order = coin();
  auto build = [&](const char *w) { m->buildOrderingDatastructures(); for (size_t i = 0; i < ms.size(); i++) { Rel c = closure(rel(ms[i].sub.size(), ms[i].ord)); if (m->methodIsTotallyOrdered[i] != total(c)) fail(cat(w, "method", i, "reported totally ordered:", m->methodIsTotallyOrdered[i]));
      int n = c.size(); SI s(m->methodTotalOrder[i], m->methodTotalOrder[i] + n); check((int)s.size() == n && *s.begin() == 0 && *s.rbegin() == n - 1, "linearisation is not a permutation of the subtasks"); for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) check(!c[m->methodTotalOrder[i][a]][m->methodTotalOrder[i][b]], cat(w, "linearisation violates the order of method", i));
      Rel o = relOf(m, i); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (m->methodSubTasksSuccessors[i][a].count(b) != (size_t)o[a][b] || m->methodSubTasksPredecessors[i][b].count(a) != (size_t)o[a][b]) fail(cat(w, "predecessor/successor sets of method", i, a, b)); } };
  if (order) build("reduced:");
  m->computeTransitiveClosureOfMethodOrderings();
  for (size_t i = 0; i < ms.size(); i++) { distinct(m, i, "closure:"); if (relOf(m, i) != closure(rel(ms[i].sub.size(), ms[i].ord))) fail(cat("closure of method", i, "gives", arr(m->ordering[i], m->numOrderings[i]))); }
  build("closed:"); 
  if (coin(30)) { for (size_t i = 0; i < ms.size(); i++) m->computeTransitiveChangeOfMethodOrderings(false, i); for (size_t i = 0; i < ms.size(); i++) { distinct(m, i, "reduction of the closure:"); if (relOf(m, i) != reduction(rel(ms[i].sub.size(), ms[i].ord))) fail(cat("reduction of the closure of method", i)); } }
}
void harness() {
  for (int n = 1; n <= 4; n++) { std::vector<std::pair<int, int>> pr; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) pr.push_back({i, j}); for (int s = 0; s < (1 << pr.size()); s++) { if (elapsed() > budget * 0.6) break; Met m; m.task = 3; for (int i = 0; i < n; i++) m.sub.push_back(i % 3); for (size_t k = 0; k < pr.size(); k++) if (s >> k & 1) m.ord.push_back(pr[k]); if (acyclic(rel(n, m.ord))) run({m}, 1); } }
  while (time_left()) { int k = rnd(1, 4); std::vector<Met> ms; Opt o; for (int i = 0; i < k; i++) { Met m; m.task = 3 + (i ? rnd(0, 1) : 0); int n = rnd(1, coin(20) ? 14 : 7); for (int j = 0; j < n; j++) m.sub.push_back(rnd(0, 4)); o.total = 40; m.ord = randorder(n, o); if (coin(15) && m.ord.size()) m.ord.push_back(m.ord[0]); ms.push_back(m); } run(ms, 2); }
}
