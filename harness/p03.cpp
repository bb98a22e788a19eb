// P03 bounded check: tracked multisets of tasks along random progressions.  Non-trivial: every case.
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "walk.h"
using namespace hm;
static void chk(searchNode *n, const std::map<int, int> &e, const char *w) {
  std::map<int, int> c; for (int i = 0; i < n->numContainedTasks; i++) { if (i) check(n->containedTasks[i - 1] < n->containedTasks[i], cat(w, "task list ascending", arr(n->containedTasks, n->numContainedTasks))); check(n->containedTaskCount[i] > 0, cat(w, "count not positive", arr(n->containedTaskCount, n->numContainedTasks))); c[n->containedTasks[i]] = n->containedTaskCount[i]; }
  if (c != e) { std::string s; for (auto &x : e) s += cat(x.first, "*", x.second, ","); fail(cat(w, arr(n->containedTasks, n->numContainedTasks), arr(n->containedTaskCount, n->numContainedTasks), "expected", s)); }
}
static std::map<int, int> ms(const Net &N) { std::map<int, int> r; for (int t : N.task) r[t]++; return r; }
static void run(const HTN &p, bool flags) {
  begin(brief(p)); Model *m = load(p, true, progression::mtrNO, flags && coin(), flags && coin()); std::map<int, int> b;
  walk(p, m, 18, [&](searchNode *n) { b = ms(net(n)); chk(n, b, "node"); }, [&](searchNode *n, const Step &s) {
    chk(s.child, ms(net(s.child)), "child"); if (!n || flags) return; chk(n, b, "parent afterwards");
    int t = s.isAct ? n->unconstraintPrimitive[s.idx]->task : n->unconstraintAbstract[s.idx]->task; auto e = b; if (--e[t] == 0) e.erase(t); if (!s.isAct) for (int x : p.mets[s.method].sub) e[x]++; chk(s.child, e, "child against parent"); });
  delete m;
}
void harness() { int i = 0; while (time_left()) { Opt o; o.dup = coin() ? 40 : 10; if (coin(30)) o.maxsub = 8; if (coin(30)) o.maxa = 12; run(gen(o), i++ % 4 == 3); } }
