// P09 bounded run: minimal implied costs and distances of random problems.  Non-trivial: some abstract task has several methods
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "model.h"
using namespace hm;
void harness() {
  while (time_left()) {
    Opt o; o.maxT = coin(30) ? 12 : 5; o.maxm = coin(30) ? 5 : 3; o.maxcost = coin(10) ? 1000000 : coin() ? 9 : 2; HTN p = gen(o);
    bool several = false; for (int t = p.na(); t < p.nt; t++) several |= p.methodsOf(t).size() > 1;
    begin(brief(p), several); Model *m = load(p);
    m->calcMinimalImpliedX();
    const long INF = 1L << 60; std::vector<long> c(p.nt, INF), d(p.nt, INF);
    for (int a = 0; a < p.na(); a++) { c[a] = p.acts[a].cost; d[a] = 1; }
    for (bool ch = true; ch;) { ch = false; for (auto &x : p.mets) { long cc = 0, dd = 1; for (int s : x.sub) { cc = std::min(INF, cc + c[s]); dd = std::min(INF, dd + d[s]); } if (cc < c[x.task]) { c[x.task] = cc; ch = true; } if (dd < d[x.task]) { d[x.task] = dd; ch = true; } } }
    for (int t = 0; t < p.nt; t++) {
      long C = m->minEstimatedCosts[t], D = m->minImpliedDistance[t];
      if (p.prim(t)) { if (C != p.acts[t].cost || D != 1) fail(cat("primitive task", t, "cost", C, "distance", D)); continue; }
      long ec = INF, ed = INF; for (int k : p.methodsOf(t)) { long x = 0, y = 1; for (int s : p.mets[k].sub) { x += m->minEstimatedCosts[s]; y += m->minImpliedDistance[s]; } ec = std::min(ec, x); ed = std::min(ed, y); }
      if (C != ec) fail(cat("cost of task", t, "is", C, "but the minimum over its methods is", ec));
      if (D != ed) fail(cat("distance of task", t, "is", D, "but one plus the minimum over its methods is", ed));
      if (C > c[t]) fail(cat("cost of task", t, "is", C, "but a refinement costs", c[t])); if (D > d[t]) fail(cat("distance of task", t, "is", D, "but a refinement needs", d[t]));
    }
    delete m;
  }
}
