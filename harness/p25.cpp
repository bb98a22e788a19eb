// P25 bounded run: relaxed planning graph of random problems against a naive fixpoint.  Non-trivial: some but not all facts and tasks are reachable
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp heuristics/planningGraph.cpp intDataStructures/IntStack.cpp
#include "model.h"
#include "heuristics/planningGraph.h"
using namespace hm;
using progression::planningGraph; using progression::noDelIntSet;
void harness() {
  while (time_left()) {
    Opt o; o.maxb = coin(20) ? 14 : 6; o.maxa = coin(20) ? 14 : 6; o.maxT = 6; o.solvable = coin(); o.maxcost = coin(10) ? 2000000000 : 4; HTN p = gen(o);
    for (auto &a : p.acts) { SI s(a.prec.begin(), a.prec.end()); a.prec.assign(s.begin(), s.end()); std::shuffle(a.prec.begin(), a.prec.end(), rng); }
    if (coin(5)) { // chain that doubles the additive values
      int k = rnd(3, 40); p.nb = 2 * k + 2; p.vars.clear(); for (int i = 0; i < p.nb; i++) p.vars.push_back({i, i}); p.s0 = {0, 1}; p.goal.clear(); p.mets.clear(); p.acts.clear(); Met m; int c = rnd(0, 3);
      for (int i = 0; i < k; i++) { Act a; a.cost = c; a.prec = {2 * i, 2 * i + 1}; a.add = {2 * i + 2, 2 * i + 3}; if (coin(10)) a.add.push_back(rnd(0, p.nb - 1)); p.acts.push_back(a); m.sub.push_back(i); }
      p.nt = k + 1; p.init = k; m.task = k; p.mets.push_back(m);
    }
    std::string b = brief(p); h::begin(b, false); Model *m = load(p); planningGraph *g = new planningGraph(m);
    for (int rep = 0; rep < 6; rep++) {
      SI s; int dens = rnd(0, 80); for (int i = 0; i < p.nb; i++) if (coin(dens)) s.insert(i); if (rep == 0) s = SI(p.s0.begin(), p.s0.end());
      SI al; int da = coin(30) ? 100 : rnd(30, 95); for (int i = 0; i < p.nt; i++) if (coin(da)) al.insert(i);
      SI F = s, T, M; bool ch = true;
      while (ch) { ch = false;
        for (int a = 0; a < p.na(); a++) if (al.count(a) && !T.count(a)) { bool ok = true; for (int f : p.acts[a].prec) ok &= F.count(f) > 0; if (ok) { T.insert(a); for (int f : p.acts[a].add) F.insert(f); ch = true; } }
        for (int i = 0; i < (int)p.mets.size(); i++) if (al.count(p.mets[i].task) && !M.count(i)) { bool ok = true; for (int t : p.mets[i].sub) ok &= T.count(t) > 0; if (ok) { M.insert(i); T.insert(p.mets[i].task); ch = true; } } }
      h::begin(b, F.size() < (size_t)p.nb && T.size() && T.size() < (size_t)p.nt && M.size()); note(cat("state", str(s), "allowed", str(al)));
      std::vector<bool> st(p.nb, false); for (int f : s) st[f] = true; noDelIntSet R; R.init(p.nt); VI av(al.begin(), al.end()); std::shuffle(av.begin(), av.end(), rng); for (int t : av) R.insert(t);
      g->calcReachability(st, R);
      for (int f = 0; f < p.nb; f++) check(g->factReachable(f) == (F.count(f) > 0), cat("fact", f, "reported", g->factReachable(f)));
      for (int t = 0; t < p.nt; t++) check(g->taskReachable(t) == (T.count(t) > 0), cat("task", t, "reported", g->taskReachable(t)));
      for (int i = 0; i < (int)p.mets.size(); i++) check(g->methodReachable(i) == (M.count(i) > 0), cat("method", i, "reported", g->methodReachable(i)));
      for (int f = 0; f < p.nb; f++) check(st[f] == (s.count(f) > 0), "state changed"); for (int t = 0; t < p.nt; t++) check(R.get(t) == (al.count(t) > 0), "allowed tasks changed");
    }
    delete g; delete m;
  }
}
