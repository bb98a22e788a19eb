// P20 bounded run: relaxed composition models of random problems against a direct construction.  Non-trivial: some method has several subtasks
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp heuristics/rcHeuristics/RCModelFactory.cpp
#include "model.h"
#include "heuristics/rcHeuristics/RCModelFactory.h"
using namespace hm; using progression::RCModelFactory;
static VI row(int *r, int n) { return n > 0 ? VI(r, r + n) : VI(); }
static VI uniq(VI v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static std::string low(std::string s) { for (auto &c : s) c = tolower(c); return s; }
static void one(const HTN &p, int cm, int ca, bool defaults) {
  bool nt = false; for (auto &m : p.mets) nt |= m.sub.size() > 1; begin(brief(p) + cat(" costs", cm, ca), nt); Model *m = load(p); RCModelFactory f(m);
  int nb = p.nb, na = p.na(), nm = p.mets.size(); auto T = [&](int a) { return nb + a; }; auto B = [&](int t) { return nb + na + t; };
  SI seen; for (int a = 0; a < na; a++) { check(f.t2tdr(a) == T(a), "top-down marker"); seen.insert(f.t2tdr(a)); } for (int t = 0; t < p.nt; t++) { check(f.t2bur(t) == B(t), "bottom-up marker"); seen.insert(f.t2bur(t)); } check((int)seen.size() == na + p.nt, "markers differ");
  for (int t = 0; t < p.nt; t++) { auto r = f.rcStateFeature2HtnIndex("bur-" + low(f.su.cleanStr(m->taskNames[t])) + "()"); check(r.first == f.fTask && r.second == t, cat("task of the marker of task", t, "is", r.second)); }
  for (int i = 0; i < nb; i++) { auto r = f.rcStateFeature2HtnIndex(low(f.su.cleanStr(m->factStrs[i])) + "()"); check(r.first == f.fFact && r.second == i, cat("fact of the name of fact", i, "is", r.second)); }
  Model *r = defaults ? f.getRCmodelSTRIPS() : f.getRCmodelSTRIPS(cm, ca);
  check(r->numStateBits == nb + na + p.nt && r->numActions == na + nm && r->numTasks == na + nm && r->numVars == (int)p.vars.size() + na + p.nt && !r->isHtnModel, "sizes");
  for (int a = 0; a < na; a++) {
    VI pr = row(m->precLists[a], m->numPrecs[a]), ad = row(m->addLists[a], m->numAdds[a]), de = row(m->delLists[a], m->numDels[a]); pr.push_back(T(a)); ad.push_back(B(a));
    check(uniq(pr) == uniq([&] { VI v = p.acts[a].prec; v.push_back(T(a)); return v; }()), "model");
    VI x = row(r->precLists[a], r->numPrecs[a]), y = row(r->addLists[a], r->numAdds[a]), z = row(r->delLists[a], r->numDels[a]);
    if (uniq(x) != uniq(pr) || x.size() != pr.size()) fail(cat("preconditions of action", a, str(x))); if (uniq(y) != uniq(ad) || y.size() != ad.size()) fail(cat("add effects of action", a, str(y))); if (uniq(z) != uniq(de) || z.size() != de.size()) fail(cat("delete effects of action", a, str(z)));
    check(r->actionCosts[a] == (ca ? ca : p.acts[a].cost), cat("costs of action", a, r->actionCosts[a])); check(r->taskNames[a] == m->taskNames[a], "action name");
  }
  for (int k = 0; k < nm; k++) {
    int a = na + k; VI w; for (int s : uniq(p.mets[k].sub)) w.push_back(B(s)); VI x = row(r->precLists[a], r->numPrecs[a]);
    if (uniq(x) != w || x.size() != w.size()) fail(cat("preconditions of method", k, str(x), "expected", str(w)));
    if (row(r->addLists[a], r->numAdds[a]) != VI{B(p.mets[k].task)}) fail(cat("add effects of method", k)); check(r->numDels[a] == 0, "delete effects of a method"); check(r->actionCosts[a] == cm, cat("costs of method", k, r->actionCosts[a]));
    check(r->taskNames[a] == m->methodNames[k] + "@" + m->taskNames[p.mets[k].task], "method name");
  }
  VI pl; for (int a = 0; a < na + nm; a++) { check(r->isPrimitive[a], "primitive"); if (!r->numPrecs[a]) pl.push_back(a); } if (uniq(row(r->precLessActions, r->numPrecLessActions)) != pl || r->numPrecLessActions != (int)pl.size()) fail("actions without preconditions");
  for (int i = 0; i < r->numStateBits; i++) { VI w; for (int a = 0; a < na + nm; a++) for (int j = 0; j < r->numPrecs[a]; j++) if (r->precLists[a][j] == i) { w.push_back(a); break; } if (row(r->precToAction[i], r->precToActionSize[i]) != w) fail(cat("actions that need fact", i)); }
  VI s = row(m->s0List, m->s0Size); for (int a = 0; a < na; a++) s.push_back(T(a)); if (row(r->s0List, r->s0Size) != uniq(s)) fail(cat("initial state", str(row(r->s0List, r->s0Size))));
  VI g = row(m->gList, m->gSize); g.push_back(B(p.init)); if (uniq(row(r->gList, r->gSize)) != uniq(g)) fail(cat("goal", str(row(r->gList, r->gSize))));
  for (size_t v = 0; v < p.vars.size(); v++) check(r->firstIndex[v] == p.vars[v].first && r->lastIndex[v] == p.vars[v].second && r->varNames[v] == m->varNames[v], "variable");
  for (int v = p.vars.size(), x = p.vars.size() ? p.vars.back().second + 1 : 0; v < r->numVars; v++, x++) check(r->firstIndex[v] == x && r->lastIndex[v] == x, cat("marker variable", v));
  for (int i = 0; i < nb; i++) check(r->factStrs[i] == m->factStrs[i], "fact name"); for (int a = 0; a < na; a++) check(r->factStrs[T(a)] == "tdr-" + m->taskNames[a] && r->varNames[p.vars.size() + a] == "tdr-" + m->taskNames[a], "marker name"); for (int t = 0; t < p.nt; t++) check(r->factStrs[B(t)] == "bur-" + m->taskNames[t] && r->varNames[p.vars.size() + na + t] == "bur-" + m->taskNames[t], "marker name");
  delete m;
}
void harness() {
  { HTN p; p.nb = 0; Act a; a.cost = 3; p.acts = {a, a}; p.nt = 3; p.init = 2; Met m; m.task = 2; m.sub = {0, 1}; p.mets = {m}; one(p, 0, 0, false); }
  while (time_left()) { Opt o; o.maxT = coin(20) ? 10 : 4; o.maxa = coin(20) ? 12 : 5; o.maxsub = coin(20) ? 9 : 4; o.dup = 25; HTN p = gen(o); bool d = coin(15); one(p, d ? 1 : rnd(0, 5), d ? 1 : coin() ? 0 : rnd(1, 5), d); }
}
