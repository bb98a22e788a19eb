// P05 bounded check: the indexes of models read from random problem files.  Non-trivial: every case.
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "walk.h"
using namespace hm;
static void idx(int n, int *sz, int **l, const std::function<bool(int, int)> &has, int m, const char *w) {
  for (int i = 0; i < n; i++) { SI s(l[i], l[i] + sz[i]); check((int)s.size() == sz[i], cat(w, i, "lists an entry twice", arr(l[i], sz[i]))); SI e; for (int j = 0; j < m; j++) if (has(i, j)) e.insert(j); if (s != e) fail(cat(w, i, arr(l[i], sz[i]), "expected", str(e))); }
}
static bool in(const VI &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
void harness() { while (time_left()) { Opt o; o.maxa = coin(20) ? 25 : 6; o.maxb = coin(20) ? 40 : 6; o.maxT = 6; HTN p = gen(o); begin(brief(p)); Model *m = load(p);
  auto all = [&](const char *w) {
    idx(p.nb, m->precToActionSize, m->precToAction, [&](int f, int a) { return in(p.acts[a].prec, f); }, p.na(), cat(w, "precToAction").c_str());
    idx(p.nb, m->addToActionSize, m->addToAction, [&](int f, int a) { return in(p.acts[a].add, f); }, p.na(), cat(w, "addToAction").c_str());
    idx(p.nb, m->delToActionSize, m->delToAction, [&](int f, int a) { return in(p.acts[a].del, f); }, p.na(), cat(w, "delToAction").c_str());
    int *pl = m->precLessActions; idx(1, &m->numPrecLessActions, &pl, [&](int, int a) { return p.acts[a].prec.empty(); }, p.na(), cat(w, "precLessActions").c_str());
    idx(p.nt, m->numMethodsForTask, m->taskToMethods, [&](int t, int i) { return p.mets[i].task == t; }, p.mets.size(), cat(w, "taskToMethods").c_str());
    idx(p.nt, m->stToMethodNum, m->stToMethod, [&](int t, int i) { return in(p.mets[i].sub, t); }, p.mets.size(), cat(w, "stToMethod").c_str()); };
  all("read:"); m->calcAddToActionMapping(); all("recomputed:"); delete m; } }
