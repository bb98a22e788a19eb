// P07 bounded check: first/last/successor/distinct-subtask information of methods.  Non-trivial: every case.
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "walk.h"
using namespace hm;
void harness() { while (time_left()) { Opt o; o.dup = coin() ? 50 : 15; o.maxsub = coin(25) ? 12 : 5; HTN p = gen(o); begin(brief(p)); Model *m = load(p);
  for (size_t i = 0; i < p.mets.size(); i++) { auto &M = p.mets[i]; int n = M.sub.size(); Rel r = reduction(rel(n, M.ord)), c = closure(r); check(m->numSubTasks[i] == n && m->decomposedTask[i] == M.task && std::equal(M.sub.begin(), M.sub.end(), m->subTasks[i]), "method as given");
    VI F, L; int fp = 0, fa = 0; for (int j = 0; j < n; j++) { bool pr = false, su = false; int k = 0; for (int x = 0; x < n; x++) { pr |= c[x][j]; su |= c[j][x]; } for (int y = 0; y < m->numOrderings[i]; y += 2) k += m->ordering[i][y] == j; if (!pr) { F.push_back(j); p.prim(M.sub[j]) ? fp++ : fa++; } if (!su) L.push_back(j); int e = 0; for (int x = 0; x < n; x++) e += r[j][x]; check(k == e, "constraints of the method"); if (m->methodSubtaskSuccNum[i][j] != k) fail(cat("successor number of subtask", j, "of method", i)); }
    VI f(m->methodsFirstTasks[i], m->methodsFirstTasks[i] + m->numFirstTasks[i]), l(m->methodsLastTasks[i], m->methodsLastTasks[i] + m->numLastTasks[i]); std::sort(f.begin(), f.end()); std::sort(l.begin(), l.end());
    if (f != F) fail(cat("first subtasks of method", i, str(f), "expected", str(F))); if (l != L) fail(cat("last subtasks of method", i, str(l), "expected", str(L)));
    check(m->numFirstPrimSubTasks[i] == fp && m->numFirstAbstractSubTasks[i] == fa, cat("numbers of primitive/abstract first subtasks of method", i));
    std::map<int, int> ms; for (int t : M.sub) ms[t]++; int d = m->numDistinctSTs[i]; if (d != (int)ms.size()) fail(cat("number of distinct subtasks of method", i, d)); int k = 0; for (auto &x : ms) { if (m->sortedDistinctSubtasks[i][k] != x.first || m->sortedDistinctSubtaskCount[i][k] != x.second) fail(cat("distinct subtasks of method", i, arr(m->sortedDistinctSubtasks[i], d), arr(m->sortedDistinctSubtaskCount[i], d))); k++; } }
  delete m; } }
