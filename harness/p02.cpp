// P02 bounded check: the task network after every step of random progressions against an explicit network.  Non-trivial: every case.
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "walk.h"
using namespace hm;
static Net before; static int bA, bP, bCost, bDepth, bMixed; static progression::solutionStep *bSol;
static void wellformed(const HTN &p, const searchNode *n, const Net &N) {
  std::set<planStep *> s; for (int i = 0; i < n->numAbstract; i++) { check(s.insert(n->unconstraintAbstract[i]).second, "unconstrained task listed twice"); check(!p.prim(n->unconstraintAbstract[i]->task), "primitive task in the abstract list"); }
  for (int i = 0; i < n->numPrimitive; i++) { check(s.insert(n->unconstraintPrimitive[i]).second, "unconstrained task listed twice"); check(p.prim(n->unconstraintPrimitive[i]->task), "abstract task in the primitive list"); }
  for (size_t j = 0; j < N.st.size(); j++) { bool pred = false; for (size_t i = 0; i < N.st.size(); i++) if (N.ord[i][j]) pred = true; check(!N.ord[j][j], "cyclic network"); if (s.count(N.st[j]) == pred) fail(cat("unconstrained tasks are not exactly those without pending predecessor: step", j, "of", nets(N))); }
  std::set<int> ids; for (auto *x : N.st) check(ids.insert(x->id).second, "two steps with the same id");
}
static std::map<planStep *, int> ix(const Net &N) { std::map<planStep *, int> r; for (size_t i = 0; i < N.st.size(); i++) r[N.st[i]] = i; return r; }
static void after(const HTN &p, searchNode *n, const Step &s, bool flags) {
  if (!n) { wellformed(p, s.child, net(s.child)); return; }
  searchNode *c = s.child; Net A = net(n), C = net(c);
  check(A.st == before.st && A.ord == before.ord && A.task == before.task && n->numAbstract == bA && n->numPrimitive == bP, "the parent's network changed");
  wellformed(p, c, C);
  auto ci = ix(C), ai = ix(before);
  if (flags) {   // the node may be further steps ahead: replay the solution steps from the parent
    std::vector<progression::solutionStep *> path; for (auto *q = c->solution; q != bSol; q = q->prev) { check(q != nullptr, "solution does not continue the parent's"); path.push_back(q); } std::reverse(path.begin(), path.end());
    SI S = state(n); int cost = bCost; size_t k = before.st.size(); 
    for (size_t i = 0; i < path.size(); i++) { auto *q = path[i]; if (q->method < 0) { if (!appl(p, S, q->task)) fail(cat("progressed action", q->task, "is not applicable")); S = succ(p, S, q->task); cost += p.acts[q->task].cost; k--; } else { check(i == 0 && !s.isAct, "unexpected decomposition"); k += p.mets[q->method].sub.size() - 1; } }
    check(state(c) == S, "state does not match the solution"); check(c->actionCosts == cost, "action costs do not match the solution"); if (C.st.size() != k) fail(cat("number of pending tasks", C.st.size(), "expected", k));
    check(c->modificationDepth == bDepth + (int)path.size(), "modification depth");
    for (size_t i = 0; i < C.st.size(); i++) for (size_t j = 0; j < C.st.size(); j++) if (ai.count(C.st[i]) && ai.count(C.st[j]) && C.ord[i][j] != before.ord[ai[C.st[i]]][ai[C.st[j]]]) fail("order of pending tasks changed");
    for (size_t i = 0; i < before.st.size(); i++) if (!ci.count(before.st[i])) { bool done = (s.isAct && before.st[i] == n->unconstraintPrimitive[s.idx]) || (!s.isAct && before.st[i] == n->unconstraintAbstract[s.idx]); for (auto *q : path) if (q->method < 0 && q->task == before.st[i]->task) done = true; check(done, "a pending task vanished"); }
    // goalReachable may only be false if no continuation exists
    if (!c->goalReachable) { check(c->numAbstract == 0 && c->numPrimitive > 0, "dead end reported"); for (int i = 0; i < c->numPrimitive; i++) check(!appl(p, state(c), c->unconstraintPrimitive[i]->task), "dead end reported although an action is applicable"); }
    return;
  }
  check(c->goalReachable, "goalReachable"); check(c->modificationDepth == bDepth + 1, "modification depth"); check(c->solution->prev == bSol, "previous solution step");
  planStep *gone = s.isAct ? n->unconstraintPrimitive[s.idx] : n->unconstraintAbstract[s.idx];
  check(c->solution->task == gone->task && c->solution->method == s.method, "solution step"); check(!ci.count(gone), "the progressed task is still pending");
  check(c->actionCosts == bCost + (s.isAct ? p.acts[gone->task].cost : 0), "action costs"); check(c->mixedModificationDepth == bMixed + (s.isAct ? p.acts[gone->task].cost : 1), "mixed modification depth");
  for (auto *x : before.st) if (x != gone) check(ci.count(x) && x->task == before.task[ai[x]], "a pending task was lost or changed");
  size_t fresh = s.isAct ? 0 : p.mets[s.method].sub.size(); if (C.st.size() != before.st.size() - 1 + fresh) fail(cat("number of pending tasks", C.st.size(), nets(C), "before", nets(before)));
  std::map<int, planStep *> sub; for (auto *x : C.st) if (!ai.count(x)) { check(sub.insert({x->myPositionInParent, x}).second, "two copies of one subtask"); check(x->parentSolutionStepInstanceNumber == c->solution->mySolutionStepInstanceNumber, "parent of a subtask"); }
  if (!s.isAct) { auto &m = p.mets[s.method]; Rel mo = closure(rel(m.sub.size(), m.ord));
    for (size_t i = 0; i < m.sub.size(); i++) { check(sub.count(i) && sub[i]->task == m.sub[i], "subtask of the method"); }
    for (auto &[i, x] : sub) for (auto &[j, y] : sub) if (mo[i][j] != C.ord[ci[x]][ci[y]]) fail(cat("order of subtasks", i, j, nets(C)));
    for (auto &[i, x] : sub) for (auto *y : before.st) if (y != gone) { if (C.ord[ci[x]][ci[y]] != before.ord[ai[gone]][ai[y]]) fail(cat("subtask", i, "against pending task", ai[y], nets(C), "before", nets(before))); check(!C.ord[ci[y]][ci[x]], "pending task before a subtask"); } }
  for (auto *x : before.st) for (auto *y : before.st) if (x != gone && y != gone && C.ord[ci[x]][ci[y]] != before.ord[ai[x]][ai[y]]) fail(cat("order of pending tasks", ai[x], ai[y], "changed", nets(C), "before", nets(before)));
}
static void run(const HTN &p, bool effless, bool onemod) {
  begin(cat(brief(p), effless, onemod)); Model *m = load(p, false, progression::mtrNO, effless, onemod);
  walk(p, m, 16, [&](searchNode *n) { before = net(n); bA = n->numAbstract; bP = n->numPrimitive; bCost = n->actionCosts; bDepth = n->modificationDepth; bMixed = n->mixedModificationDepth; bSol = n->solution; }, [&](searchNode *n, const Step &s) { after(p, n, s, effless || onemod); });
  delete m;
}
void harness() { int i = 0; while (time_left()) { Opt o; if (coin(30)) { o.maxsub = 7; o.ordp = 30; o.maxT = 3; } if (coin(30)) o.maxb = 3; bool fl = i % 3 == 2; i++; run(gen(o), fl && coin(), fl && coin()); } }
