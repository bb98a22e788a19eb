// P01 bounded check: applicability, successor states and goal test along random progressions of random problems.  Non-trivial: some action changes the state.
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "walk.h"
using namespace hm;
static void run(const HTN &p) {
  begin(brief(p)); Model *m = load(p);
  auto before = [&](searchNode *n) {
    SI s = state(n); check((int)n->state.size() == p.nb, "number of facts of a state");
    for (int a = 0; a < p.na(); a++) if (m->isApplicable(n, a) != appl(p, s, a)) fail(cat("isApplicable of action", a, "in", str(s)));
    bool g = n->numAbstract == 0 && n->numPrimitive == 0; for (int f : p.goal) g = g && s.count(f); check(m->isGoal(n) == g, cat("isGoal in", str(s), "pending", n->numAbstract, n->numPrimitive));
    // goal test with other states and an empty network
    searchNode q; q.state = n->state; for (int k = 0; k < 3; k++) { for (int f = 0; f < p.nb; f++) if (coin(30)) q.state[f] = !q.state[f]; SI t = state(&q); bool e = true; for (int f : p.goal) e = e && t.count(f); check(m->isGoal(&q) == e, cat("isGoal of the empty network in", str(t))); for (int a = 0; a < p.na(); a++) check(m->isApplicable(&q, a) == appl(p, t, a), cat("isApplicable", a, "in", str(t))); }
  };
  SI par; 
  auto chk = [&](searchNode *n, const Step &s, const SI &old) { if (!n) return; check(state(n) == old, "state of the parent changed"); SI e = s.isAct ? succ(p, old, n->unconstraintPrimitive[s.idx]->task) : old; if (state(s.child) != e) fail(cat("state after the step", str(state(s.child)), "expected", str(e), "before", str(old))); };
  walk(p, m, 14, [&](searchNode *n) { before(n); par = state(n); }, [&](searchNode *n, const Step &s) { chk(n, s, par); });
  // every action from random states: a network with that one task
  for (int k = 0; k < 6; k++) { int a = rnd(0, p.na() - 1); searchNode *n = m->prepareTNi(m); n->solution = new progression::solutionStep(); n->solution->task = p.init; n->solution->method = 0; n->solution->prev = nullptr; n->solution->pointersToMe = 1; delete n->unconstraintAbstract[0]; n->numAbstract = 0; n->numPrimitive = 1; n->unconstraintPrimitive = new planStep *[1]; auto *ps = n->unconstraintPrimitive[0] = new planStep(); ps->task = a; ps->numSuccessors = 0; ps->pointersToMe = 1; ps->id = 7;
    for (int f = 0; f < p.nb; f++) n->state[f] = coin(); for (int f : p.acts[a].prec) n->state[f] = true; SI old = state(n); note(cat("| apply", a, "in", str(old))); searchNode *c = m->apply(n, 0); check(state(n) == old, "state of the parent changed"); if (state(c) != succ(p, old, a)) fail(cat("state after action", a, str(state(c)), "expected", str(succ(p, old, a)))); check(c->numAbstract == 0 && c->numPrimitive == 0, "network after the last task"); delete n; delete c; }
  delete m;
}
void harness() { while (time_left()) { Opt o; o.maxb = coin(10) ? 70 : 7; run(gen(o)); } }
