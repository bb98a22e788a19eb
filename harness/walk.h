// random progression walks over the real model
#pragma once
#include "model.h"
namespace hm {
struct Step { bool isAct; int idx, method; searchNode *child; };
// all steps possible at a node: (is action, index in the list, method)
inline std::vector<Step> steps(const HTN &p, const searchNode *n) {
  std::vector<Step> r; SI s = state(n);
  for (int i = 0; i < n->numPrimitive; i++) if (appl(p, s, n->unconstraintPrimitive[i]->task)) r.push_back({true, i, -1, nullptr});
  for (int i = 0; i < n->numAbstract; i++) for (int m : p.methodsOf(n->unconstraintAbstract[i]->task)) r.push_back({false, i, m, nullptr});
  return r;
}
inline std::string sd(const searchNode *n, const Step &s) { return s.isAct ? cat("apply", n->unconstraintPrimitive[s.idx]->task, "at", s.idx, ";") : cat("decompose", n->unconstraintAbstract[s.idx]->task, "at", s.idx, "method", s.method, ";"); }
// calls f(parent, step) after the step was taken; keeps up to maxlen steps; parents are sometimes freed before the walk goes on
template <class F, class G> void walk(const HTN &p, Model *m, int maxlen, F before, G after) {
  searchNode *n = m->prepareTNi(m); std::vector<searchNode *> live;
  for (int l = 0; l < maxlen; l++) {
    before(n); auto st = steps(p, n); if (st.empty()) break;
    std::vector<Step> acts; for (auto &s : st) if (s.isAct) acts.push_back(s);
    Step s = acts.size() && coin(net(n).st.size() > 12 ? 90 : 50) ? acts[rnd(0, acts.size() - 1)] : st[rnd(0, st.size() - 1)];
    if (net(n).st.size() > 30) break;
    note(sd(n, s)); s.child = s.isAct ? m->apply(n, s.idx) : m->decompose(n, s.idx, s.method);
    after(n, s); if (coin(30)) delete n; else live.push_back(n); n = s.child;
  }
  std::shuffle(live.begin(), live.end(), rng); for (auto *x : live) delete x; after(nullptr, Step{true, -1, -1, n}); delete n;
}
}
