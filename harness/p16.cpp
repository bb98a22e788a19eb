// P16 bounded run: random interleavings of pushes and pops of the best-first fringe against a list of the contained nodes
//SRC: search/fringes/OneQueueWAStarFringe.cpp ProgressionNetwork.cpp
#include "h.h"
#include "search/fringes/OneQueueWAStarFringe.h"
using namespace h; using progression::searchNode;
static bool before(searchNode *a, searchNode *b, int nh, const std::map<searchNode *, long> &f, bool &tie) {   // strictly better in priority, then in the further heuristics
  tie = false; if (f.at(a) != f.at(b)) return f.at(a) < f.at(b);
  for (int i = 1; i < nh; i++) if (a->heuristicValue[i] != b->heuristicValue[i]) return a->heuristicValue[i] < b->heuristicValue[i];
  tie = true; return false;
}
void harness() {

  while (time_left()) {
    int vmin = coin(25) ? -10 : 0, opt = rnd(0, 3), w = coin(20) ? rnd(2, 1000) : rnd(0, 5), nh = rnd(1, 4), vmax = coin() ? 2 : coin() ? 10 : 100000, len = rnd(1, coin(10) ? 400 : 40);
    OneQueueWAStarFringe *fr = new OneQueueWAStarFringe((aStar)opt, w, nh); std::vector<searchNode *> in, all; std::map<searchNode *, long> f;
    std::string c = cat("option", opt, "weight", w, "heuristics", nh, ":"); h::begin(c);
    for (int i = 0; i < len; i++) {
      if (in.empty() || coin(60)) {
        searchNode *n = new searchNode(); n->heuristicValue = new int[nh]; for (int j = 0; j < nh; j++) n->heuristicValue[j] = rnd(j ? vmin : 0, vmax); n->modificationDepth = rnd(0, vmax); n->actionCosts = rnd(0, vmax); n->mixedModificationDepth = rnd(0, vmax);
        note(cat("push h", arr(n->heuristicValue, nh), "depth", n->modificationDepth, "cost", n->actionCosts, "mixed", n->mixedModificationDepth, ";"));
        f[n] = (long)n->heuristicValue[0] * w + (opt == 1 ? n->modificationDepth : opt == 2 ? n->actionCosts : opt == 3 ? n->mixedModificationDepth : 0);
        std::vector<int> h0(n->heuristicValue, n->heuristicValue + nh); fr->push(n); in.push_back(n); all.push_back(n);
        check(n->fValue == f[n], cat("priority of the pushed node is", n->fValue, "instead of", f[n])); for (int j = 0; j < nh; j++) check(n->heuristicValue[j] == h0[j], "push changed a heuristic value");
      } else {
        note("pop;"); searchNode *n = fr->pop(); auto it = std::find(in.begin(), in.end(), n); check(it != in.end(), "popped a node that is not in the fringe");
        for (auto *o : in) { bool tie; check(!before(o, n, nh, f, tie), cat("popped node with priority", f[n], "although one with priority", f[o], "and better values is in the fringe")); }
        in.erase(it);
      }
      check(fr->size() == (int)in.size(), "size"); check(fr->isEmpty() == in.empty(), "isEmpty");
    }
    // the ordering is a strict weak order
    TieBreakingNodePointerComaprator cmp(nh); std::vector<searchNode *> s = all; std::shuffle(s.begin(), s.end(), rng); if (s.size() > 12) s.resize(12); for (auto *x : s) if (coin()) x->hRand = rnd(0, 1);
    for (auto *x : s) { check(!cmp(x, x), "a node precedes itself"); for (auto *y : s) { bool tie; bool b = before(y, x, nh, f, tie); check(tie || cmp(x, y) == b, "order of two nodes"); for (auto *z : s) { check(!(cmp(x, y) && cmp(y, z)) || cmp(x, z), "order not transitive"); check(!(!cmp(x, y) && !cmp(y, x) && !cmp(y, z) && !cmp(z, y)) || (!cmp(x, z) && !cmp(z, x)), "incomparability not transitive"); } } }
    for (auto *n : all) { delete[] n->heuristicValue; n->heuristicValue = nullptr; } delete fr;
  }
}
