// P14 bounded check: operation sequences on IntPairHeap of several key types against std::multiset of pairs.  Non-trivial: at least one pop with two or more entries.
#include "h.h"
#include "intDataStructures/IntPairHeap.h"
using namespace progression; using namespace h;
template <class T> void run(const char *nm, int cap, const std::vector<int> &ops, int scale) {
  // op: >=0 add with this key, -1 pop, -2 clear, < -2: add with negative key op+2
  int c = 0; bool nt = false; for (int o : ops) { if (o == -1) { if (c >= 2) nt = true; if (c) c--; } else if (o == -2) c = 0; else c++; }
  begin(cat(nm, "capacity", cap, "scale", scale, "ops(-1 pop, -2 clear, >=0 add key, <-2 add key+2)", str(ops)), nt);
  IntPairHeap<T> *hp = new IntPairHeap<T>(cap); IntPairHeap<T> &h = *hp; std::multiset<std::pair<T, int>> r; int val = 0;
  auto top = [&]() { check(h.isEmpty() == r.empty(), "isEmpty"); check(h.size() == (int)r.size(), cat("size", h.size(), "expected", r.size())); if (r.empty()) return;
    T k = h.topKey(); int v = h.topVal(); check(k == r.begin()->first, cat("top key", k, "minimal key", r.begin()->first)); check(r.count({k, v}) > 0, cat("top entry", k, v, "was not inserted or already removed")); };
  top();
  for (int o : ops) {
    if (o == -1) { if (r.empty()) continue; T k = h.topKey(); int v = h.topVal(); h.pop(); auto it = r.find({k, v}); check(it != r.end(), "popped entry"); r.erase(it); }
    else if (o == -2) { h.clear(); r.clear(); }
    else { T k = (T)(o >= 0 ? o : o + 2) * (T)scale; int v = (val++ * 7919) % 1000 - 300; h.add(k, v); r.insert({k, v}); }
    top();
  }
  while (!r.empty()) { T k = h.topKey(); int v = h.topVal(); top(); h.pop(); r.erase(r.find({k, v})); }
  top(); delete hp;
}
void all(int cap, const std::vector<int> &o) { run<int>("int", cap, o, 1); run<long long>("long long", cap, o, 1000003); run<double>("double", cap, o, 3); run<float>("float", cap, o, 1); }
void harness() {
  int it = 0;
  while (elapsed() < budget * 0.6 && it++ < (thorough ? 100000 : 6000)) { int n = rnd(1, coin(10) ? 1500 : 60), m = coin(30) ? rnd(0, 3) : coin() ? rnd(0, 40) : 1000000000, pp = rnd(5, 60); std::vector<int> o(n);
    for (auto &x : o) x = coin(pp) ? -1 : coin(1) ? -2 : coin(15) ? -3 - rnd(0, m) : rnd(0, m); if (coin(30)) std::sort(o.begin(), o.end()); if (coin(20)) std::reverse(o.begin(), o.end()); all(rnd(0, coin() ? 5 : 64), o); }
  for (int n = 14; n <= 70; n++) for (int t = 0; t < 12; t++) { std::vector<int> o = rndvec(n, 0, 60); for (int k = 0; k < n; k++) { o.push_back(-1); if (coin(30)) o.push_back(rnd(0, 60)); } run<int>("int", 4, o, 1); }
  for (int n = 1; n <= (thorough ? 8 : 7); n++) allvec(n, -1, 3, [&](std::vector<int> &v) { for (int c : {0, 1, 3}) run<int>("int", c, v, 1); });
  for (int n = 1; n <= 4; n++) allvec(n, -4, 2, [&](std::vector<int> &v) { all(n % 3, v); });
  run<int>("int", 4, {INT_MAX, -3, INT_MIN + 0 == INT_MIN ? -1000000 : 0, INT_MAX, 0, -1, -1}, 1);
}
