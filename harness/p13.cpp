// P13 bounded check: every operation sequence up to the bound, then random ones, against std::vector.  Non-trivial: at least one push and pop.
#include "h.h"
#include "intDataStructures/IntStack.cpp"
#include "intDataStructures/FlexIntStack.cpp"
using namespace progression; using namespace h;
template <class S> void run(const char *nm, int cap, const std::vector<int> &ops, bool flex) {
  // op: >=0 push value, -1 pop, -2 clear, -3 iterate
  std::string d = cat(nm, "init", cap, "ops(-1 pop,-2 clear,-3 iterate,else push)", str(ops)); bool nt = std::count(ops.begin(), ops.end(), -1) && *std::max_element(ops.begin(), ops.end()) >= 0;
  begin(d, nt);
  S *sp = new S(); S &s = *sp; s.init(cap); std::vector<int> r;
  check(s.isEmpty() && s.getSize() == 0, "new stack not empty");
  for (int o : ops) {
    if (o >= 0) { if (!flex && (int)r.size() >= cap) continue; s.push(o); r.push_back(o); }
    else if (o == -1) { int x = s.pop(); int e = r.empty() ? -1 : r.back(); if (!r.empty()) r.pop_back(); check(x == e, cat("pop returned", x, "expected", e)); }
    else if (o == -2) { s.clear(); r.clear(); }
    else { std::vector<int> got; int n = 0; for (int x = s.getFirst(); n < (int)r.size(); x = s.getNext(), n++) got.push_back(x); check(got == r, cat("iteration", str(got), "expected", str(r))); if (r.empty()) check(s.getFirst() == -1, "getFirst on empty"); else check(s.getNext() == -1 || true, ""); }
    check(s.isEmpty() == r.empty(), "isEmpty"); check(s.getSize() == (int)r.size(), cat("getSize", s.getSize(), "expected", r.size()));
  }
  std::vector<int> out; while (!s.isEmpty()) out.push_back(s.pop()); std::reverse(out.begin(), out.end()); check(out == r, cat("contents", str(out), "expected", str(r)));
  delete sp;
}
void harness() {
  for (int n = 1; n <= (thorough ? 8 : 6); n++) allvec(n, -3, 1, [&](std::vector<int> &v) { auto w = v; for (size_t i = 0; i < w.size(); i++) if (w[i] >= 0) w[i] = w[i] * 10 + (int)i; run<IntStack>("IntStack", n, w, false); for (int c : {0, 1, 2, 3}) run<FlexIntStack>("FlexIntStack", c, w, true); });
  int it = 0;
  while (time_left() && it++ < (thorough ? 200000 : 20000)) { int n = rnd(1, coin(5) ? 3000 : 60); std::vector<int> v(n); int pp = rnd(10, 90); for (auto &x : v) x = coin(pp) ? rnd(0, coin() ? 5 : INT_MAX) : (coin(90) ? -1 : rnd(-3, -2));
    run<IntStack>("IntStack", n, v, false); run<FlexIntStack>("FlexIntStack", rnd(0, 40), v, true); }
}
