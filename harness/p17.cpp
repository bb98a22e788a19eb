// P17 bounded check: all arrays up to the bound over a small alphabet, then random ones.  Non-trivial: at least two elements.
#include "h.h"
#include "intDataStructures/IntUtil.cpp"
#include "heuristics/landmarks/lmDataStructures/lookUpTab.cpp"
//SRC: heuristics/landmarks/lmDataStructures/LmMap.cpp
using namespace progression; using namespace h;
typedef std::vector<int> V;
struct Guarded { int *raw, *a; int n; Guarded(const V &v) { n = v.size(); raw = new int[n]; a = raw; for (int i = 0; i < n; i++) a[i] = v[i]; } ~Guarded() { delete[] raw; } V get() { return V(a, a + n); } };
void one(const V &v) {
  IntUtil u; int n = v.size();
  for (int lo = 0; lo < n; lo++) for (int hi = lo - 1; hi < n; hi++) {
    if (n > 6 && !(lo == 0 && hi == n - 1) && !coin(3)) continue;
    begin(cat("sort", str(v), "range", lo, hi), hi > lo);
    Guarded g(v); u.sort(g.a, lo, hi); V e = v; if (hi >= lo) std::sort(e.begin() + lo, e.begin() + hi + 1); check(g.get() == e, cat("sorted result", str(g.get()), "expected", str(e)));
    if (hi >= lo) { begin(cat("search in", str(e), "range", lo, hi), true);
      std::set<int> probes(v.begin(), v.end()); for (int x : V(v)) { probes.insert(x == INT_MAX ? x : x + 1); probes.insert(x == INT_MIN ? x : x - 1); }
      for (int x : probes) { int r = u.indexOf(g.a, lo, hi, x); bool in = std::find(e.begin() + lo, e.begin() + hi + 1, x) != e.begin() + hi + 1; check(in ? (r >= lo && r <= hi && e[r] == x) : r == -1, cat("indexOf", x, "returned", r)); check(u.containsInt(g.a, lo, hi, x) == in, cat("containsInt", x)); } }
  }
  if (n >= 1) { begin(cat("isSorted", str(v)), n > 1); Guarded g(v); check(u.isSorted(g.a, n) == std::is_sorted(v.begin(), v.end()), "isSorted"); }
  { begin(cat("makeSet", str(v)), n > 1); Guarded g(v); int r = u.makeSet(g.a, n); std::set<int> s(v.begin(), v.end()); V e(s.begin(), s.end()); check(r == (int)e.size(), cat("makeSet size", r, "expected", e.size())); V got(g.a, g.a + r); check(got == e, cat("makeSet", str(got), "expected", str(e))); }
  for (int k = 0; k < n; k++) if (std::count(v.begin(), v.end(), v[k]) == 1) { begin(cat("copyExcluding", str(v), "excluding", v[k]), n > 1); Guarded g(v); int *o = u.copyExcluding(g.a, n, v[k]); V e; for (int x : v) if (x != v[k]) e.push_back(x); check(V(o, o + n - 1) == e, "copyExcluding"); delete[] o; if (n > 6) break; }
  std::set<int> s(v.begin(), v.end()); if (!s.empty()) { begin(cat("lookUpTab", str(s)), n > 1); V e(s.begin(), s.end()); lookUpTab *t = new lookUpTab((int)e.size()); t->size = e.size(); for (size_t i = 0; i < e.size(); i++) { t->lookFor[i] = new LmMap(e[i], 0); t->lookFor[i]->entry = e[i]; }
    for (int x : e) for (int d : {-1, 0, 1}) { long y = (long)x + d; if (y < INT_MIN || y > INT_MAX) continue; int r = t->indexOf((int)y); auto it = std::find(e.begin(), e.end(), (int)y); check(it == e.end() ? r == -1 : r == it - e.begin(), cat("lookUpTab::indexOf", y, "returned", r)); } }
}
void harness() {
  for (int n = 0; n <= (thorough ? 7 : 5); n++) allvec(n, 0, n <= 4 ? 3 : 2, [&](V &v) { one(v); });
  int it = 0; while (time_left() && it++ < (thorough ? 100000 : 6000)) { int n = rnd(0, coin(4) ? 400 : 24); int m = coin(70) ? rnd(0, 30) : 2000000000; V v = rndvec(n, coin() ? 0 : -m, m); if (coin(20)) std::sort(v.begin(), v.end()); if (coin(10)) std::sort(v.rbegin(), v.rend()); one(v); }
}
