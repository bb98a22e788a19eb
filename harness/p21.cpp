// P21 bounded check: the clauses a helper writes, decided by exhaustive enumeration / a small DPLL, against the named condition.
//SRC: Debug.cpp
// Non-trivial: at least two input variables.
#include "h.h"
#include "sat/sat_encoder.cpp"
using namespace h;
typedef std::vector<int> Cl;
static std::vector<Cl> db; static Cl cur; static bool open_;
extern "C" { void ipasir_add(void *, int l) { if (l) { cur.push_back(l); } else { db.push_back(cur); cur.clear(); } }
const char *ipasir_signature() { return ""; } void *ipasir_init() { return 0; } void ipasir_release(void *) {} void ipasir_assume(void *, int) {} int ipasir_solve(void *) { return 0; } int ipasir_val(void *, int) { return 0; } int ipasir_failed(void *, int) { return 0; }
void ipasir_set_terminate(void *, void *, int (*)(void *)) {} void ipasir_set_learn(void *, void *, int, void (*)(void *, int *)) {} }
static void reset() { db.clear(); cur.clear(); }
// DPLL with full propagation
static bool solve(std::vector<signed char> a) {
  bool ch = true; int br = 0;
  while (ch) { ch = false; br = 0; for (auto &c : db) { int un = 0, nu = 0; bool s = false; for (int l : c) { int v = a[abs(l)]; if (!v) { un = l; nu++; } else if ((v > 0) == (l > 0)) { s = true; break; } } if (s) continue; if (!nu) return false; if (nu == 1) { a[abs(un)] = un > 0 ? 1 : -1; ch = true; } else br = un; } }
  if (!br) return true;
  a[abs(br)] = br > 0 ? 1 : -1; if (solve(a)) return true; a[abs(br)] = br > 0 ? -1 : 1; return solve(a);
}
// all assignments of the variables 1..n: the clauses are satisfiable together with it iff spec holds
static void exact(int n, int total, const std::function<bool(const std::vector<int> &)> &spec, const std::string &nm) {
  check(cur.empty(), nm + ": the last clause is not terminated");
  for (auto &c : db) for (int l : c) check(abs(l) >= 1 && abs(l) <= total, nm + ": unknown variable in a clause");
  for (int m = 0; m < 1 << n; m++) { std::vector<int> v(n + 1); std::vector<signed char> a(total + 1, 0); for (int i = 1; i <= n; i++) { v[i] = (m >> (i - 1)) & 1; a[i] = v[i] ? 1 : -1; }
    bool g = solve(a), w = spec(v); std::vector<int> vv(v.begin() + 1, v.end()); check(g == w, cat(nm, "values", str(vv), g ? "allowed" : "forbidden", "but expected", w ? "allowed" : "forbidden")); }
}
static int T(const std::vector<int> &v, int l) { return l > 0 ? v[l] : !v[-l]; }
void small() {
  for (int n = 1; n <= 3; n++) allvec(3, -n, n, [&](std::vector<int> &x) {
    int i = x[0], j = x[1], k = x[2]; if (!i || !j || !k) return; begin(cat("literals", i, j, k), n > 1); 
    reset(); assertYes(0, i); exact(n, n, [&](auto &v) { return T(v, i); }, "assertYes");
    reset(); assertNot(0, i); exact(n, n, [&](auto &v) { return !T(v, i); }, "assertNot");
    reset(); implies(0, i, j); exact(n, n, [&](auto &v) { return !T(v, i) || T(v, j); }, "implies");
    reset(); impliesNot(0, i, j); exact(n, n, [&](auto &v) { return !T(v, i) || !T(v, j); }, "impliesNot");
    reset(); impliesAnd(0, i, j, k); exact(n, n, [&](auto &v) { return !(T(v, i) && T(v, j)) || T(v, k); }, "impliesAnd");
    reset(); andImplies(0, i, j, k); exact(n, n, [&](auto &v) { return !(T(v, i) && T(v, j)) || T(v, k); }, "andImplies");
  });
  auto lists = [&](std::vector<int> &J) {
    int n = 5; begin(cat("list", str(J)), J.size() > 1);
    auto any = [&](auto &v) { bool r = false; for (int l : J) r |= T(v, l); return r; }; auto cnt = [&](auto &v) { int r = 0; for (int l : J) r += T(v, l); return r; };
    for (int i : {1, -2, 5}) { reset(); impliesOr(0, i, J); exact(n, n, [&](auto &v) { return !T(v, i) || any(v); }, "impliesOr");
      reset(); impliesPosAndNegImpliesOr(0, i, 4, J); exact(n, n, [&](auto &v) { return !(T(v, i) && !v[4]) || any(v); }, "impliesPosAndNegImpliesOr");
      reset(); impliesAllNot(0, i, J); exact(n, n, [&](auto &v) { return !T(v, i) || !any(v); }, "impliesAllNot");
      reset(); notImpliesAllNot(0, i, J); exact(n, n, [&](auto &v) { return T(v, i) || !any(v); }, "notImpliesAllNot");
      std::set<int> S(J.begin(), J.end()); auto all = [&](auto &v) { bool r = true; for (int l : J) r &= !!T(v, l); return r; };
      reset(); andImplies(0, S, i); exact(n, n, [&](auto &v) { return !all(v) || T(v, i); }, "andImplies(set)"); reset(); notAll(0, S); exact(n, n, [&](auto &v) { return !all(v); }, "notAll"); }
    auto cap = [&]() { sat_capsule c; while (c.new_variable() < n); return c; };
    { sat_capsule c = cap(); reset(); atLeastOne(0, c, J); exact(n, c.number_of_variables, any, "atLeastOne"); }
    { sat_capsule c = cap(); reset(); atMostOne(0, c, J); exact(n, c.number_of_variables, [&](auto &v) { return cnt(v) <= 1; }, "atMostOne"); }
    { sat_capsule c = cap(); reset(); atMostOneBinomial(0, c, J); exact(n, c.number_of_variables, [&](auto &v) { return cnt(v) <= 1; }, "atMostOneBinomial"); }
    for (int K = 0; K <= 6; K++) { sat_capsule c = cap(); reset(); atMostK(0, c, K, J); exact(n, c.number_of_variables, [&](auto &v) { return cnt(v) <= K; }, cat("atMostK, K =", K)); }
  };
  for (int n = 0; n <= 3; n++) allvec(n, -2, 5, [&](std::vector<int> &J) { for (int x : J) if (!x) return; lists(J); });
  for (int i = 0; i < 60; i++) { std::vector<int> J(rnd(4, 9)); for (auto &x : J) x = rnd(1, 5) * (coin(80) ? 1 : -1); lists(J); }
}
// long lists: one chosen index is possible, two are not
static void big(int n, int off) {
  begin(cat("atMostOne over", n, "variables starting at", off)); sat_capsule c; std::vector<int> J; while (c.new_variable() < off - 1 || c.number_of_variables == 0); if (off == 1) c.number_of_variables = 0;
  for (int i = 0; i < n; i++) J.push_back(c.new_variable()); c.new_variable(); std::shuffle(J.begin(), J.end(), rng); reset(); atMostOne(0, c, J); check(cur.empty(), "open clause"); int tot = c.number_of_variables;
  for (auto &cl : db) for (int l : cl) check(abs(l) <= tot && l, "unknown variable");
  // unit propagation on an index of the clauses
  std::vector<std::vector<int>> occ(2 * tot + 2); for (int i = 0; i < (int)db.size(); i++) for (int l : db[i]) occ[l > 0 ? 2 * l : -2 * l + 1].push_back(i);
  auto feas = [&](int x, int y) { std::map<int, int> a; std::vector<int> q; auto put = [&](int l) { int &v = a[abs(l)]; int w = l > 0 ? 1 : -1; if (v == -w) return false; if (!v) { v = w; q.push_back(l); } return true; };
    // the others are false
    auto val = [&](int l) { auto it = a.find(abs(l)); int v = it == a.end() ? 0 : it->second; return l > 0 ? v : -v; };
    put(x); if (y) if (!put(y)) return false;
    while (!q.empty()) { int l = q.back(); q.pop_back(); for (int ci : occ[l > 0 ? 2 * -(-l) + 1 : -2 * l]) { int un = 0, nu = 0; bool s = false; for (int k : db[ci]) { int v = val(k); if (v > 0) { s = true; break; } if (!v) { un = k; nu++; } } if (s) continue; if (!nu) return false; if (nu == 1) if (!put(un)) return false; } }
    return true; };
  for (int t = 0; t < (n < 100 ? n : 100); t++) { int i = n < 100 ? t : rnd(0, n - 1); check(feas(J[i], 0), cat("variable with index", i, "alone must be possible")); }
  auto pair = [&](int i, int j) { if (i == j) return; check(!feas(J[i], J[j]), cat("variables with indexes", i, "and", j, "must exclude each other")); };
  if (n <= 64) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) pair(i, j);
  else { for (int b = 0; b < 20; b++) for (int t = 0; t < 12; t++) { int i = rnd(0, n - 1), j = i ^ (1 << b); if (j < n) pair(i, j); } for (int t = 0; t < 600; t++) pair(rnd(0, n - 1), rnd(0, n - 1)); for (int d = 1; d < 4; d++) for (int i = 0; i < 40 && i + d < n; i++) { pair(i, i + d); pair(n - 1 - i, n - 1 - i - d); } }
}
// every pair of a long list excludes each other: their propagated literals clash (all pairs; forward implications of two-literal clauses)
static void pairs(int n) {
  begin(cat("atMostOne, all pairs of", n, "variables")); sat_capsule c; std::vector<int> J; for (int i = 0; i < n; i++) J.push_back(c.new_variable()); reset(); atMostOne(0, c, J); int tot = c.number_of_variables;
  std::vector<std::vector<int>> imp(2 * tot + 2); auto id = [&](int l) { return l > 0 ? 2 * l : -2 * l + 1; }; for (auto &k : db) if (k.size() == 2) { imp[id(-k[0])].push_back(k[1]); imp[id(-k[1])].push_back(k[0]); }
  std::vector<std::vector<int>> cl(n); for (int i = 0; i < n; i++) { std::set<int> S{J[i]}; std::vector<int> q{J[i]}; while (!q.empty() && S.size() < 100) { int l = q.back(); q.pop_back(); for (int m : imp[id(l)]) if (S.insert(m).second) q.push_back(m); } cl[i].assign(S.begin(), S.end()); for (int l : cl[i]) check(!S.count(-l), cat("variable with index", i, "alone must be possible")); }
  std::vector<char> mark(2 * tot + 2); for (int i = 0; i < n; i++) { for (int l : cl[i]) mark[id(-l)] = 1; for (int j = i + 1; j < n; j++) { bool clash = false; for (int l : cl[j]) if (mark[id(l)]) { clash = true; break; } check(clash, cat("variables with indexes", i, "and", j, "must exclude each other")); } for (int l : cl[i]) mark[id(-l)] = 0; }
}
// long lists for atMostK: the clauses propagate the counter, so a full assignment of the inputs is decided by unit propagation
static void bigK(int n, int K, int t) {
  begin(cat("atMostK over", n, "variables, K", K, "with", t, "true")); sat_capsule c; std::vector<int> J; for (int i = 0; i < n; i++) J.push_back(c.new_variable()); reset(); atMostK(0, c, K, J); int tot = c.number_of_variables;
  std::vector<std::vector<int>> occ(2 * tot + 2); auto id = [&](int l) { return l > 0 ? 2 * l : -2 * l + 1; }; for (int i = 0; i < (int)db.size(); i++) for (int l : db[i]) { check(l && abs(l) <= tot, "unknown variable"); occ[id(l)].push_back(i); }
  std::vector<int> tr(J); std::shuffle(tr.begin(), tr.end(), rng); if (coin()) { tr = J; if (coin()) std::reverse(tr.begin(), tr.end()); } std::vector<signed char> a(tot + 1, 0); std::vector<int> q; bool bad = false;
  auto put = [&](int l) { int w = l > 0 ? 1 : -1; if (a[abs(l)] == -w) { bad = true; return; } if (!a[abs(l)]) { a[abs(l)] = w; q.push_back(l); } };
  for (int i = 0; i < n; i++) put(i < t ? tr[i] : -tr[i]); for (auto &k : db) if (k.size() == 1) put(k[0]);
  while (!q.empty() && !bad) { int l = q.back(); q.pop_back(); for (int ci : occ[id(-l)]) { int un = 0, nu = 0; bool s = false; for (int k : db[ci]) { int v = k > 0 ? a[k] : -a[-k]; if (v > 0) { s = true; break; } if (!v) { un = k; nu++; } } if (s) continue; if (!nu) { bad = true; break; } if (nu == 1) put(un); } }
  // the remaining auxiliary variables: the assignment with all of them false satisfies every clause left
  bool sat = !bad; if (sat) for (auto &k : db) { bool s = false; for (int l : k) { int v = l > 0 ? a[l] : -a[-l]; if (v > 0 || (!v && l < 0)) { s = true; break; } } if (!s) { sat = false; break; } }
  check(sat == (t <= K), cat("an assignment with", t, "true variables is", sat ? "allowed" : "forbidden"));
}
void harness() {
  small();
  for (int n : {256, 257, 258, 300, 511, 512, 513, 514, 1025}) pairs(n);
  if (thorough) for (int n : {2047, 2048, 2049, 4097}) pairs(n);
  for (auto p : std::vector<std::pair<int, int>>{{10, 3}, {64, 63}, {65, 32}, {130, 1}, {130, 128}, {200, 100}, {200, 7}, {300, 150}}) for (int t : {p.second - 1, p.second, p.second + 1, p.first}) for (int r = 0; r < 4; r++) bigK(p.first, p.second, std::min(t, p.first));
  for (int n : {2, 3, 40, 255, 256, 257, 300}) big(n, 1);
  for (int n : {511, 512, 513, 1000, 1024, 1025, 2048, 2049}) big(n, 7);
  if (thorough) for (int n : {8192, 8193, 65536, 65537}) big(n, 3);
  int it = 0; while (time_left() && it++ < 400) { if (it % 8 == 0) { int n = rnd(2, 150), K = rnd(0, n); bigK(n, K, std::min(n, std::max(0, K + rnd(-2, 2)))); } big(coin() ? rnd(2, 300) : rnd(256, 5000), rnd(1, 50)); }
}
