// P04 bounded check: lists of every length and content written in the input language, with varying white space.  Non-trivial: at least two entries.
//SRC: Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp
#include "walk.h"
using namespace hm;
static std::string sp() { static const char *w[] = {" ", "  ", "\t", " ", " "}; return w[rnd(0, 4)]; }
static Model *M;
static void plain(const VI &v, const std::string &tail = "") {
  std::string l; if (coin(10)) l = sp(); for (int x : v) l += std::to_string(x) + sp(); l += "-1" + tail; begin(cat("integer list line", l), v.size() > 1);
  int n = -77; int *r = M->readIntList(l, n); check(n == (int)v.size(), cat("reported length", n)); if (n == 0) check(r == nullptr, "empty list");
  for (int i = 0; i < n; i++) check(r[i] == (v[i] < 0 ? v[i] + 1 : v[i]), cat("entry", i, "is", r[i])); delete[] r;
}
struct E { VI c; int x; };
static void cond(const std::vector<E> &v, const std::string &tail = "") {
  std::string l; for (auto &e : v) { l += std::to_string(e.c.size()); for (int y : e.c) l += sp() + std::to_string(y); l += sp() + std::to_string(e.x) + sp() + (coin() ? " " : ""); } l += "-1" + tail; begin(cat("conditional list line", l), v.size() > 1);
  VI A; std::vector<E> B; for (auto &e : v) if (e.c.empty()) A.push_back(e.x); else B.push_back(e);
  int a = -77, b = -77; int *sc = (int *)-1; auto t = M->readConditionalIntList(l, a, b, sc); check(a == (int)A.size() && b == (int)B.size(), cat("reported lengths", a, b));
  for (int i = 0; i < a; i++) check(std::get<0>(t)[i] == A[i], cat("unconditional entry", i, "is", std::get<0>(t)[i]));
  for (int i = 0; i < b; i++) { check(std::get<1>(t)[i] == B[i].x, cat("conditional effect", i, "is", std::get<1>(t)[i])); check(sc[i] == (int)B[i].c.size(), cat("length of condition", i, "is", sc[i])); for (int j = 0; j < sc[i]; j++) check(std::get<2>(t)[i][j] == B[i].c[j], cat("condition", i, "entry", j, "is", std::get<2>(t)[i][j])); }
  if (!a) check(!std::get<0>(t), "no unconditional entries"); if (!b) check(!std::get<1>(t) && !std::get<2>(t) && !sc, "no conditional entries");
}
void harness() {
  Opt o; M = load(gen(o));
  for (int n = 0; n <= 4; n++) allvec(n, -4, 3, [&](VI &v) { for (int x : v) if (x == -1) return; plain(v); });
  for (int n = 0; n <= 3; n++) allvec(n, 0, 3, [&](VI &v) { std::vector<E> e; for (int x : v) { E q; q.x = rnd(0, 9); q.c = rndvec(x, 0, 9); e.push_back(q); } cond(e); });
  for (int n : {255, 256, 257, 1000, 4096, 65536}) { VI v = rndvec(n, 0, INT_MAX); plain(v); std::vector<E> e(n); for (auto &q : e) q.x = rnd(0, INT_MAX); cond(e); }
  for (int n : {1, 2, 31, 32, 33, 64, 100, 255, 256, 257, 1000}) { std::vector<E> e(3); for (auto &q : e) { q.x = rnd(0, 99); q.c = rndvec(n, 0, 500); } e[1].c.clear(); cond(e); }
  while (time_left()) { VI v = rndvec(rnd(0, coin(20) ? 300 : 12), coin() ? 0 : -50, coin() ? 20 : INT_MAX); for (int &x : v) if (x == -1) x = -2; if (v.size() && coin(10)) v[rnd(0, v.size() - 1)] = coin() ? INT_MIN : INT_MAX; plain(v, coin(10) ? " 7 8" : "");
    std::vector<E> e(rnd(0, coin(10) ? 200 : 8)); int p = rnd(0, 100); for (auto &q : e) { q.x = rnd(0, coin() ? 20 : INT_MAX); if (coin(p)) q.c = rndvec(rnd(0, coin(5) ? 80 : 4), 0, 300); } cond(e, coin(10) ? " 3" : ""); }
}
