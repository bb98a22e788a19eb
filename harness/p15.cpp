// P15 bounded check: operation sequences on the fringes against std::deque.  Non-trivial: elements are removed after more than one storage block was in use, or both ends were used.
#include "h.h"
#include "search/UnsrtFringeContainer.cpp"
#include "search/UnsortedFringe.cpp"
#include "search/QueueFringe.cpp"
#include "search/StackFringe.cpp"
#include <deque>
using namespace progression; using namespace h;
static searchNode *N(long i) { return (searchNode *)(uintptr_t)(16 * (i + 1)); }
// phases: kind 0 addFirst 1 addLast 2 removeFirst 3 removeLast 4 mixed, each with a count
typedef std::vector<std::pair<int, int>> Ph;
static std::string ps(const Ph &p) { std::string r; const char *n[] = {"addFirst", "addLast", "removeFirst", "removeLast", "mixed"}; for (auto &x : p) r += cat(n[x.first], x.second, ";"); return r; }
struct Un { UnsortedFringe f; void add(searchNode *n, bool front) { front ? f.addFirst(n) : f.addLast(n); } searchNode *rem(bool front) { return front ? f.removeFirst() : f.removeLast(); } bool empty() { return f.empty(); } int size() { return f.size(); } };
struct Qu { QueueFringe f; void add(searchNode *n, bool) { f.push(n); } searchNode *rem(bool) { searchNode *n = f.top(); f.pop(); return n; } bool empty() { return f.empty(); } int size() { return f.size(); } };
struct St { StackFringe f; void add(searchNode *n, bool) { f.push(n); } searchNode *rem(bool) { searchNode *n = f.top(); f.pop(); return n; } bool empty() { return f.empty(); } int size() { return f.size(); } };
// kind: 0 both ends, 1 queue, 2 stack
template <class F> void run(int kind, const Ph &ph) {
  begin(cat(kind == 0 ? "unsorted" : kind == 1 ? "queue" : "stack", ps(ph)), ph.size() > 1);
  F *f = new F; std::deque<long> r; long id = 0; uint64_t z = 12345;
  auto op = [&](bool add, bool front, bool lite) {
    if (kind) front = !add ? kind == 1 : false;
    if (add) { f->add(N(id), front); front ? r.push_front(id) : r.push_back(id); id++; }
    else if (r.empty()) { if (kind == 0 || !lite) check(f->rem(front) == nullptr, "removal from an empty fringe"); }
    else { searchNode *n = f->rem(front); long e = front ? r.front() : r.back(); if (front) r.pop_front(); else r.pop_back(); if (n != N(e)) fail(cat("removed element", ((long)(uintptr_t)n) / 16 - 1, "expected", e)); }
    if (f->empty() != r.empty()) fail(cat("empty after", id, "insertions")); if (f->size() != (int)r.size()) fail(cat("size", f->size(), "expected", r.size()));
  };
  for (auto &p : ph) for (int i = 0; i < p.second; i++) { if (p.first == 4) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; op(z >> 63, (z >> 62) & 1, true); } else op(p.first < 2, p.first % 2 == 0, true); }
  while (!r.empty()) op(false, kind == 0 ? (r.size() & 1) : true, true);
  op(false, true, false); op(false, false, false);
  for (int i = 0; i < 3; i++) op(true, i & 1, true); for (int i = 0; i < 3; i++) op(false, false, true);
  delete f;
}
static void all(const Ph &p) { run<Un>(0, p); run<Qu>(1, p); run<St>(2, p); }
void harness() {
  const int B = 1024 * 1024, H = B / 2;
  for (int n = 1; n <= 8; n++) allvec(n, 0, 3, [&](std::vector<int> &v) { if (n > (thorough ? 6 : 3)) return; Ph p; for (int x : v) p.push_back({x, 1}); all(p); });
  all({{4, 2000}});
  for (int d = -1; d <= 0; d++) { all({{1, H + d}, {3, H + d}, {0, 3}}); all({{1, H + d}, {2, 5}, {1, 3}}); all({{0, H + d}, {2, 4}, {0, 6}, {3, 2}}); all({{1, H + d}, {3, 3}, {4, 50}}); all({{0, H + d}, {2, 2}, {4, 50}}); }
  all({{1, 2 * B + H + 5}, {2, B}, {1, B}, {3, 7}, {2, 9}}); all({{0, 2 * B + H + 5}, {3, B}, {0, B}, {2, 7}, {3, 9}});
  all({{1, B + H - 2}, {4, 100000}, {2, B + H}}); all({{0, B + 7}, {1, B + 7}, {3, 2 * B}}); all({{0, B + 7}, {1, B + 7}, {2, 2 * B}});
  int it = 0;
  while (time_left() && it++ < 100000) { Ph p; int n = rnd(1, 7); for (int i = 0; i < n; i++) p.push_back({rnd(0, 4), coin(40) ? H + rnd(-3, 3) : coin() ? rnd(1, 20) : rnd(1, 2 * B)}); all(p); }
}
