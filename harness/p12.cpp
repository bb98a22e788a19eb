// P12 bounded check: operation sequences on every set class against std::set.  Non-trivial: at least one member was added and one operation after it removed or combined members.
#include "h.h"
#include "intDataStructures/IntUtil.cpp"
#include "intDataStructures/noDelIntSet.cpp"
#include "intDataStructures/bucketSet.cpp"
#include "intDataStructures/bIntSet.cpp"
#include "intDataStructures/delIterIntSet.cpp"
using namespace progression; using namespace h;
typedef std::set<int> R;
template <class S> void agree(S &s, const R &r, int cap, bool sortedIter, const char *w) {
  check(s.getSize() == (int)r.size(), cat(w, "getSize", s.getSize(), "expected", r.size())); check(s.isEmpty() == r.empty(), cat(w, "isEmpty"));
  for (int i = 0; i < cap; i++) check(s.get(i) == (r.count(i) > 0), cat(w, "membership of", i));
  std::vector<int> got; for (int x = s.getFirst(); x >= 0 && got.size() <= r.size() + 1; x = s.getNext()) got.push_back(x);
  auto g2 = got; if (!sortedIter) std::sort(g2.begin(), g2.end());
  check(g2 == std::vector<int>(r.begin(), r.end()), cat(w, "iteration visits", str(got), "expected", str(r)));
}
// op encoding: kind * 1000000 + value
enum { INS, ERA, CLR, EXTRA };
template <class S, bool ERASE, bool SORTED, class X> void run(const char *nm, int cap, const std::vector<int> &ops, X extra) {
  bool ins = false, nt = false; for (int o : ops) { if (o / 1000000 == INS) ins = true; else if (ins) nt = true; }
  begin(cat(nm, "capacity", cap, "ops(value insert, 1000000+value erase, 2000000 clear, 3000000+value class specific)", str(ops)), nt);
  S *sp = new S(); S &s = *sp; s.init(cap); R r; agree(s, r, cap, SORTED, "new"); bool sorted = SORTED;
  for (int o : ops) { int k = o / 1000000, v = o % 1000000;
    if (k == INS) { s.insert(v); r.insert(v); }
    else if (k == ERA) { if constexpr (ERASE) { s.erase(v); r.erase(v); } }
    else if (k == CLR) { s.clear(); r.clear(); sorted = SORTED; }
    else extra(s, r, v, sorted);
    agree(s, r, cap, sorted, cat("after", o).c_str()); }
  delete sp;
}
void nodel(noDelIntSet &s, R &r, int, bool &) { if (r.size() < 2) { s.sort(); return; } s.sort(); std::vector<int> g; for (int x = s.getFirst(); x >= 0; x = s.getNext()) g.push_back(x); check(g == std::vector<int>(r.begin(), r.end()), "order after sort"); }
void bucket(bucketSet &s, R &r, int v, bool &) { int k = v % 3; int x = s.removeFirst(); if (r.empty()) { check(x == -1, "removeFirst on empty"); return; }
  for (;; k--) { int e = r.empty() ? -1 : *r.begin(); check(x == e, cat("removed", x, "expected", e)); if (e < 0) return; r.erase(e); if (!k) return; x = s.removeNext(); } }
void bint(bIntSet &s, R &r, int v, bool &sorted) { if (!r.count(v)) { if (!r.empty() && *r.rbegin() > v) sorted = false; s.append(v); r.insert(v); } else { s.append(v); } }
void deliter(delIterIntSet &s, R &r, int v, bool &) { int x = s.getFirst(), n = 0; std::set<int> all = r, seen; while (x >= 0) { check(all.count(x) && seen.insert(x).second, cat("iteration visits", x, "again or it is no member")); if ((v >> (n++ % 5)) & 1) { int y = s.delCurrentGetNext(); r.erase(x); check(!s.get(x), "deleted element still a member"); x = y; } else x = s.getNext(); } check(seen == all, cat("iteration with deletions visits", str(seen), "expected", str(all))); }
template <class A> noDelIntSet *mk(const A &m, int cap) { noDelIntSet *s = new noDelIntSet(); s->init(cap); for (int x : m) s->insert(x); return s; }
void combine(const std::vector<int> &a, int ca, const std::vector<int> &b, int cb) {
  begin(cat("set operations on", str(a), "capacity", ca, "and", str(b), "capacity", cb), !a.empty() && !b.empty());
  R ra(a.begin(), a.end()), rb(b.begin(), b.end()), u = ra, is, mi; u.insert(rb.begin(), rb.end()); for (int x : ra) if (rb.count(x)) is.insert(x); else mi.insert(x);
  noDelIntSet *s = mk(a, ca), *t = mk(b, cb), *c = s->clone(); int cm = std::max(ca, cb);
  agree(*c, ra, ca, false, "clone"); noDelIntSet *x;
  x = s->setUnion(t); agree(*x, u, cm, false, "union"); delete x; x = s->setIntersection(t); agree(*x, is, cm, false, "intersection"); delete x; x = s->setMinus(t); agree(*x, mi, cm, false, "difference"); delete x;
  x = mk(b, cm + 3); s->setUnion(x, t); agree(*x, u, cm, false, "union into"); s->setIntersection(x, t); agree(*x, is, cm, false, "intersection into"); s->setMinus(x, t); agree(*x, mi, cm, false, "difference into"); delete x;
  agree(*s, ra, ca, false, "left operand"); agree(*t, rb, cb, false, "right operand"); c->insert(0); agree(*s, ra, ca, false, "left operand after changing its clone"); delete c; delete s; delete t;
}
void all(int cap, const std::vector<int> &ops) { run<noDelIntSet, false, false>("noDelIntSet", cap, ops, nodel); run<bucketSet, true, true>("bucketSet", cap, ops, bucket); run<bIntSet, true, true>("bIntSet", cap, ops, bint); run<delIterIntSet, false, false>("delIterIntSet", cap, ops, deliter); }
void harness() {
  const int C = 3; std::vector<int> alpha; for (int v = 0; v < C; v++) { alpha.push_back(v); alpha.push_back(1000000 + v); alpha.push_back(3000000 + v); } alpha.push_back(2000000);
  for (int n = 1; n <= (thorough ? 5 : 4); n++) allvec(n, 0, (int)alpha.size() - 1, [&](std::vector<int> &v) { std::vector<int> o; for (int x : v) o.push_back(alpha[x]); all(C, o); });
  for (int ca = 1; ca <= 4; ca++) for (int cb = 1; cb <= 4; cb++) for (int x = 0; x < (1 << ca); x++) for (int y = 0; y < (1 << cb); y++) { std::vector<int> a, b; for (int i = 0; i < ca; i++) if (x >> i & 1) a.push_back(i); for (int i = cb - 1; i >= 0; i--) if (y >> i & 1) b.push_back(i); combine(a, ca, b, cb); }
  for (int n : {17, 45, 64, 90, 150, 257}) for (int e = 0; e < n; e += (n > 100 && !thorough) ? 2 : 1) {   // fill, then erase one member: every search path of the containers
    int cap = 2 * n; begin(cat("bIntSet, the even numbers below", 2 * n, "then erase", 2 * e)); bIntSet s; s.init(cap); R r; for (int i = 0; i < n; i++) { if ((e >> 3) & 1) s.insert(2 * i); else s.append(2 * i); r.insert(2 * i); }
    s.erase(2 * e); r.erase(2 * e); agree(s, r, cap, true, "after erase"); s.insert(2 * e + 1); r.insert(2 * e + 1); agree(s, r, cap, true, "after insert");
    begin(cat("bucketSet, the even numbers below", 2 * n, "then erase", 2 * e)); bucketSet b; b.init(cap); R q; for (int i = 0; i < n; i++) { b.insert(2 * i); q.insert(2 * i); } b.erase(2 * e); q.erase(2 * e); agree(b, q, cap, true, "after erase"); }
  int it = 0;
  while (time_left() && it++ < (thorough ? 100000 : 8000)) {
    int cap = coin(20) ? rnd(20, 300) : rnd(1, 20); std::vector<int> o(rnd(1, coin(10) ? 120 : 25)); int pe = rnd(5, 60);
    for (auto &x : o) { int v = rnd(0, cap - 1); x = coin(3) ? 2000000 : coin(pe) ? 1000000 + v : coin(15) ? 3000000 + v : v; } all(cap, o);
    int ca = rnd(1, cap + 5), cb = rnd(1, cap + 5); combine(rndvec(rnd(0, ca), 0, ca - 1), ca, rndvec(rnd(0, cb), 0, cb - 1), cb);
  }
}
