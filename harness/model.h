// Random HTN problems in the engine's input language, and an independent reading of them.  The engine's model is always built by Model::read.
#pragma once
#include "h.h"
#include "Model.h"
#include "ProgressionNetwork.h"
namespace hm {
using namespace h;
using progression::Model; using progression::searchNode; using progression::planStep;
typedef std::vector<int> VI; typedef std::set<int> SI;
struct Act { int cost; VI prec, add, del; };
struct Met { int task; VI sub; std::vector<std::pair<int, int>> ord; };
struct HTN {
  int nb = 0; std::vector<Act> acts; std::vector<std::pair<int, int>> vars; VI s0, goal; int nt = 0; int init = 0; std::vector<Met> mets;
  std::vector<VI> strict, mutex, inv;    // invariants use the input coding: negative literals of fact i are written -i-2
  int na() const { return acts.size(); }
  bool prim(int t) const { return t < na(); }
  VI methodsOf(int t) const { VI r; for (int i = 0; i < (int)mets.size(); i++) if (mets[i].task == t) r.push_back(i); return r; }
};
inline std::string il(const VI &v) { std::string r; for (int x : v) r += std::to_string(x) + " "; return r + "-1"; }
inline std::string el(const VI &v) { std::string r; for (int x : v) r += "0 " + std::to_string(x) + "  "; return r + "-1"; }
inline std::string text(const HTN &p) {
  std::ostringstream o; o << ";; #state features\n" << p.nb << "\n"; for (int i = 0; i < p.nb; i++) o << "+f" << i << "[]\n";
  o << "\n;; Mutex Groups\n" << p.vars.size() << "\n"; for (size_t i = 0; i < p.vars.size(); i++) o << p.vars[i].first << " " << p.vars[i].second << " var" << i << "\n";
  for (auto *g : {&p.strict, &p.mutex, &p.inv}) { o << "\n;; further groups\n" << g->size() << "\n"; for (auto &v : *g) o << il(v) << "\n"; }
  o << "\n;; Actions\n" << p.na() << "\n"; for (auto &a : p.acts) o << a.cost << "\n" << il(a.prec) << "\n" << el(a.add) << "\n" << el(a.del) << "\n";
  o << "\n;; initial state\n" << il(p.s0) << "\n\n;; goal\n" << il(p.goal) << "\n\n;; tasks (primitive and abstract)\n" << p.nt << "\n";
  for (int i = 0; i < p.nt; i++) o << (p.prim(i) ? 0 : 1) << " " << (p.prim(i) ? "a" : "T") << i << "[]\n";
  o << "\n;; initial abstract task\n" << p.init << "\n\n;; methods\n" << p.mets.size() << "\n";
  for (size_t i = 0; i < p.mets.size(); i++) { o << "m" << i << "\n" << p.mets[i].task << "\n" << il(p.mets[i].sub) << "\n"; VI e; for (auto &x : p.mets[i].ord) { e.push_back(x.first); e.push_back(x.second); } o << il(e) << "\n"; }
  return o.str();
}
inline std::string brief(const HTN &p) {
  std::ostringstream o; o << "facts=" << p.nb; if (p.vars.size() != (size_t)p.nb) { o << " vars="; for (auto &v : p.vars) o << v.first << "-" << v.second << ","; }
  for (int i = 0; i < p.na(); i++) o << " a" << i << ":c" << p.acts[i].cost << " p" << str(p.acts[i].prec) << " +" << str(p.acts[i].add) << " -" << str(p.acts[i].del);
  o << " s0=" << str(p.s0) << " g=" << str(p.goal) << " tasks=" << p.nt << " init=" << p.init;
  for (auto &m : p.mets) { o << " m:" << m.task << "->" << str(m.sub) << "{"; for (auto &x : m.ord) o << x.first << "<" << x.second << " "; o << "}"; }
  return o.str();
}
struct Opt { int maxb = 6, maxa = 5, maxT = 4, maxm = 3, maxsub = 4, ordp = 40, varp = 20, dup = 10, maxcost = 4, total = 15, solvable = 1, maxgoal = 2, overlap = 10; };
inline VI subset(int n, int p) { VI r; for (int i = 0; i < n; i++) if (coin(p)) r.push_back(i); std::shuffle(r.begin(), r.end(), rng); return r; }
inline std::vector<std::pair<int, int>> randorder(int n, const Opt &o) {
  VI perm(n); for (int i = 0; i < n; i++) perm[i] = i; std::shuffle(perm.begin(), perm.end(), rng); std::vector<std::pair<int, int>> r;
  if (coin(o.total)) { for (int i = 0; i + 1 < n; i++) r.push_back({perm[i], perm[i + 1]}); for (int i = 0; i < n; i++) for (int j = i + 2; j < n; j++) if (coin(25)) r.push_back({perm[i], perm[j]}); }
  else { int pr = coin(20) ? 0 : rnd(10, o.ordp + 30); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (coin(pr)) r.push_back({perm[i], perm[j]}); }
  std::shuffle(r.begin(), r.end(), rng); return r;
}
// every task is reachable from the initial task; with solvable, every abstract task has a finite refinement
inline HTN gen(const Opt &o) {
  HTN p; p.nb = rnd(1, o.maxb); int na = rnd(1, o.maxa), nT = rnd(1, o.maxT);
  for (int i = 0; i < p.nb;) { int w = coin(o.varp) ? std::min(p.nb - i, rnd(2, 3)) : 1; p.vars.push_back({i, i + w - 1}); i += w; }
  int dp = rnd(8, 45), dd = rnd(8, 45);
  for (int i = 0; i < na; i++) { Act a; a.cost = rnd(0, o.maxcost); a.prec = subset(p.nb, dp); if (coin(20)) a.prec.clear(); a.add = subset(p.nb, dd); a.del = subset(p.nb, dd);
    if (coin(15)) a.add.clear(); if (coin(15)) a.del.clear(); if (!coin(o.overlap)) { VI d; for (int x : a.del) if (std::find(a.add.begin(), a.add.end(), x) == a.add.end()) d.push_back(x); a.del = d; }
    if (coin(5) && a.prec.size()) a.prec.push_back(a.prec[0]); p.acts.push_back(a); }
  p.s0 = subset(p.nb, 45); p.goal = subset(p.nb, 25); if ((int)p.goal.size() > o.maxgoal) p.goal.resize(o.maxgoal);
  p.nt = na + nT; VI abs(nT); for (int i = 0; i < nT; i++) abs[i] = na + i; std::shuffle(abs.begin(), abs.end(), rng); p.init = abs[0];
  // rank: a task's first method only uses primitive tasks and abstract tasks later in abs
  for (int k = 0; k < nT; k++) { int nm = rnd(1, o.maxm); for (int j = 0; j < nm; j++) { Met m; m.task = abs[k]; int ns = rnd(1, o.maxsub); for (int s = 0; s < ns; s++) {
        int t; if (coin(45)) { if (j == 0 && o.solvable) t = k + 1 < nT ? abs[rnd(k + 1, nT - 1)] : rnd(0, na - 1); else t = abs[rnd(0, nT - 1)]; } else t = rnd(0, na - 1);
        if (s && coin(o.dup)) t = m.sub[rnd(0, s - 1)]; m.sub.push_back(t); } m.ord = randorder(ns, o); p.mets.push_back(m); } }
  std::shuffle(p.mets.begin(), p.mets.end(), rng);
  // connect: attach every unreached task to some method of a reached task
  while (true) { SI seen{p.init}; std::vector<int> q{p.init}; while (q.size()) { int t = q.back(); q.pop_back(); for (auto &m : p.mets) if (m.task == t) for (int s : m.sub) if (seen.insert(s).second) q.push_back(s); }
    int miss = -1; for (int k = 0; k < nT && miss < 0; k++) if (!seen.count(abs[k])) miss = abs[k]; for (int t = 0; t < na && miss < 0; t++) if (!seen.count(t)) miss = t;
    if (miss < 0) break; std::vector<int> c; for (size_t i = 0; i < p.mets.size(); i++) if (seen.count(p.mets[i].task)) { auto ra = std::find(abs.begin(), abs.end(), p.mets[i].task), rb = std::find(abs.begin(), abs.end(), miss); if (miss < na || ra < rb) c.push_back(i); }
    auto &m = p.mets[c[rnd(0, (int)c.size() - 1)]]; int n = m.sub.size(); m.sub.push_back(miss); for (int i = 0; i < n; i++) if (coin(25)) m.ord.push_back({i, n}); }
  return p;
}
inline Model *load(const HTN &p, bool track = false, progression::eMaintainTaskReachability r = progression::mtrNO, bool effless = false, bool onemod = false) {
  std::istringstream in(text(p)); Model *m = new Model(track, r, effless, onemod); m->read(&in); return m;
}
// ---- partial orders
typedef std::vector<std::vector<char>> Rel;
inline Rel rel(int n, const std::vector<std::pair<int, int>> &e) { Rel r(n, std::vector<char>(n, 0)); for (auto &x : e) r[x.first][x.second] = 1; return r; }
inline Rel closure(Rel r) { int n = r.size(); Rel c = r; bool ch = true; while (ch) { ch = false; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!c[i][j]) for (int k = 0; k < n; k++) if (r[i][k] && c[k][j]) { c[i][j] = 1; ch = true; break; } } return c; }
inline Rel reduction(const Rel &r) { Rel c = closure(r); int n = r.size(); Rel d(n, std::vector<char>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (c[i][j]) { bool lng = false; for (int k = 0; k < n; k++) if (c[i][k] && c[k][j]) lng = true; if (!lng) d[i][j] = 1; } return d; }
inline Rel relOf(const Model *m, int i) { Rel r(m->numSubTasks[i], std::vector<char>(m->numSubTasks[i], 0)); for (int o = 0; o < m->numOrderings[i]; o += 2) r[m->ordering[i][o]][m->ordering[i][o + 1]] = 1; return r; }
// ---- the task network below a node: steps in a stable order (by id), labels and the closed order
struct Net { std::vector<planStep *> st; VI task; Rel ord; std::vector<char> unc; };
inline Net net(const searchNode *n) {
  Net r; std::set<planStep *> seen; std::vector<planStep *> q;
  for (int i = 0; i < n->numAbstract; i++) q.push_back(n->unconstraintAbstract[i]); for (int i = 0; i < n->numPrimitive; i++) q.push_back(n->unconstraintPrimitive[i]);
  std::set<planStep *> u(q.begin(), q.end());
  while (q.size()) { auto *s = q.back(); q.pop_back(); if (!seen.insert(s).second) continue; for (int i = 0; i < s->numSuccessors; i++) q.push_back(s->successorList[i]); }
  r.st.assign(seen.begin(), seen.end()); std::sort(r.st.begin(), r.st.end(), [](planStep *a, planStep *b) { return a->id < b->id; });
  std::map<planStep *, int> ix; for (size_t i = 0; i < r.st.size(); i++) ix[r.st[i]] = i; int k = r.st.size();
  Rel d(k, std::vector<char>(k, 0)); for (int i = 0; i < k; i++) { r.task.push_back(r.st[i]->task); r.unc.push_back(u.count(r.st[i])); for (int j = 0; j < r.st[i]->numSuccessors; j++) d[i][ix[r.st[i]->successorList[j]]] = 1; }
  r.ord = closure(d); return r;
}
inline std::string nets(const Net &n) { std::ostringstream o; o << "tasks=" << str(n.task) << " unconstrained="; for (size_t i = 0; i < n.unc.size(); i++) if (n.unc[i]) o << i << ","; o << " order="; for (size_t i = 0; i < n.st.size(); i++) for (size_t j = 0; j < n.st.size(); j++) if (n.ord[i][j]) o << i << "<" << j << " "; return o.str(); }
inline SI state(const searchNode *n) { SI r; for (size_t i = 0; i < n->state.size(); i++) if (n->state[i]) r.insert(i); return r; }
inline bool appl(const HTN &p, const SI &s, int a) { for (int f : p.acts[a].prec) if (!s.count(f)) return false; return true; }
inline SI succ(const HTN &p, SI s, int a) { for (int f : p.acts[a].del) s.erase(f); for (int f : p.acts[a].add) s.insert(f); return s; }
}
