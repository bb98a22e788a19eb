// Replay / bounded-check harness support.  The body runs in a child process; the parent reports crashes and hangs with the case that was
// being executed.  Output lines:  "FAIL <what> :: <case>"  "KNOWN <key> :: <case>"  "STAT cases=<n> nontrivial=<m>"  "SAMPLE <case>"
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <climits>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <random>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
namespace h {
struct Shared { volatile long cases, nontrivial; volatile int done; char cur[1 << 20]; };
inline Shared *sh = nullptr;
inline bool thorough = false;
inline uint64_t seed = 1;
inline double budget = 40;     // seconds for the randomised part
inline double t0 = 0;
inline int outfd = 1;
inline double now() { timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }
inline bool time_left() { return now() - t0 < budget; }
inline double elapsed() { return now() - t0; }
inline std::mt19937_64 rng;
inline int rnd(int lo, int hi) { return lo >= hi ? lo : lo + (int)(rng() % (uint64_t)((long)hi - lo + 1)); }   // inclusive
inline bool coin(int percent = 50) { return rnd(0, 99) < percent; }
inline void say(const char *fmt, ...) { static char b[1 << 20]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, a); va_end(a); if (n > (int)sizeof b - 2) n = sizeof b - 2;
  for (int i = 0; i < n; i++) if (b[i] == '\n') b[i] = '|'; b[n++] = '\n'; if (write(outfd, b, n)) {} }
inline std::set<std::string> known, knownSeen;
inline void setcase(const std::string &s) { strncpy(sh->cur, s.c_str(), sizeof sh->cur - 1); }
inline int samples = 0;
inline void begin(const std::string &s, bool nontrivial = true) { setcase(s); sh->cases = sh->cases + 1; if (nontrivial) sh->nontrivial = sh->nontrivial + 1; if (nontrivial && samples < 3 && (sh->nontrivial == 5 || sh->nontrivial == 50 || sh->nontrivial == 500)) { samples++; say("SAMPLE %.1500s", sh->cur); } }
inline void note(const std::string &s) { strncat(sh->cur, s.c_str(), sizeof sh->cur - strlen(sh->cur) - 1); }
[[noreturn]] inline void fail(const std::string &what) { say("FAIL %s :: %s", what.c_str(), sh->cur); _exit(1); }
inline void check(bool c, const std::string &what) { if (!c) fail(what); }
// a violation that the known-findings file lists under this key is reported as KNOWN and does not stop the run
inline bool check_known(bool c, const std::string &key, const std::string &what) { if (c) return true; if (known.count(key)) { if (knownSeen.insert(key).second) say("KNOWN %s :: %s :: %s", key.c_str(), what.c_str(), sh->cur); return false; } fail(what); }
template <class T> std::string str(const T &v) { std::ostringstream o; o << "["; bool f = true; for (auto &x : v) { if (!f) o << ","; o << x; f = false; } o << "]"; return o.str(); }
inline std::string arr(const int *a, int n) { std::ostringstream o; o << "["; for (int i = 0; i < n; i++) o << (i ? "," : "") << a[i]; o << "]"; return o.str(); }
template <class... A> std::string cat(const A &...a) { std::ostringstream o; ((o << a << ' '), ...); return o.str(); }
inline std::vector<int> rndvec(int n, int lo, int hi) { std::vector<int> r(n); for (auto &x : r) x = rnd(lo, hi); return r; }
// all vectors of length n over lo..hi
inline void allvec(int n, int lo, int hi, const std::function<void(std::vector<int> &)> &f) { std::vector<int> v(n, lo); while (true) { f(v); int i = 0; while (i < n && ++v[i] > hi) v[i++] = lo; if (i == n) return; } }
}
void harness();     // provided by the harness file
int main(int argc, char **argv) {
  using namespace h;
  const char *s = getenv("VERIF_SEED"); if (s) seed = strtoull(s, 0, 10);
  const char *t = getenv("VERIF_TIER"); thorough = t && !strcmp(t, "thorough");
  const char *b = getenv("H_BUDGET"); budget = b ? atof(b) : (thorough ? 200 : 12);
  const char *k = getenv("H_KNOWN"); if (k) { std::istringstream is(k); std::string x; while (is >> x) known.insert(x); }
  rng.seed(seed); t0 = now();
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  outfd = dup(1);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); const char *e = getenv("H_STDERR"); if (!e) { int ef = open("h.stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600); if (ef >= 0) dup2(ef, 2); }
    harness(); sh->done = 1; _exit(0);
  }
  long last = -1; double tl = now(); int st = 0; double limit = getenv("H_HANG") ? atof(getenv("H_HANG")) : 60;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    usleep(20000);
    if (sh->cases != last) { last = sh->cases; tl = now(); }
    if (now() - tl > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); say("FAIL no termination within %.0f seconds :: %s", limit, sh->cur); say("STAT cases=%ld nontrivial=%ld", sh->cases, sh->nontrivial); return 1; }
  }
  say("STAT cases=%ld nontrivial=%ld", sh->cases, sh->nontrivial);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !sh->done) return 1;
  std::string err; if (FILE *f = fopen("h.stderr", "r")) { char buf[4096]; size_t n = fread(buf, 1, sizeof buf - 1, f); buf[n] = 0; err = buf; fclose(f); }
  say("FAIL crash (status %d) %.600s :: %s", st, err.c_str(), sh->cur);
  return 1;
}
