// P11: prefix-tree sets of bit sequences against std::map
//SRC: intDataStructures/SequenceSet.cpp intDataStructures/CompressedSequenceSet.cpp intDataStructures/HashTable.cpp Debug.cpp Util.cpp
#include "h.h"
#include "intDataStructures/SequenceSet.h"
#define test c_test
#include "intDataStructures/CompressedSequenceSet.h"
#undef test
#include "intDataStructures/HashTable.h"
typedef std::pair<std::vector<uint64_t>, int> Key;
void printMemory();
struct Tri { typedef sequence_trie T; typedef payloadType P; };
static std::string ks(const Key &k) { std::ostringstream o; o << "("; for (auto x : k.first) o << std::hex << x << ","; o << std::dec << "pad " << k.second << ")"; return o.str(); }
static Key mk(const std::vector<bool> &b) { Key k; k.second = 0; int pos = 0; uint64_t cur = 0; for (bool x : b) { if (x) cur |= uint64_t(1) << pos; if (++pos == 64) { k.first.push_back(cur); pos = 0; cur = 0; } } if (pos) { k.first.push_back(cur); k.second = 64 - pos; } return k; }
static std::vector<uint64_t> copyOf(const std::vector<uint64_t> &v) { return std::vector<uint64_t>(v.begin(), v.end()); }
template <class T, class PT> void run(const char *nm, std::vector<Key> &keys, bool full) {
  T *t = nullptr; std::map<Key, long> ref; std::vector<Key> order;
  auto access = [&](const Key &k) -> PT * { PT *p = nullptr; std::vector<uint64_t> v = copyOf(k.first); if (!t) t = new T(v, k.second, p); else t->insert(v, k.second, p); return p; };
  for (size_t i = 0; i < keys.size(); i++) {
    auto &k = keys[i];
    PT *p = access(k); h::check(p != nullptr, std::string(nm) + ": no payload slot");
    long have = (long)*p;
    if (ref.count(k)) h::check(have == ref[k], std::string(nm) + ": equal key found with another payload, inserting " + ks(k)); else h::check(have == 0, std::string(nm) + ": new key reported with an earlier payload, inserting " + ks(k));
    *p = (PT)(i + 1); ref[k] = (long)(i + 1);
    if (full || i + 1 == keys.size()) for (auto &r : ref) { PT *q = access(r.first); h::check((long)*q == r.second, std::string(nm) + ": payload of " + ks(r.first) + " lost after inserting " + ks(k)); h::check(access(r.first) == q, std::string(nm) + ": two slots for one key"); }
  }
}
static void both(std::vector<Key> &keys, bool full) {
  std::string s; for (auto &k : keys) { s += ks(k); if (s.size() > 3000) break; }
  h::begin(s, keys.size() > 2);
  run<compressed_sequence_trie, void *>("compressed", keys, full);
  run<sequence_trie, payloadType>("plain", keys, full);
}
void harness() {
  // hash table
  for (int n : {1, 2, 7, 100}) { hash_table t(n); h::begin(h::cat("hash table", n)); std::map<void **, size_t> seen; for (size_t x = 0; x < (size_t)3 * n; x++) { void **e = t.get(x); h::check(e >= t.table && e < t.table + n, "entry outside of the table"); h::check(*e == nullptr, "fresh entry not empty"); h::check(e == t.get(x + n), "same residue, different entry"); if (seen.count(e)) h::check(seen[e] % n == x % n, "different residues share an entry"); seen[e] = x; } h::check(t.get(SIZE_MAX) == t.table + SIZE_MAX % n, "huge hash"); }
  // exhaustive: pairs and triples of prefixes of few strings around block borders
  std::vector<int> lens = {1, 2, 63, 64, 65, 127, 128, 129, 192};
  std::vector<std::vector<bool>> bases; { std::vector<bool> z(200, false), o(200, true), a(200), b(200); for (int i = 0; i < 200; i++) { a[i] = i % 2; b[i] = i == 64 || i == 128; } bases = {z, o, a, b}; }
  std::vector<Key> pool; for (auto &b : bases) for (int l : lens) pool.push_back(mk(std::vector<bool>(b.begin(), b.begin() + l)));
  std::sort(pool.begin(), pool.end()); pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
  for (auto &x : pool) for (auto &y : pool) { std::vector<Key> ks = {x, y, x}; both(ks, true); }
  for (auto &x : pool) for (auto &y : pool) for (auto &z : pool) { if (!h::coin(h::thorough ? 100 : 10)) continue; std::vector<Key> ks = {x, y, z}; both(ks, true); }
  while (h::time_left()) {
    int n = h::rnd(3, 40); std::vector<Key> keys; int style = h::rnd(0, 3); int fixed = h::rnd(1, 200);
    std::vector<std::vector<bool>> got;
    for (int i = 0; i < n; i++) {
      std::vector<bool> b;
      if (!got.empty() && h::coin(60)) { b = got[h::rnd(0, (int)got.size() - 1)]; int w = h::rnd(0, 3); if (w == 0 && !b.empty()) b.resize(h::rnd(1, (int)b.size())); else if (w == 1 && !b.empty()) { int p = h::rnd(0, (int)b.size() - 1); b[p] = !b[p]; } else if (w == 2) { int e = h::coin() ? h::rnd(1, 5) : 64 - (int)b.size() % 64; for (int j = 0; j < e; j++) b.push_back(h::coin()); } }
      else { int l = style == 0 ? fixed : style == 1 ? 64 * h::rnd(1, 4) : h::rnd(1, 260); for (int j = 0; j < l; j++) b.push_back(style == 3 ? h::coin(3) : h::coin()); }
      if (style == 0) b.resize(fixed);
      got.push_back(b); keys.push_back(mk(b));
    }
    both(keys, true);
  }
}
