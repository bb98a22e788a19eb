// P10 bounded check: packing of states into words.  Non-trivial: more than one word.
//FLAGS: -I$REPO/src/search -I$REPO/src/heuristics
//SRC: VisitedList.cpp Model.cpp ProgressionNetwork.cpp intDataStructures/noDelIntSet.cpp intDataStructures/FlexIntStack.cpp intDataStructures/IntUtil.cpp intDataStructures/StringUtil.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp heuristics/landmarks/lmDataStructures/landmark.cpp heuristics/landmarks/lmDataStructures/lookUpTab.cpp Debug.cpp Util.cpp intDataStructures/CompressedSequenceSet.cpp intDataStructures/HashTable.cpp
#include "h.h"
using namespace h;
std::pair<std::vector<uint64_t>, int> state2Int(std::vector<bool> &state);
static void one(const std::vector<bool> &b) {
  std::string s; for (bool x : b) s += x ? '1' : '0'; begin(s, b.size() > 64);
  std::vector<bool> c = b; auto [w, pad] = state2Int(c); check(c == b, "the state was changed");
  size_t n = b.size(); check(w.size() == (n + 63) / 64, cat("number of words", w.size(), "for", n, "facts")); check(pad == (int)(64 * w.size() - n), cat("padding", pad));
  for (size_t i = 0; i < 64 * w.size(); i++) { bool v = (w[i / 64] >> (i % 64)) & 1; if (v != (i < n && b[i])) fail(cat("bit", i, "is", v)); }
}
void harness() {
  for (int n = 0; n <= 12; n++) for (int x = 0; x < (1 << n); x++) { std::vector<bool> b(n); for (int i = 0; i < n; i++) b[i] = x >> i & 1; one(b); }
  for (int n = 13; n <= 330; n++) { std::vector<bool> z(n, false), o(n, true); one(z); one(o); for (int i = 0; i < n; i += (n > 70 ? 7 : 1)) { z[i] = true; one(z); z[i] = false; } z[n - 1] = true; one(z); }
  while (time_left()) { int n = rnd(0, 400); std::vector<bool> b(n); int p = rnd(0, 100); for (int i = 0; i < n; i++) b[i] = coin(p); one(b); }
}
