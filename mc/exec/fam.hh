#pragma once
#include "real.hh"
#include <algorithm>
using namespace M; using namespace X; using std::string; using std::vector; using std::to_string;
static const V U = UNK;
static const V TFU[3] = {1, 0, UNK};
// ===================================================================== helpers
static EP L(System &S, string n, vector<V> dom = {0, 1}, V init = 0, Ty t = TB) {
  for (auto &l : S.lookups) if (l.name == n) return lk(n, l.ty, true);
  S.lookups.push_back({n, t, dom, init}); return lk(n, t, true);
}
static NP list(string id, vector<NP> kids) { NP n = node(N_LIST, id); n->kids = kids; return n; }
struct Mix { size_t i; explicit Mix(size_t x) : i(x) {} size_t operator()(size_t n) { size_t r = i % n; i /= n; return r; } };   // mixed radix decoding

inline bool deep() { return H::args.thorough || !H::args.replay.empty(); }   // larger bounds (indices of the quick bounds come first)
void more(vector<FamilyDef> &);
