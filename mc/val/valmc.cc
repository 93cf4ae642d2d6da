// C19 (VE, VS), C20 (SE, PP), C21 (CT), C22 (TM): laws of the value, state, container and time classes,
// decided by enumerating a closed universe of values (all pairs, all triples) or all operation sequences.
#include "harness.hh"
#include "Array.hh"
#include "ArrayImpl.hh"
#include "CommandHandle.hh"
#include "Error.hh"
#include "LinkedQueue.hh"
#include "NodeConstants.hh"
#include "NodeVariableMap.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "SimpleMap.hh"
#include "SimpleSet.hh"
#include "State.hh"
#include "Value.hh"
#include "ValueType.hh"
#include "map-utils.hh"
#include "timespec-utils.hh"
#include "timeval-utils.hh"
#include <cmath>
#include <limits>
#include <list>
#include <memory>
using namespace PLEXIL; using std::string; using std::vector; using std::to_string; using H::st;
namespace {
bool deep() { return H::args.thorough || !H::args.replay.empty(); }
// ---------------------------------------------------------------- the universe of values
struct OV { ValueType t = UNKNOWN_TYPE; bool known = false; int64_t i = 0; double r = 0; string s; vector<OV> a; int hidden = 0; };
OV unk(ValueType t) { OV o; o.t = t; return o; }
OV sc(ValueType t, int64_t i) { OV o; o.t = t; o.known = true; o.i = i; o.r = (double)i; return o; }
OV rl(double r) { OV o; o.t = REAL_TYPE; o.known = true; o.r = r; return o; }
OV sg(string s) { OV o; o.t = STRING_TYPE; o.known = true; o.s = s; return o; }
OV ar(ValueType t, vector<OV> a, int hidden = 0) { OV o; o.t = t; o.known = true; o.a = a; o.hidden = hidden; return o; }
bool isA(ValueType t) { return t == BOOLEAN_ARRAY_TYPE || t == INTEGER_ARRAY_TYPE || t == REAL_ARRAY_TYPE || t == STRING_ARRAY_TYPE; }
string show(OV const &o) {
  if (!o.known) return "?" + to_string((int)o.t);
  if (o.t == REAL_TYPE) { char b[40]; snprintf(b, 40, "%.17gr", o.r); return b; }
  if (o.t == STRING_TYPE) { string s; for (unsigned char c : o.s.size() > 40 ? o.s.substr(0, 40) : o.s) { if (c > 32 && c < 127) s += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); s += b; } } return "'" + s + "'" + (o.s.size() > 40 ? "#" + to_string(o.s.size()) : ""); }
  if (isA(o.t)) { string s = "t" + to_string((int)o.t) + "["; size_t n = 0; for (auto &e : o.a) { if (n++ > 12) { s += "..#" + to_string(o.a.size()); break; } s += show(e) + ","; } return s + "]" + (o.hidden ? "h" + to_string(o.hidden) : ""); }
  return to_string(o.i) + "t" + to_string((int)o.t);
}
bool num(OV const &o) { return o.t == INTEGER_TYPE || o.t == REAL_TYPE; }
bool eqv(OV const &x, OV const &y) {
  if (x.known != y.known) return false;
  if (num(x) && num(y)) return !x.known || (x.t == INTEGER_TYPE ? (double)x.i : x.r) == (y.t == INTEGER_TYPE ? (double)y.i : y.r);
  if (x.t != y.t) return false;
  if (!x.known) return true;
  if (x.t == STRING_TYPE) return x.s == y.s;
  if (isA(x.t)) { if (x.a.size() != y.a.size()) return false; for (size_t k = 0; k < x.a.size(); ++k) if (x.a[k].known != y.a[k].known || (x.a[k].known && !eqv(x.a[k], y.a[k]))) return false; return true; }
  return x.i == y.i;
}
template <class T> void fill(ArrayImpl<T> &r, OV const &o, T hid, T (*get)(OV const &)) {
  for (size_t k = 0; k < o.a.size(); ++k) { if (o.hidden) r.setElement(k, hid); if (o.a[k].known) r.setElement(k, get(o.a[k])); else r.setElementUnknown(k); }
}
Value mk(OV const &o) {
  if (!o.known) return o.t == UNKNOWN_TYPE ? Value() : Value(o.t);
  switch (o.t) {
  case BOOLEAN_TYPE: return Value((bool)o.i); case INTEGER_TYPE: return Value((Integer)o.i); case REAL_TYPE: return Value(o.r); case STRING_TYPE: return Value(o.s);
  case NODE_STATE_TYPE: return Value((NodeState)o.i); case OUTCOME_TYPE: return Value((NodeOutcome)o.i); case FAILURE_TYPE: return Value((FailureType)o.i); case COMMAND_HANDLE_TYPE: return Value((CommandHandleValue)o.i);
  case BOOLEAN_ARRAY_TYPE: { BooleanArray a(o.a.size()); fill<Boolean>(a, o, true, [](OV const &e) -> Boolean { return e.i; }); return Value(a); }
  case INTEGER_ARRAY_TYPE: { IntegerArray a(o.a.size()); fill<Integer>(a, o, 77 * o.hidden, [](OV const &e) -> Integer { return e.i; }); return Value(a); }
  case REAL_ARRAY_TYPE: { RealArray a(o.a.size()); fill<Real>(a, o, 7.5 * o.hidden, [](OV const &e) -> Real { return e.r; }); return Value(a); }
  case STRING_ARRAY_TYPE: { StringArray a(o.a.size()); fill<String>(a, o, string(o.hidden, 'h'), [](OV const &e) -> String { return e.s; }); return Value(a); }
  default: return Value(); }
}
// Does the real value hold exactly this oracle value (content, not equality operator)?
string holds(Value const &v, OV const &o, bool typed = true) {
  if (v.isKnown() != o.known) return string(v.isKnown() ? "known" : "unknown") + " instead of " + show(o);
  if (!o.known) return !typed || v.valueType() == o.t ? "" : "unknown of type " + to_string(v.valueType()) + " instead of " + show(o);
  if (v.valueType() != o.t) return "type " + to_string(v.valueType()) + " instead of " + show(o);
  string bad = "value " + v.valueToString() + " instead of " + show(o);
  switch (o.t) {
  case BOOLEAN_TYPE: { Boolean x; return v.getValue(x) && x == (bool)o.i ? "" : bad; }
  case INTEGER_TYPE: { Integer x; Real r; return v.getValue(x) && x == o.i && v.getValue(r) && r == (double)o.i ? "" : bad; }
  case REAL_TYPE: { Real x; return v.getValue(x) && !memcmp(&x, &o.r, 8) ? "" : bad; }
  case STRING_TYPE: { String x; String const *p; return v.getValue(x) && x == o.s && v.getValuePointer(p) && *p == o.s ? "" : bad; }
  case NODE_STATE_TYPE: { NodeState x; return v.getValue(x) && x == o.i ? "" : bad; }
  case OUTCOME_TYPE: { NodeOutcome x; return v.getValue(x) && x == o.i ? "" : bad; }
  case FAILURE_TYPE: { FailureType x; return v.getValue(x) && x == o.i ? "" : bad; }
  case COMMAND_HANDLE_TYPE: { CommandHandleValue x; return v.getValue(x) && x == o.i ? "" : bad; }
  default: break; }
  Array const *a; if (!v.getValuePointer(a) || a->size() != o.a.size()) return bad;
  for (size_t k = 0; k < o.a.size(); ++k) {
    OV const &e = o.a[k]; if (a->elementKnown(k) != e.known) return bad + " at " + to_string(k); if (!e.known) { if (a->getElementValue(k).isKnown()) return bad + " at " + to_string(k); continue; }
    string d = holds(a->getElementValue(k), e); if (!d.empty()) return "element " + to_string(k) + ": " + d;
  }
  return "";
}
vector<OV> scalars(bool big) {
  vector<OV> u; const int IM = std::numeric_limits<int32_t>::max(), IN = std::numeric_limits<int32_t>::min();
  for (int b : {0, 1}) u.push_back(sc(BOOLEAN_TYPE, b));
  for (int64_t i : {0, 1, -1, 2, IM, IN, IM - 1}) u.push_back(sc(INTEGER_TYPE, i));
  for (double r : {0.0, -0.0, 0.5, 1.0, -1.0, 1.5, (double)IM, (double)IM + 0.5, (double)IN, 1e300, -1e300, HUGE_VAL, -HUGE_VAL, 5e-324}) u.push_back(rl(r));
  for (string s : {string(""), string("a"), string("b"), string("ab"), string("a\0b", 3), string("a\0", 2), string("\xff"), string("1"), string("true")}) u.push_back(sg(s));
  for (int i = 0; i < NODE_STATE_MAX; ++i) if (isNodeStateValid(i) && (big || i < 3)) u.push_back(sc(NODE_STATE_TYPE, i));
  for (int i = 0; i < OUTCOME_MAX; ++i) if (isNodeOutcomeValid(i) && (big || i < NO_OUTCOME + 3)) u.push_back(sc(OUTCOME_TYPE, i));
  for (int i = 0; i < FAILURE_TYPE_MAX; ++i) if (isFailureTypeValid(i) && (big || i < NO_FAILURE + 3)) u.push_back(sc(FAILURE_TYPE, i));
  for (int i = 0; i < COMMAND_HANDLE_MAX; ++i) if (isCommandHandleValid(i) && (big || i < NO_COMMAND_HANDLE + 3)) u.push_back(sc(COMMAND_HANDLE_TYPE, i));
  return u;
}
vector<OV> alphabet(ValueType arr, bool stale) {
  switch (arr) {
  case BOOLEAN_ARRAY_TYPE: return {unk(BOOLEAN_TYPE), sc(BOOLEAN_TYPE, 0), sc(BOOLEAN_TYPE, 1)};
  case INTEGER_ARRAY_TYPE: return {unk(INTEGER_TYPE), sc(INTEGER_TYPE, 0), sc(INTEGER_TYPE, -2)};
  case REAL_ARRAY_TYPE: return {unk(REAL_TYPE), rl(0), rl(2.5)};
  default: return {unk(STRING_TYPE), sg(""), sg("x")}; }
}
void arrays(vector<OV> &u, int maxLen, bool hidden) {
  for (ValueType t : {BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE}) {
    auto al = alphabet(t, false);
    for (int n = 0; n <= maxLen; ++n) { int tot = 1; for (int k = 0; k < n; ++k) tot *= al.size();
      for (int c = 0; c < tot; ++c) { vector<OV> e; bool anyU = false; for (int k = 0, x = c; k < n; ++k, x /= al.size()) { e.push_back(al[x % al.size()]); anyU |= !e.back().known; } u.push_back(ar(t, e)); if (hidden && anyU) { u.push_back(ar(t, e, 1)); if (n == 1) u.push_back(ar(t, e, 2)); } } }
  }
}
vector<OV> universe() {
  vector<OV> u = scalars(deep());
  for (ValueType t : {UNKNOWN_TYPE, BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, NODE_STATE_TYPE, OUTCOME_TYPE, FAILURE_TYPE, COMMAND_HANDLE_TYPE, BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE}) u.push_back(unk(t));
  arrays(u, 2, true); return u;
}
template <class V> string relations(V const &a, V const &b, bool want) {
  bool e = a == b, l = a < b, g = b < a; string d;
  if (e != want) d += want ? "equal values compare unequal\n" : "different values compare equal\n";
  if (l && g) d += "each is less than the other\n";
  if (e == (l || g)) d += e ? "equal yet ordered\n" : "neither equal nor ordered\n";
  return d;
}
string opsV(Value const &a, Value const &b) {
  bool e = a == b, l = a < b, g = b < a; string d;
  if (a.equals(b) != e || (a != b) == e || a.lessThan(b) != l || (a > b) != g || (a <= b) == g || (a >= b) == l) d += "comparison operators disagree with each other\n";
  return d;
}
template <class A> string opsA(Value const &a, Value const &b) {
  A const *p, *q; if (!a.getValuePointer(p) || !b.getValuePointer(q)) return "no array\n"; bool e = *p == *q, l = *p < *q, g = *q < *p; Array const &pa = *p, &qa = *q; string d;
  if ((*p != *q) == e || (*p > *q) != g || (*p <= *q) == g || (*p >= *q) == l || (pa == qa) != e) d += "array comparison operators disagree with each other\n";
  if (l && g) d += "arrays: each less than the other\n"; if (e == (l || g)) d += "arrays: equality and order disagree\n";
  return d;
}
void ve(bool replay, string const &target) {
  auto u = universe(); vector<Value> v; for (auto &o : u) v.push_back(mk(o)); int n = u.size(); H::note("VE: universe of " + to_string(n) + " values; all pairs and triples");
  vector<vector<char>> L(n, vector<char>(n)), E(n, vector<char>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { L[i][j] = v[i] < v[j]; E[i][j] = v[i] == v[j]; }
  auto pair = [&](int i, int j) {
    H::cell("VE", to_string(i) + " " + to_string(j)); st.executions++; st.evaluations += 12; string d = relations(v[i], v[j], eqv(u[i], u[j])) + opsV(v[i], v[j]);
    if (isA(u[i].t) && u[i].t == u[j].t && u[i].known && u[j].known) d += u[i].t == BOOLEAN_ARRAY_TYPE ? opsA<BooleanArray>(v[i], v[j]) : u[i].t == INTEGER_ARRAY_TYPE ? opsA<IntegerArray>(v[i], v[j]) : u[i].t == REAL_ARRAY_TYPE ? opsA<RealArray>(v[i], v[j]) : opsA<StringArray>(v[i], v[j]);
    if (isA(u[i].t) && isA(u[j].t) && u[i].known && u[j].known) { Array const *p, *q; v[i].getValuePointer(p); v[j].getValuePointer(q); if ((*p == *q) != eqv(u[i], u[j])) d += "generic array equality is wrong\n"; }
    // copies and assignments over any earlier content; sources stay intact
    { Value c(v[i]); string h = holds(c, u[i]); Value t(v[j]); t = v[i]; h += holds(t, u[i]); Value s(v[i]), t2(v[j]); t2 = std::move(s); h += holds(t2, u[i]); Value s2(v[i]); Value m(std::move(s2)); h += holds(m, u[i]); t = t2; t2.setUnknown(); h += holds(t, u[i]); Value &self = t; t = self; h += holds(t, u[i]); h += holds(t2, unk(UNKNOWN_TYPE)); h += holds(v[i], u[i]) + holds(v[j], u[j]);
      t2 = v[j]; t2 = v[i]; t2 = v[j]; h += holds(t2, u[j]); std::swap(t, t2); h += holds(t, u[j]) + holds(t2, u[i]);
      if (u[i].known) { Value x(v[j]); if (u[i].t == STRING_TYPE) x = u[i].s; else if (u[i].t == INTEGER_TYPE) x = (Integer)u[i].i; else if (u[i].t == REAL_TYPE) x = u[i].r; else if (u[i].t == BOOLEAN_TYPE) x = (bool)u[i].i;
        else if (u[i].t == NODE_STATE_TYPE) x = (NodeState)u[i].i; else if (u[i].t == OUTCOME_TYPE) x = (NodeOutcome)u[i].i; else if (u[i].t == FAILURE_TYPE) x = (FailureType)u[i].i; else if (u[i].t == COMMAND_HANDLE_TYPE) x = (CommandHandleValue)u[i].i;
        else if (u[i].t == BOOLEAN_ARRAY_TYPE) { BooleanArray const *p; v[i].getValuePointer(p); x = *p; } else if (u[i].t == INTEGER_ARRAY_TYPE) { IntegerArray const *p; v[i].getValuePointer(p); x = *p; } else if (u[i].t == REAL_ARRAY_TYPE) { RealArray const *p; v[i].getValuePointer(p); x = *p; } else if (u[i].t == STRING_ARRAY_TYPE) { StringArray const *p; v[i].getValuePointer(p); x = *p; }
        h += holds(x, u[i]); }
      if (!h.empty()) d += "copying: " + h + "\n"; }
    if (!d.empty()) H::violate("VE " + to_string(u[i].t) + " " + to_string(u[j].t), show(u[i]) + " and " + show(u[j]) + ":\n" + d, to_string(i) + " " + to_string(j));
  };
  auto triple = [&](int i, int j, int k) {
    st.transitions++; if ((E[i][j] && E[j][k] && !E[i][k]) || (L[i][j] && L[j][k] && !L[i][k]) || (!L[i][j] && !L[j][i] && !L[j][k] && !L[k][j] && (L[i][k] || L[k][i]))) { H::cell("VE", to_string(i) + " " + to_string(j) + " " + to_string(k)); H::violate("VE triple " + to_string(u[i].t) + " " + to_string(u[j].t) + " " + to_string(u[k].t), "equality, order or incomparability is not transitive over " + show(u[i]) + ", " + show(u[j]) + ", " + show(u[k]), to_string(i) + " " + to_string(j) + " " + to_string(k)); }
  };
  if (replay) { std::istringstream in(target); int i, j, k; in >> i >> j; if (in >> k) triple(i, j, k); else pair(i, j); return; }
  uint64_t idx = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (H::mine(idx++)) { if (H::full()) return; pair(i, j); H::distinct(show(u[i]) + show(u[j])); for (int k = 0; k < n; ++k) triple(i, j, k); }
}
// ---------------------------------------------------------------- states as keys
struct OS { string n; vector<OV> p; };
string show(OS const &s) { string o = s.n + "("; for (auto &x : s.p) o += show(x) + ";"; return o + ")"; }
bool eqs(OS const &a, OS const &b) { if (a.n != b.n || a.p.size() != b.p.size()) return false; for (size_t k = 0; k < a.p.size(); ++k) if (!eqv(a.p[k], b.p[k])) return false; return true; }
State mk(OS const &s, int how = 0) {
  vector<Value> p; for (auto &x : s.p) p.push_back(mk(x));
  if (how == 1) { State r(s.n, s.p.size()); for (size_t k = 0; k < p.size(); ++k) r.setParameter(k, p[k]); return r; }
  if (how == 2) { State r("other", 7); r.setName(s.n); r.setParameterCount(p.size()); for (size_t k = 0; k < p.size(); ++k) r.setParameter(k, p[k]); State q; q = r; return q; }
  if (how == 3) { State a(s.n, p); State b(std::move(a)); State c("z", Value(1)); c = std::move(b); return c; }
  if (how == 4 && p.size() == 1) return State(s.n, p[0]);
  if (how == 4 && p.size() == 2) return State(s.n, p[0], p[1]);
  if (how == 4 && p.empty()) return State(s.n);
  return State(s.n, p);
}
vector<OS> stateUniverse() {
  vector<OV> al = {sc(INTEGER_TYPE, 1), rl(1), sc(INTEGER_TYPE, 2), sg("1"), sc(BOOLEAN_TYPE, 1), unk(UNKNOWN_TYPE), ar(INTEGER_ARRAY_TYPE, {sc(INTEGER_TYPE, 1)}), ar(INTEGER_ARRAY_TYPE, {unk(INTEGER_TYPE)}, 1), ar(INTEGER_ARRAY_TYPE, {unk(INTEGER_TYPE)}), unk(INTEGER_TYPE), unk(REAL_TYPE)};
  if (deep()) { al.push_back(sg("")); al.push_back(rl(1.5)); al.push_back(ar(STRING_ARRAY_TYPE, {sg("1")})); }
  vector<OS> u; for (string n : {"a", "", "ab"}) { u.push_back({n, {}}); for (auto &x : al) u.push_back({n, {x}}); for (auto &x : al) for (auto &y : al) u.push_back({n, {x, y}}); }
  u.push_back({"a", {sc(INTEGER_TYPE, 1), sc(INTEGER_TYPE, 1), sc(INTEGER_TYPE, 1)}}); return u;
}
void vs(bool replay, string const &target) {
  auto u = stateUniverse(); vector<State> v; for (auto &s : u) v.push_back(mk(s)); int n = u.size(); H::note("VS: universe of " + to_string(n) + " states; all pairs and triples");
  vector<vector<char>> L(n, vector<char>(n)), E(n, vector<char>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { L[i][j] = v[i] < v[j]; E[i][j] = v[i] == v[j]; }
  auto pair = [&](int i, int j) {
    H::cell("VS", to_string(i) + " " + to_string(j)); st.executions++; st.evaluations += 3; string d = relations(v[i], v[j], eqs(u[i], u[j]));
    for (int how = 0; how < 5; ++how) { State s = mk(u[j], how); if ((s == v[i]) != eqs(u[i], u[j]) || s.parameterCount() != u[j].p.size() || s.name() != u[j].n) d += "state built in way " + to_string(how) + " differs\n"; for (size_t k = 0; k <= u[j].p.size(); ++k) { OV w = k < u[j].p.size() ? u[j].p[k] : unk(UNKNOWN_TYPE); if (!holds(s.parameter(k), w).empty() || s.isParameterKnown(k) != w.known || s.parameterType(k) != w.t) d += "parameter " + to_string(k) + " of the state built in way " + to_string(how) + ": " + holds(s.parameter(k), w) + "\n"; } }
    if (!d.empty()) H::violate("VS " + to_string(u[i].p.size()) + to_string(u[j].p.size()), show(u[i]) + " and " + show(u[j]) + ":\n" + d, to_string(i) + " " + to_string(j));
  };
  auto triple = [&](int i, int j, int k) {
    st.transitions++; if ((E[i][j] && E[j][k] && !E[i][k]) || (L[i][j] && L[j][k] && !L[i][k]) || (!L[i][j] && !L[j][i] && !L[j][k] && !L[k][j] && (L[i][k] || L[k][i]))) H::violate("VS triple", "equality, order or incomparability is not transitive over " + show(u[i]) + ", " + show(u[j]) + ", " + show(u[k]), to_string(i) + " " + to_string(j) + " " + to_string(k)); };
  auto table = [&](int a, int b, int c) {   // three keys inserted in every order: as many entries as different states, each found again
    int o[3] = {a, b, c}; std::sort(o, o + 3); do { std::map<State, int> m; for (int x : o) m[v[x]] = x; st.transitions++; int want = 1 + !eqs(u[b], u[a]) + (!eqs(u[c], u[a]) && !eqs(u[c], u[b])); bool ok = (int)m.size() == want; for (int x : o) { auto it = m.find(v[x]); ok = ok && it != m.end() && eqs(u[it->second], u[x]); }
      if (!ok) H::violate("VS table", "a state-keyed table merges or loses entries for " + show(u[o[0]]) + ", " + show(u[o[1]]) + ", " + show(u[o[2]]), "T " + to_string(a) + " " + to_string(b) + " " + to_string(c)); } while (std::next_permutation(o, o + 3)); };
  if (replay) { std::istringstream in(target); int i, j, k; string t = target.substr(0, 1); if (t == "T") { in >> t >> i >> j >> k; table(i, j, k); return; } in >> i >> j; if (in >> k) triple(i, j, k); else pair(i, j); return; }
  uint64_t idx = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (H::mine(idx++)) { if (H::full()) return; pair(i, j); H::distinct(show(u[i]) + show(u[j])); for (int k = 0; k < n; ++k) triple(i, j, k); }
  int m = std::min(n, deep() ? 60 : 32); for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) if (H::mine(idx++)) { if (H::full()) return; table(i, j, k); }
}
// ---------------------------------------------------------------- serialisation
bool serialisable(OV const &o) { return !o.known || !(o.t == NODE_STATE_TYPE || o.t == OUTCOME_TYPE || o.t == FAILURE_TYPE); }
vector<OV> serUniverse() {
  vector<OV> u = scalars(true); for (ValueType t : {UNKNOWN_TYPE, BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE}) u.push_back(unk(t));
  for (int b = 0; b < 32; ++b) for (int64_t d : {-1, 0, 1}) { int64_t x = (1ll << b) + d; for (int64_t y : {x, -x}) if (y >= INT32_MIN && y <= INT32_MAX) u.push_back(sc(INTEGER_TYPE, y)); }
  for (int b = 0; b < 64; ++b) { uint64_t x = 1ull << b; double r; memcpy(&r, &x, 8); if (r == r) u.push_back(rl(r)); x = ~x; memcpy(&r, &x, 8); if (r == r) u.push_back(rl(r)); x = 0x0102030405060708ull << (b % 8) ^ (0x80ull << b % 56); memcpy(&r, &x, 8); if (r == r) u.push_back(rl(r)); }
  for (int c = 0; c < 256; ++c) u.push_back(sg(string(1, (char)c)));
  for (size_t n : {127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0x808080}) { string s(n, 'q'); s[0] = 0; s[n - 1] = (char)0x80; s[n / 2] = (char)0xff; u.push_back(sg(s)); }
  u.push_back(sg(string(0xFFFFFF, 'z')));
  arrays(u, deep() ? 4 : 3, true);
  for (ValueType t : {BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE}) { auto al = alphabet(t, false);
    vector<size_t> ns; for (size_t n = 5; n <= (deep() ? 300 : 140); ++n) ns.push_back(n); for (size_t n : {255, 256, 257, 32768, 65535, 65536, 65537}) ns.push_back(n);
    for (size_t n : ns) for (int pat = 0; pat < (n < 20 ? 6 : 2); ++pat) { vector<OV> e; uint32_t h = 12345 + n * 7 + pat * 1000; for (size_t k = 0; k < n; ++k) { h = h * 1103515245 + 12345; e.push_back(pat == 4 ? al[0] : pat == 5 ? al[2] : al[(h >> 16) % al.size()]); } u.push_back(ar(t, e, pat == 3)); } }
  for (int b = 0; b < 256; ++b) { vector<OV> e; for (int k = 0; k < 8; ++k) e.push_back(b >> k & 1 ? sc(BOOLEAN_TYPE, (b >> (7 - k)) & 1) : unk(BOOLEAN_TYPE)); u.push_back(ar(BOOLEAN_ARRAY_TYPE, e)); }
  return u;
}
template <class T> string serRound(T const &v, size_t size, std::function<string(T const &)> check, vector<T> &targets) {
  size_t pad = 64; vector<unsigned char> buf(size + 2 * pad, 0xA5); char *b = (char *)buf.data() + pad; char *e = v.serialize(b); string d;
  if (!e) return "cannot be serialised\n";
  if ((size_t)(e - b) != size) d += "announced size " + to_string(size) + " but " + to_string(e - b) + " bytes written\n";
  for (size_t k = 0; k < pad; ++k) if (buf[k] != 0xA5 || buf[size + pad + k] != 0xA5) { d += "bytes written outside the announced size\n"; break; }
  for (auto &t : targets) { T x(t); char const *r = x.deserialize(b); if (!r) { d += "cannot be deserialised\n"; break; } if (r - b != (long)size) d += "deserialisation consumed " + to_string(r - b) + " of " + to_string(size) + " bytes\n"; string c = check(x); if (!c.empty()) { d += "after a round trip: " + c + "\n"; break; } }
  return d;
}
void se(bool replay, string const &target) {
  auto u = serUniverse(); int n = u.size();
  vector<Value> targets = {Value(), mk(sc(BOOLEAN_TYPE, 1)), mk(sc(INTEGER_TYPE, -1)), mk(rl(3.5)), mk(sg("old old old")), mk(sc(COMMAND_HANDLE_TYPE, COMMAND_SUCCESS)), mk(unk(STRING_TYPE)), mk(unk(INTEGER_ARRAY_TYPE))};
  for (ValueType t : {BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE}) { auto al = alphabet(t, false); targets.push_back(mk(ar(t, {al[2], al[1], al[2]}))); targets.push_back(mk(ar(t, {}))); }
  auto one = [&](int i) {
    H::cell("SE", "v " + to_string(i)); st.executions++; Value v = mk(u[i]); string d; vector<Value> few(targets.begin(), targets.begin() + (u[i].s.size() > 100000 || u[i].a.size() > 30000 ? 1 : targets.size()));
    if (!serialisable(u[i])) { char b[16]; if (v.serialize(b) || v.serialSize()) d = "a value that has no serial form does not say so\n"; }
    else { d = serRound<Value>(v, v.serialSize(), [&](Value const &x) { return holds(x, u[i].known ? u[i] : unk(UNKNOWN_TYPE)); }, few); st.evaluations += few.size(); st.transitions += few.size(); }
    // the typed functions agree with the value's own, and refuse data of another type
    if (u[i].known && serialisable(u[i])) { vector<char> b(v.serialSize() + 16), c(b.size()); char *e = v.serialize(b.data()); auto bytes = [&](char *f, size_t z, char const *w) { if (!f || f - c.data() != e - b.data() || memcmp(b.data(), c.data(), e - b.data()) || z != (size_t)(e - b.data())) d += string("typed serialisation as ") + w + " differs\n"; };
      Boolean xb; Integer xi; Real xr; String xs; CommandHandleValue xc;
      if (u[i].t == BOOLEAN_TYPE) { v.getValue(xb); bytes(serialize(xb, c.data()), serialSize(xb), "Boolean"); } if (u[i].t == INTEGER_TYPE) { v.getValue(xi); bytes(serialize(xi, c.data()), serialSize(xi), "Integer"); } if (u[i].t == REAL_TYPE) { v.getValue(xr); bytes(serialize(xr, c.data()), serialSize(xr), "Real"); } if (u[i].t == STRING_TYPE) { v.getValue(xs); bytes(serialize(xs, c.data()), serialSize(xs), "String"); }
      struct { ValueType t; char const *r; } rs[] = {{BOOLEAN_TYPE, deserialize(xb, b.data())}, {INTEGER_TYPE, deserialize(xi, b.data())}, {REAL_TYPE, deserialize(xr, b.data())}, {STRING_TYPE, deserialize(xs, b.data())}, {COMMAND_HANDLE_TYPE, deserialize(xc, b.data())}};
      for (auto &r : rs) if ((r.t == u[i].t) ? r.r != e : r.r != nullptr) d += "typed deserialisation as type " + to_string(r.t) + (r.r ? " accepted data of another type or size\n" : " refused its data\n");
      BooleanArray ab(2); IntegerArray ai(5, 3); RealArray a2; StringArray as(1, "s"); struct { ValueType t; Array *a; } as4[] = {{BOOLEAN_ARRAY_TYPE, &ab}, {INTEGER_ARRAY_TYPE, &ai}, {REAL_ARRAY_TYPE, &a2}, {STRING_ARRAY_TYPE, &as}};
      for (auto &a : as4) { char const *r = a.a->deserialize(b.data()); if (a.t == u[i].t ? r != e : r != nullptr) d += "array deserialisation as type " + to_string(a.t) + " accepted other data or refused its own\n"; else if (a.t == u[i].t) { string h = holds(Value(*a.a), u[i]); if (!h.empty()) d += "array round trip: " + h + "\n"; if (a.a->serialSize() != (size_t)(e - b.data())) d += "array size differs\n"; } }
    }
    H::distinct(show(u[i])); if (!d.empty()) H::violate("SE " + to_string(u[i].t) + (u[i].a.size() > 100 || u[i].s.size() > 100 ? " big" : ""), show(u[i]) + ":\n" + d, "v " + to_string(i));
  };
  vector<OS> ss = stateUniverse(); { vector<OV> many; for (int k = 0; k < 300; ++k) many.push_back(k % 3 ? sc(INTEGER_TYPE, k) : sg(to_string(k))); for (size_t k : {127, 128, 255, 256, 300}) ss.push_back({"many", vector<OV>(many.begin(), many.begin() + k)}); ss.push_back({string("n\0m", 3), {sg("x")}}); ss.push_back({string(300, 'n'), {sg(string(300, 's'))}}); for (auto &x : u) if (serialisable(x) && x.a.size() < 200 && x.s.size() < 300) ss.push_back({"p", {x, sc(INTEGER_TYPE, 5)}}); }
  auto state = [&](int i) {
    H::cell("SE", "s " + to_string(i)); st.executions++; State s = mk(ss[i]); vector<State> t = {State(), State("old", Value(3)), State("old", Value("x"), Value(2.5)), mk(ss[i])}; OS want = ss[i]; for (auto &p : want.p) if (!p.known) p = unk(UNKNOWN_TYPE);
    string d = serRound<State>(s, s.serialSize(), [&](State const &x) { string r; if (x.name() != want.n || x.parameterCount() != want.p.size()) return string("name or parameter count differ"); for (size_t k = 0; k < want.p.size(); ++k) r += holds(x.parameter(k), want.p[k]); return r; }, t); st.evaluations += 4; st.transitions += 4;
    H::distinct(show(ss[i])); if (!d.empty()) H::violate("SE state", show(ss[i]) + ":\n" + d, "s " + to_string(i));
  };
  if (replay) { std::istringstream in(target); string k; int i; in >> k >> i; if (k == "v") one(i); else state(i); return; }
  uint64_t idx = 0; for (int i = 0; i < n; ++i) if (H::mine(idx++)) { if (H::full()) return; one(i); } for (int i = 0; i < (int)ss.size(); ++i) if (H::mine(idx++)) { if (H::full()) return; state(i); }
  if (H::args.shard == 0) { string big(0x1000000, 'b'); vector<char> b(0x1000100); if (serialize(big, b.data())) H::violate("SE too big", "a string too long for the format is serialised", "v 0"); }
}
// ---------------------------------------------------------------- printing and parsing
enum Verdict { ACC, REJ, ANY, UNKN };
Verdict intOracle(string const &s, int64_t &v) {
  if (s.empty() || s == "UNKNOWN") return UNKN;
  size_t k = 0; bool neg = false, plus = false; if (isspace((unsigned char)s[0])) { size_t j = 0; while (j < s.size() && isspace((unsigned char)s[j])) ++j; int64_t x; Verdict r = intOracle(s.substr(j), x); return r == REJ || r == UNKN ? REJ : ANY; }
  if (s[k] == '-') neg = true, ++k; else if (s[k] == '+') plus = true, ++k;
  int base = 10; size_t b = k; if (s.size() > k + 1 && s[k] == '0' && (s[k + 1] == 'x' || s[k + 1] == 'X')) { base = 16; b = k + 2; }
  if (b >= s.size()) return REJ;
  bool lead0 = base == 10 && s[b] == '0' && s.size() > b + 1; bool octal = lead0; __int128 x = 0; for (size_t j = b; j < s.size(); ++j) { int c = tolower(s[j]), dg = isdigit(c) ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (dg < 0) return REJ; if (lead0 && dg > 7) octal = false; if (x < ((__int128)1 << 100)) x = x * base + dg; }
  if (neg) x = -x; v = (int64_t)x; if (lead0) return ANY; if (x > INT32_MAX || x < INT32_MIN) return REJ; return plus || (base == 16 && neg) ? ANY : ACC;
}
Verdict realOracle(string const &s, double &v) {
  if (s.empty() || s == "UNKNOWN") return UNKN;
  if (isspace((unsigned char)s[0])) { size_t j = 0; while (j < s.size() && isspace((unsigned char)s[j])) ++j; double x; Verdict r = realOracle(s.substr(j), x); return r == REJ || r == UNKN ? REJ : ANY; }
  size_t k = 0; bool odd = false; if (s[k] == '-' || s[k] == '+') odd = s[k] == '+', ++k; string t = s.substr(k); for (auto &c : t) c = tolower(c);
  if (t == "nan" || t.substr(0, 4) == "nan(") return ANY; if (t == "inf" || t == "infinity") return REJ; if (t.substr(0, 2) == "0x") { char *e; strtod(s.c_str(), &e); return *e ? REJ : ANY; }
  size_t j = 0, digs = 0; while (j < t.size() && isdigit(t[j])) ++j, ++digs; if (j < t.size() && t[j] == '.') { ++j; while (j < t.size() && isdigit(t[j])) ++j, ++digs; } if (!digs) return REJ;
  if (j < t.size() && t[j] == 'e') { ++j; if (j < t.size() && (t[j] == '-' || t[j] == '+')) ++j; size_t ed = 0; while (j < t.size() && isdigit(t[j])) ++j, ++ed; if (!ed) return REJ; }
  if (j != t.size()) return REJ; v = strtod(s.c_str(), nullptr); if (std::isinf(v)) return REJ; return odd ? ANY : ACC;
}
template <class T> struct Parsed { bool threw = false, known = false; T v{}; };
template <class T> Parsed<T> parse(string const &s) { Parsed<T> p; try { p.known = parseValue<T>(s, p.v); } catch (ParserException const &) { p.threw = true; } return p; }
void literal(string const &s) {
  st.executions++; st.evaluations += 3; string d; int64_t iv = 0; double rv = 0;
  auto judge = [&](Verdict w, bool threw, bool known, bool eq, string type) { if ((w == ACC && (threw || !known || !eq)) || (w == REJ && !threw) || (w == UNKN && (threw || known))) d += type + ": " + (threw ? "rejected" : known ? (eq ? "accepted" : "accepted with another value") : "unknown") + " but should be " + (w == ACC ? "accepted" : w == REJ ? "rejected" : "unknown") + "\n"; };
  { auto p = parse<Integer>(s); Verdict w = intOracle(s, iv); judge(w, p.threw, p.known, p.v == iv, "Integer"); }
  { auto p = parse<Real>(s); Verdict w = realOracle(s, rv); judge(w, p.threw, p.known, p.v == rv, "Real"); }
  { auto p = parse<Boolean>(s); string l; for (char c : s) l += tolower(c); Verdict w = l == "true" || l == "1" || l == "false" || l == "0" ? ACC : s == "UNKNOWN" ? UNKN : s.empty() ? ANY : REJ; judge(w, p.threw, p.known, p.v == (l == "true" || l == "1"), "Boolean"); }
  { auto p = parse<String>(s); judge(ACC, p.threw, p.known, p.v == s, "String"); }
  if (!d.empty()) H::violate("PP literal", "\"" + s + "\": " + d, "L" + s);
}
template <class T> string rt(T const &v, bool near15 = false) {
  std::ostringstream o; printValue(v, o); auto p = parse<T>(o.str()); if (p.threw || !p.known) return "printed as \"" + o.str() + "\", which does not parse\n"; if (p.v == v) return "";
  std::ostringstream o2; printValue(p.v, o2); if (near15 && o2.str() == o.str() && std::fabs((double)p.v - (double)v) <= std::fabs((double)v) * 5.2e-15 + 5e-324) return ""; return "printed as \"" + o.str() + "\", which parses as another value\n";
}
void pp(bool replay, string const &target) {
  if (replay && target[0] == 'L') { string t = target.substr(1); while (!t.empty() && t.back() == '\n') t.pop_back(); literal(t); return; }
  auto vt = [&](string const &name, string const &d) { st.executions++; if (!d.empty()) H::violate("PP " + name, name + ": " + d, "N"); };
  if (replay || H::args.shard == 0) {
    H::cell("PP", "N");
    for (int i = 0; i < 256; ++i) {
      if (isNodeStateValid(i)) { auto s = nodeStateName((NodeState)i); vt("state " + s, parseNodeState(s) == i && parseNodeState(s.c_str()) == i && mk(sc(NODE_STATE_TYPE, i)).valueToString() == s ? "" : "does not round trip"); for (size_t k = 0; k < s.size(); ++k) { string p = s.substr(0, k); vt("state prefix " + p, parseNodeState(p) == NO_NODE_STATE ? "" : "accepted"); string q = s; q[k] ^= 1; vt("state variant " + q, parseNodeState(q) == NO_NODE_STATE ? "" : "accepted"); } vt("state suffix", parseNodeState(s + "X") == NO_NODE_STATE ? "" : s + "X accepted"); }
      if (isNodeOutcomeValid(i)) { auto s = outcomeName((NodeOutcome)i); vt("outcome " + s, parseNodeOutcome(s) == i && parseNodeOutcome(s.c_str()) == i ? "" : "does not round trip"); for (size_t k = 0; k < s.size(); ++k) { string q = s; q[k] ^= 1; vt("outcome variant " + q, parseNodeOutcome(q) == NO_OUTCOME && parseNodeOutcome(s.substr(0, k)) == NO_OUTCOME ? "" : "accepted"); } }
      if (isFailureTypeValid(i)) { auto s = failureTypeName((FailureType)i); vt("failure " + s, parseFailureType(s) == i && parseFailureType(s.c_str()) == i ? "" : "does not round trip"); for (size_t k = 0; k < s.size(); ++k) { string q = s; q[k] ^= 1; vt("failure variant " + q, parseFailureType(q) == NO_FAILURE && parseFailureType(s.substr(0, k)) == NO_FAILURE ? "" : "accepted"); } }
      if (isCommandHandleValid(i)) { auto s = commandHandleValueName((CommandHandleValue)i); vt("handle " + s, parseCommandHandleValue(s) == i ? "" : "does not round trip"); for (size_t k = 0; k < s.size(); ++k) { string q = s; q[k] ^= 1; vt("handle variant " + q, parseCommandHandleValue(q) == NO_COMMAND_HANDLE && parseCommandHandleValue(s.substr(0, k)) == NO_COMMAND_HANDLE ? "" : "accepted"); } }
    }
    std::set<string> names; for (ValueType t : {BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, DATE_TYPE, DURATION_TYPE, BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE, STATE_TYPE, NODE_STATE_TYPE, OUTCOME_TYPE, FAILURE_TYPE, COMMAND_HANDLE_TYPE}) { auto s = valueTypeName(t); vt("type " + s, parseValueType(s) == t && parseValueType(s.c_str()) == t && names.insert(s).second ? "" : "does not round trip"); for (size_t k = 0; k < s.size(); ++k) { string q = s; q[k] ^= 1; vt("type variant " + q, parseValueType(q) == UNKNOWN_TYPE ? "" : "accepted"); } }
    for (bool b : {false, true}) vt("Boolean", rt<Boolean>(b));
    for (auto &o : universe()) { Value v = mk(o); string s = v.valueToString(); std::ostringstream w; w << v; vt("stream form", w.str() == s ? "" : "differs from valueToString()");
      if (o.known && isA(o.t)) { string x = "#("; for (size_t k = 0; k < o.a.size(); ++k) x += (k ? " " : "") + (o.a[k].known ? mk(o.a[k]).valueToString() : string("UNKNOWN")); vt("array " + show(o), s == x + ")" ? "" : "printed as " + s); }
      if (o.known && o.t == STRING_TYPE) vt("string", s == o.s ? "" : "printed as " + s);
      if (o.known && o.t == BOOLEAN_TYPE) vt("boolean", s == (o.i ? "true" : "false") ? "" : "printed as " + s); }
    if (replay) return;
  }
  uint64_t idx = 0;
  { int lim = deep() ? 3000000 : 300000; for (int64_t c = -lim; c <= lim; c += 1000) if (H::mine(idx++)) { H::cell("PP", "I" + to_string(c)); for (int64_t x = c; x < c + 1000; ++x) for (int64_t y : {x, (int64_t)INT32_MAX - (x + lim), (int64_t)INT32_MIN + (x + lim)}) { st.executions++; std::ostringstream o; printValue<Integer>((Integer)y, o); if (o.str() != to_string(y) || !rt<Integer>((Integer)y).empty()) H::violate("PP integer", to_string(y) + ": " + o.str() + " " + rt<Integer>((Integer)y), "N"); } } }
  for (int e = -320; e <= 308; ++e) if (H::mine(idx++)) { H::cell("PP", "E" + to_string(e)); for (int m = 1; m < 1000; m += deep() ? 1 : 7) for (int sg : {1, -1}) { double r = sg * strtod((to_string(m) + "e" + to_string(e - 2)).c_str(), nullptr); st.executions++; if (std::isinf(r)) continue; std::ostringstream o; printValue<Real>(r, o); auto p = parse<Real>(o.str()); bool sub = std::fabs(r) < 2.3e-308; if (p.threw || !p.known || (!sub && p.v != r)) H::violate("PP real", o.str() + " of " + to_string(m) + "e" + to_string(e - 2) + " does not round trip", "N"); } }
  for (uint64_t b = 0; b < (deep() ? 4000000u : 200000u); b += 1000) if (H::mine(idx++)) { H::cell("PP", "B" + to_string(b)); for (uint64_t k = b; k < b + 1000; ++k) { uint64_t x = k * 0x9E3779B97F4A7C15ull; double r; memcpy(&r, &x, 8); if (!std::isfinite(r) || std::fabs(r) < 2.3e-308 || std::fabs(r) > 1.79e308) continue; st.executions++; string d = rt<Real>(r, true); if (!d.empty()) H::violate("PP real", to_string(r) + ": " + d, "N"); } }
  string al = deep() ? string("01789aexX.+- UTnf\t") : string("017ex.+- 9aU"); int len = deep() ? 5 : 4;
  for (int n = 0; n <= len; ++n) { uint64_t tot = 1; for (int k = 0; k < n; ++k) tot *= al.size(); for (uint64_t c = 0; c < tot; ++c) if (H::mine(idx++ / 256)) { string s; for (uint64_t k = 0, x = c; k < (uint64_t)n; ++k, x /= al.size()) s += al[x % al.size()]; if (c % 64 == 0) { if (H::full()) return; H::cell("PP", "L" + s); } literal(s); } }
  if (H::args.shard == 0) for (string s : {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "1e308", "1e309", "-1e309", "1.7976931348623157e308", "1.7976931348623159e308", "inf", "-inf", "INFINITY", "UNKNOWN", "unknown", "UNKNOWNX", "TRUE", "True", "tRuE", "FALSE", "False", "truex", "fals", "yes", "10", "00", "01", "2", "UNKNOWN ", "true ", " true", "1.5.5", "1e", "e1", "1e+", "--1", "0x", "0xg", "1,5", "1_000"}) { H::cell("PP", "L" + s); literal(s); }
}
// ---------------------------------------------------------------- time arithmetic
typedef __int128 i128;
template <class T> struct TX; template <> struct TX<timespec> { static const int64_t U = 1000000000; static int64_t sub(timespec const &t) { return t.tv_nsec; } static timespec mk(int64_t s, int64_t n) { timespec t; t.tv_sec = s; t.tv_nsec = n; return t; } static double toD(timespec const &t) { return timespecToDouble(t); } static timespec fromD(double d) { timespec a = doubleToTimespec(d), b; b.tv_sec = 99; b.tv_nsec = 99; doubleToTimespec(d, b); if (!(a == b)) a.tv_nsec = -99999999999; return a; } static string name() { return "timespec"; } };
template <> struct TX<timeval> { static const int64_t U = 1000000; static int64_t sub(timeval const &t) { return t.tv_usec; } static timeval mk(int64_t s, int64_t n) { timeval t; t.tv_sec = s; t.tv_usec = n; return t; } static double toD(timeval const &t) { return timevalToDouble(t); } static timeval fromD(double d) { timeval a = doubleToTimeval(d), b; b.tv_sec = 99; b.tv_usec = 99; doubleToTimeval(d, b); if (!(a == b)) a.tv_usec = -99999999; return a; } static string name() { return "timeval"; } };
template <class T> i128 tot(T const &t) { return (i128)t.tv_sec * TX<T>::U + TX<T>::sub(t); }
template <class T> bool normal(T const &t) { int64_t n = TX<T>::sub(t); return n < TX<T>::U && n > -TX<T>::U && !(t.tv_sec > 0 && n < 0) && !(t.tv_sec < 0 && n > 0); }
template <class T> string shT(T const &t) { return "(" + to_string(t.tv_sec) + "," + to_string(TX<T>::sub(t)) + ")"; }
template <class T> void tm(bool replay, string const &target, uint64_t &idx) {
  const int64_t U = TX<T>::U; vector<int64_t> subs; for (int64_t n : {(int64_t)0, (int64_t)1, (int64_t)2, U / 2 - 1, U / 2, U / 2 + 1, U - 2, U - 1, U / 3}) { subs.push_back(n); if (n) subs.push_back(-n); }
  vector<int64_t> secs; for (int64_t s : {0ll, 1ll, 2ll, 3ll, 59ll, 1000000ll, 2147483647ll, 2147483648ll, 1700000000ll, 4294967296ll, 1ll << 40, 1ll << 52}) { secs.push_back(s); if (s) secs.push_back(-s); }
  vector<T> u; for (int64_t s : secs) for (int64_t n : subs) { T t = TX<T>::mk(s, n); if (normal(t)) u.push_back(t); } int N = u.size();
  auto pair = [&](int i, int j) {
    H::cell("TM", TX<T>::name() + " p " + to_string(i) + " " + to_string(j)); st.executions++; st.evaluations += 5; T a = u[i], b = u[j]; string d; T p = a + b, m = a - b;
    if (!normal(p) || tot(p) != tot(a) + tot(b)) d += "sum " + shT(p) + "\n"; if (!normal(m) || tot(m) != tot(a) - tot(b)) d += "difference " + shT(m) + "\n";
    if ((a < b) != (tot(a) < tot(b)) || (a > b) != (tot(a) > tot(b)) || (a == b) != (tot(a) == tot(b))) d += "comparison\n"; if (!((p - b) == a)) d += "a + b - b is " + shT(p - b) + "\n"; double x = TX<T>::toD(a), y = TX<T>::toD(b); if (tot(a) < tot(b) ? x > y : tot(a) == tot(b) && x != y) d += "as reals the order differs\n";
    if (!d.empty()) H::violate("TM " + TX<T>::name() + " " + d.substr(0, 4), shT(a) + " and " + shT(b) + ":\n" + d, TX<T>::name() + " p " + to_string(i) + " " + to_string(j)); };
  auto dbl = [&](double v) { st.executions++; st.evaluations += 2; T t = TX<T>::fromD(v); string d; long double err = std::fabs(((long double)v - (long double)t.tv_sec) - (long double)TX<T>::sub(t) / U); if (!normal(t) || err > 1.0L / U * 1.000001L) d += "becomes " + shT(t) + "\n"; double back = TX<T>::toD(t); double ulp = std::fabs(v) * 2.3e-16; if (std::fabs(back - v) > 1.0 / U * 1.000001 + 2 * ulp) d += "returns as " + to_string(back) + "\n"; if (v == std::trunc(v) && (TX<T>::sub(t) || back != v)) d += "a whole number of seconds changes\n"; if (!d.empty()) { char b[64]; snprintf(b, 64, "%.17g", v); H::violate("TM " + TX<T>::name() + " real", string(b) + " " + d, TX<T>::name() + " d " + b); } };
  auto rnd = [&](T const &t) { st.executions++; st.evaluations += 2; double x = TX<T>::toD(t); T b = TX<T>::fromD(x); i128 diff = tot(b) - tot(t); if (diff < 0) diff = -diff; i128 tol = 1 + (i128)(std::fabs(x) * 2.3e-16 * U) ; long double exact = (long double)t.tv_sec + (long double)TX<T>::sub(t) / U; if (std::fabs((long double)x - exact) > std::fabs(exact) * 2.3e-16L * 1.5 + 1e-25L || diff > tol || !normal(b)) H::violate("TM " + TX<T>::name() + " round", shT(t) + " as real and back is " + shT(b), TX<T>::name() + " r " + to_string(t.tv_sec) + " " + to_string(TX<T>::sub(t))); };
  if (replay) { std::istringstream in(target); string nm, k; in >> nm >> k; if (nm != TX<T>::name()) return; if (k == "p") { int i, j; in >> i >> j; pair(i, j); } else if (k == "r") { int64_t s, n; in >> s >> n; rnd(TX<T>::mk(s, n)); } else { double v; in >> v; dbl(v); } return; }
  for (int i = 0; i < N; ++i) if (H::mine(idx++)) { if (H::full()) return; for (int j = 0; j < N; ++j) { pair(i, j); } H::distinct(shT(u[i])); }
  for (auto &t : u) if (H::mine(idx++)) rnd(t);
  for (int k = 0; k < 64; ++k) if (H::mine(idx++)) { H::cell("TM", TX<T>::name() + " d 0"); for (int s : {1, -1}) for (double base : {0.0, 1.0, 2.0, 1e3, 1e6, 1.7e9}) for (int f = 0; f < (deep() ? 20000 : 500); ++f) { dbl(s * (base + (k * 20000 + f * (deep() ? 1 : 40)) / (64 * 20000.0))); dbl(s * (base + (double)((k * 7919 + f * 104729) % U) / U)); rnd(TX<T>::mk(s * (int64_t)base, s * (((int64_t)k * 15625013 + (int64_t)f * 104729) % U))); } }
}
void tms(bool replay, string const &target) { uint64_t idx = 0; tm<timespec>(replay, target, idx); tm<timeval>(replay, target, idx); }
// ---------------------------------------------------------------- containers
struct Item { int key, id; Item *n = nullptr; Item *next() const { return n; } Item **nextPtr() { return &n; } bool operator<(Item const &o) const { return key < o.key; } };
struct ByKey { bool operator()(Item const &a, Item const &b) const { return a.key < b.key; } };
template <class Q> string qCheck(Q &q, vector<Item *> const &want, vector<Item> &items) {
  string d; vector<Item *> got, got2, got3; size_t guard = 0; for (auto it = q.begin(); it != q.end() && guard++ < 20; ++it) got.push_back(*it); Q const &c = q; guard = 0; for (auto it = c.begin(); it && guard++ < 20; it++) got2.push_back(const_cast<Item *>(*it)); guard = 0; for (Item *p = q.front(); p && guard++ < 20; p = p->next()) got3.push_back(p);
  auto s = [](vector<Item *> const &v) { string o; for (auto p : v) o += to_string(p->id); return o.empty() ? string("-") : o; };
  if (got != want || got2 != want || got3 != want) d += "holds " + s(got) + "/" + s(got2) + " instead of " + s(want) + "\n"; if (q.size() != want.size()) d += "size " + to_string(q.size()) + " instead of " + to_string(want.size()) + "\n"; if (q.empty() != want.empty()) d += "empty() wrong\n"; if (q.front() != (want.empty() ? nullptr : want[0])) d += "front wrong\n";
  for (auto &i : items) { bool in = std::find(want.begin(), want.end(), &i) != want.end(); if (!in && i.n) d += "removed item " + to_string(i.id) + " still points into the queue\n"; bool f = q.find_if([&](Item *x) { return x == &i; }) == &i; if (f != in) d += "find_if of item " + to_string(i.id) + " wrong\n"; }
  return d;
}
// The queue may be observed after every operation; what is compared is the abstract sequence.
struct LQ { LinkedQueue<Item> q; vector<Item> it; vector<Item *> m; string bad;
  LQ(int n) { for (int k = 0; k < n; ++k) it.push_back({0, k}); }
  bool step(string const &o) {
    auto pos = [&](Item *p) { return std::find(m.begin(), m.end(), p); }; Item *x = o.size() > 1 ? &it[o[1] - '0'] : nullptr;
    switch (o[0]) {
    case 'p': if (pos(x) != m.end()) return false; q.push(x); m.push_back(x); break;
    case 'o': q.pop(); if (!m.empty()) m.erase(m.begin()); break;
    case 'r': q.remove(x); if (pos(x) != m.end()) m.erase(pos(x)); break;
    case 'R': { Item *g = q.remove_if([&](Item *y) { return y == x; }); Item *w = nullptr; if (pos(x) != m.end()) { w = x; m.erase(pos(x)); } if (g != w) bad += "remove_if returned the wrong item\n"; break; }
    case 'F': { Item *g = q.remove_if([&](Item *y) { return y->id % 2 == 1; }); Item *w = nullptr; for (auto i = m.begin(); i != m.end(); ++i) if ((*i)->id % 2 == 1) { w = *i; m.erase(i); break; } if (g != w) bad += "remove_if returned the wrong item\n"; break; }
    case 'c': q.clear(); m.clear(); break;
    case 'i': { Item *y = &it[o[2] - '0']; if (x == y || pos(x) == m.end() || pos(y) != m.end()) return false; auto i = q.begin(); while (*i != x) ++i; auto r = q.insert_after(i, y); if (*r != y) bad += "insert_after returned the wrong position\n"; m.insert(pos(x) + 1, y); break; }
    case 'e': { if (pos(x) != m.end()) return false; q.insert_after(q.end(), x); m.push_back(x); break; } }
    bad += qCheck(q, m, it); return true; }
  static vector<string> ops(int n) { vector<string> v = {"o", "c", "F"}; for (int k = 0; k < n; ++k) { string s = to_string(k); v.push_back("p" + s); v.push_back("r" + s); v.push_back("R" + s); v.push_back("e" + s); for (int j = 0; j < n; ++j) if (j != k) v.push_back("i" + s + to_string(j)); } return v; } };
struct PQ { PriorityQueue<Item, ByKey> q; vector<Item> it; vector<Item *> m; string bad;
  PQ(int n) { int keys[] = {1, 0, 1, 0, 2}; for (int k = 0; k < n; ++k) it.push_back({keys[k], k}); }
  bool step(string const &o) {
    auto pos = [&](Item *p) { return std::find(m.begin(), m.end(), p); }; Item *x = o.size() > 1 ? &it[o[1] - '0'] : nullptr;
    switch (o[0]) {
    case 'p': { if (pos(x) != m.end()) return false; q.insert(x); auto i = m.begin(); while (i != m.end() && (*i)->key <= x->key) ++i; m.insert(i, x); break; }
    case 'o': q.pop(); if (!m.empty()) m.erase(m.begin()); break;
    case 'r': q.remove(x); if (pos(x) != m.end()) m.erase(pos(x)); break;
    case 'F': { int k = o[1] - '0'; Item *g = q.remove_if([&](Item *y) { return y->key == k; }); Item *w = nullptr; for (auto i = m.begin(); i != m.end(); ++i) if ((*i)->key == k) { w = *i; m.erase(i); break; } if (g != w) bad += "remove_if returned the wrong item\n"; break; }
    case 'c': q.clear(); m.clear(); break; }
    bad += qCheck(q, m, it); size_t fc = 0; while (fc < m.size() && m[fc]->key == m[0]->key) ++fc; if (q.front_count() != fc) bad += "front_count " + to_string(q.front_count()) + " instead of " + to_string(fc) + "\n"; return true; }
  static vector<string> ops(int n) { vector<string> v = {"o", "c", "F0", "F1", "F2"}; for (int k = 0; k < n; ++k) { v.push_back("p" + to_string(k)); v.push_back("r" + to_string(k)); } return v; } };
char const *const KEYS[] = {"", "a", "ab", "b", "B"};
struct SI { bool operator()(int const &a, long const &b) const { return a < b; } bool equal(int const &a, long const &b) const { return a == b; } bool match(int const &a, long const &b) const { return a == b; } };
struct N { int v; N(int x = 0) : v(x) {} operator int() const { return v; } };
struct SM { SimpleMap<int, N> q; SimpleMap<char const *, N, CStringComparator> c; SimpleMap<string, N> s; std::map<int, int> m; std::map<string, int> mc; string bad; int stamp = 0; std::unique_ptr<NodeVariableMap> up, nv; std::map<string, Expression *> mu, mv;
  SM(int) { up.reset(new NodeVariableMap()); nv.reset(new NodeVariableMap(up.get())); }
  bool step(string const &o) {
    int k = o.size() > 1 ? o[1] - '0' : 0; char tmp[8]; strcpy(tmp, KEYS[k]); ++stamp; Expression *e = (Expression *)(intptr_t)(0x1000 + stamp);
    switch (o[0]) {
    case 'i': { bool w = m.emplace(k, stamp).second; mc.emplace(KEYS[k], stamp); bool a = q.insert(k, stamp), b = c.insert(KEYS[k], stamp), d = s.insert(KEYS[k], stamp); if (a != w || b != w || d != w) bad += "insert returned the wrong value\n"; bool x = nv->insert(tmp, e), y = mv.emplace(KEYS[k], e).second; if (x != y) bad += "variable map insert\n"; break; }
    case '[': m[k] = stamp; mc[KEYS[k]] = stamp; q[k] = stamp; c[KEYS[k]] = stamp; s[KEYS[k]] = stamp; { bool x = up->insert(tmp, e), y = mu.emplace(KEYS[k], e).second; if (x != y) bad += "variable map insert\n"; } break;
    case 'g': q.grow(k * 3); c.grow(k); s.grow(2); nv->grow(k); break;
    case 'c': m.clear(); mc.clear(); q.clear(); c.clear(); s.clear(); nv->clear(); mv.clear(); break; }
    memset(tmp, 'z', 3);
    vector<std::pair<int, int>> g, w(m.begin(), m.end()); for (auto const &x : q) g.push_back(x); if (g != w || q.size() != w.size() || q.empty() != w.empty()) bad += "contents of the integer map differ\n";
    vector<std::pair<string, int>> g2, g3, w2(mc.begin(), mc.end()); for (auto const &x : c) g2.emplace_back(x.first, x.second); for (auto const &x : s) g3.push_back(x); if (g2 != w2 || g3 != w2) bad += "contents of a string map differ\n";
    auto const &cq = q; for (int j = -1; j < 6; ++j) { auto i = q.find(j); auto ci = cq.find(j); auto ii = q.find<long, SI>((long)j); bool in = m.count(j); if ((i != q.end()) != in || (ci != cq.end()) != in || (ii != q.end()) != in || (in && (i->second != m[j] || ci->second != m[j] || ii->second != m[j] || i->first != j)) || cq[j] != (in ? m[j] : 0)) bad += "find(" + to_string(j) + ") wrong\n"; }
    for (char const *n : {"", "a", "ab", "b", "B", "aa", "c"}) { char t2[8]; strcpy(t2, n); bool in = mc.count(n); auto i = c.find(t2); auto j = s.find(string(n)); auto l = s.find<char const *, CStringComparator>(t2); if ((i != c.end()) != in || (j != s.end()) != in || (l != s.end()) != in || (in && (i->second != mc[n] || j->second != mc[n] || l->second != mc[n]))) bad += string("find(\"") + n + "\") wrong\n";
      auto f = nv->find(t2); bool inv = mv.count(n); if ((f != nv->end()) != inv || (inv && f->second != mv[n])) bad += string("variable map find(\"") + n + "\") wrong\n"; Expression *x = inv ? mv[n] : mu.count(n) ? mu[n] : nullptr; if (nv->findVariable(t2) != x) bad += string("findVariable(\"") + n + "\") wrong\n"; if (up->findVariable(t2) != (mu.count(n) ? mu[n] : nullptr)) bad += string("findVariable(\"") + n + "\") in the parent wrong\n"; }
    if (nv->size() != mv.size() || nv->empty() != mv.empty() || up->size() != mu.size()) bad += "variable map size wrong\n"; return true; }
  static vector<string> ops(int n) { vector<string> v = {"c", "g1", "g4"}; for (int k = 0; k < n; ++k) { v.push_back("i" + to_string(k)); v.push_back("[" + to_string(k)); } return v; } };
struct SS { SimpleSet<int> q; SimpleSet<int, std::greater<int>> r; SimpleSet<string> s; std::set<int> m; std::set<string> mc; string bad; SS(int) : r(3) {}
  bool step(string const &o) {
    int k = o.size() > 1 ? o[1] - '0' : 0;
    switch (o[0]) {
    case 'i': { bool w = m.insert(k).second; mc.insert(KEYS[k]); bool a = q.insert(k), b = r.insert(k), c = s.insert(KEYS[k]); if (a != w || b != w || c != w) bad += "insert returned the wrong value\n"; break; }
    case 'e': { size_t w = m.erase(k); mc.erase(KEYS[k]); size_t a = q.erase(k), b = r.erase(k), c = s.erase(string(KEYS[k])); if (a != w || b != w || c != w) bad += "erase returned the wrong value\n"; break; }
    case 'x': { if (!m.count(k)) return false; m.erase(k); mc.erase(KEYS[k]); auto i = q.erase(q.find(k)); auto w = m.upper_bound(k); if ((i == q.end()) != (w == m.end()) || (w != m.end() && *i != *w)) bad += "erase(iterator) returned the wrong position\n"; r.erase((SimpleSet<int, std::greater<int>>::const_iterator)r.find(k)); s.erase(s.find(KEYS[k])); break; }
    case 'g': q.grow(k); r.grow(3); s.grow(k); break;
    case 'c': m.clear(); mc.clear(); q.clear(); r.clear(); s.clear(); break; }
    vector<int> g(q.begin(), q.end()), w(m.begin(), m.end()), h(r.begin(), r.end()), x(m.rbegin(), m.rend()); vector<string> gs(s.begin(), s.end()), ws(mc.begin(), mc.end()); SimpleSet<int> const &cq = q; vector<int> g2(cq.begin(), cq.end());
    if (g != w || h != x || gs != ws || g2 != w || q.size() != w.size() || q.empty() != w.empty()) bad += "contents differ\n";
    for (int j = -1; j < 6; ++j) { bool in = m.count(j); auto i = q.find(j); auto i2 = r.find(j); if ((i != q.end()) != in || (in && *i != j) || (i2 != r.end()) != in || q.contains(j) != in || r.contains(j) != in) bad += "find/contains(" + to_string(j) + ") wrong\n"; if (j >= 0 && j < 5 && (s.contains(KEYS[j]) != (bool)mc.count(KEYS[j]) || (s.find(KEYS[j]) != s.end()) != (bool)mc.count(KEYS[j]))) bad += "string set wrong\n"; }
    return true; }
  static vector<string> ops(int n) { vector<string> v = {"c", "g2"}; for (int k = 0; k < n; ++k) { v.push_back("i" + to_string(k)); v.push_back("e" + to_string(k)); v.push_back("x" + to_string(k)); } return v; } };
template <class S> bool seqRun(string const &name, int n, vector<string> const &p, int &failedAt) {
  S s(n); failedAt = -1; for (size_t k = 0; k < p.size(); ++k) { if (!s.step(p[k])) { failedAt = k; return false; } st.transitions++; if (!s.bad.empty()) { string t; vector<string> q(p.begin(), p.begin() + k + 1); string r = name + " " + to_string(n); for (auto &x : q) { t += " " + x; r += " " + x; } H::violate("CT " + name + " " + p[k].substr(0, 1), name + " of " + to_string(n) + ":" + t + "\n" + s.bad, r); failedAt = k; return false; } } return true;
}
// Every sequence of enabled operations up to the depth (extended at the end, so prefixes are not repeated).
template <class S> void seqAll(string const &name, int n, int depth, uint64_t &idx) {
  auto ops = S::ops(n); vector<size_t> d(depth, 0); H::note("CT " + name + ": all sequences of " + to_string(depth) + " operations out of " + to_string(ops.size()) + " over " + to_string(n) + " elements");
  for (;;) {
    bool m = H::mine(d[0] * ops.size() + (depth > 1 ? d[1] : 0) + idx); int at = -1; bool ok = true;
    if (m) { if (H::full()) return; if (H::timeUp()) { st.capped = true; return; } vector<string> p; for (auto k : d) p.push_back(ops[k]); if ((st.executions & 63) == 0) { string r = name + " " + to_string(n); for (auto &x : p) r += " " + x; H::cell("CT", r); } ok = seqRun<S>(name, n, p, at); st.executions++; if (ok) st.traces++; else st.skipped++; }
    int k = m ? (ok ? depth - 1 : at) : std::min(1, depth - 1); for (int j = k + 1; j < depth; ++j) d[j] = 0; while (k >= 0 && ++d[k] == ops.size()) d[k--] = 0; if (k < 0) break;
  }
  idx += 1000003;
}
// Breadth-first over abstract states with a larger element set: each operation from one representative history of each state.
template <class S> void bfs(string const &name, int n, std::function<string(S &)> abs, size_t cap) {
  if (H::args.shard != (int)(H::hash(name) % H::args.nshards)) return; auto ops = S::ops(n); std::set<string> seen; std::list<vector<string>> work = {{}}; { S s(n); seen.insert(abs(s)); }
  while (!work.empty()) { auto p = work.front(); work.pop_front(); st.states++; for (auto &o : ops) { auto q = p; q.push_back(o); int at; string r = name + " " + to_string(n); for (auto &x : q) r += " " + x; H::cell("CT", r); if (H::full()) return; if (!seqRun<S>(name, n, q, at)) { st.skipped++; continue; } S s(n); for (auto &x : q) s.step(x); st.executions++; if (seen.insert(abs(s)).second && seen.size() < cap) work.push_back(q); } }
  H::note("CT " + name + " over " + to_string(n) + " elements: " + to_string(seen.size()) + " abstract states, every operation from each"); for (auto &x : seen) H::distinct(name + x);
}
template <class Q> string absQ(Q &q) { string s; for (auto p : q.m) s += to_string(p->id); return s; }
void ct(bool replay, string const &target) {
  if (replay) { std::istringstream in(target); string nm; int n, at; in >> nm >> n; vector<string> p; string o; while (in >> o) p.push_back(o); if (nm == "queue") seqRun<LQ>(nm, n, p, at); else if (nm == "priority") seqRun<PQ>(nm, n, p, at); else if (nm == "map") seqRun<SM>(nm, n, p, at); else seqRun<SS>(nm, n, p, at); return; }
  uint64_t idx = 0; bool t = H::args.thorough;
  seqAll<LQ>("queue", 3, t ? 6 : 5, idx); seqAll<PQ>("priority", 4, t ? 8 : 6, idx); seqAll<SM>("map", 3, t ? 6 : 5, idx); seqAll<SS>("set", 3, t ? 7 : 5, idx);
  bfs<LQ>("queue", t ? 6 : 5, absQ<LQ>, 1u << 20); bfs<PQ>("priority", 5, absQ<PQ>, 1u << 20);
  bfs<SM>("map", 5, [](SM &s) { string o; for (auto &x : s.m) o += to_string(x.first); o += "|"; for (auto &x : s.mv) o += x.first + ","; o += "|"; for (auto &x : s.mu) o += x.first + ","; return o; }, t ? 40000 : 3000);
  bfs<SS>("set", 5, [](SS &s) { string o; for (auto &x : s.m) o += to_string(x); return o; }, 1u << 20);
}
}
int main(int argc, char **argv) {
  Error::doThrowExceptions(); PlanError::doThrowExceptions();
  vector<H::Family> f; auto add = [&](string n, void (*fn)(bool, string const &)) { f.push_back({n, [fn] { fn(false, ""); }, [fn](string const &b) { fn(true, b); }}); };
  add("VE", ve); add("VS", vs); add("SE", se); add("PP", pp); add("TM", tms); add("CT", ct);
  return H::run(argc, argv, f);
}
