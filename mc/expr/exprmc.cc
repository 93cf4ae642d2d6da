#include "oracle.hh"
#include <algorithm>
using H::st;
static string g_target; static bool g_replay = false; static uint64_t g_idx = 0;
// Each case has a textual description, which is also its replay key.
static bool want(string const &fam, string const &desc) {
  if (g_replay) return desc == g_target;
  if (!H::mine(g_idx++) || H::full()) return false;
  if (H::timeUp()) { st.capped = true; return false; }
  H::cell(fam, desc); st.executions++; return true;
}
static void bad(string const &kind, string const &desc, string const &text) { H::violate(kind, "case: " + desc + "\n" + text, desc); }
static string opsOf(string const &d) { return d.substr(0, d.find('(')); }
// Evaluate one expression against the oracle; err results may be a plan error or unknown.
static string judge(Expression *e, Res const &r) {
  st.evaluations++;
  if (r.err) {
    try { string s; Value v = e->toValue(); if (v.isKnown()) return "toValue() gives a value where an error or unknown is due\n"; } catch (PlanError const &) {}
    try { if (e->isKnown()) return "isKnown() is true where an error or unknown is due\n"; } catch (PlanError const &) {}
    return "";
  }
  try { return checkValue(e, r.t, r.v, r.odd); } catch (std::exception const &x) { return string("exception: ") + x.what() + "\n"; } catch (Error const &x) { return "exception\n"; }
}
static string asg(vector<string> const &n, vector<Ty> const &t, vector<Vl> const &v) { string o; for (size_t i = 0; i < n.size(); ++i) o += " " + n[i] + "=" + show(t[i], v[i]); return o; }
// One expression, evaluated for one assignment, both when activated afterwards and when changed into it.
static void evalCase(string const &fam, Env &env, AP a, ValueType w, Vars const &vars, std::map<string, Ty> const &tys, string const &desc, bool stale = false) {
  if (!want(fam, desc)) return;
  for (auto &p : vars) env.set(p.first, tys.at(p.first), p.second, stale);
  auto x = env.make(xml(a), w);
  if (!x->e) { bad(fam + " rejected " + opsOf(str(a)), desc, "the loader rejected " + xml(a) + "\n" + x->err); return; }
  x->on(); Res r = eval(a, vars, w); string d = judge(x->e, r);
  if (!d.empty()) bad(fam + " " + opsOf(str(a)), desc, xml(a) + "\nexpected " + show(r.t, r.v) + (r.odd ? " or unknown" : "") + ", got:\n" + d);
  H::distinct(str(a) + show(r.t, r.v));
}
// ---------------------------------------------------------------- C13
static Vl tf(int i) { return i == 0 ? B(true) : i == 1 ? B(false) : UN(); }
static const int P3[] = {1, 3, 9, 27, 81, 243, 729, 2187, 6561};
// Drive one expression through an assignment walk: every assignment, and from each every single-variable change.
static void walkLogic(string const &fam, Env &env, AP a, vector<string> const &vs, bool changes) {
  string desc = str(a); if (!want(fam, desc)) return;
  auto x = env.make(xml(a)); if (!x->e) { bad(fam + " rejected", desc, "loader: " + x->err); return; }
  for (auto &v : vs) env.set(v, TB, UN());
  x->on(); int n = vs.size(); Vars vars;
  for (int c = 0; c < P3[n]; ++c) {
    for (int i = 0; i < n; ++i) { vars[vs[i]] = tf(c / P3[i] % 3); env.set(vs[i], TB, vars[vs[i]]); }
    Res r = eval(a, vars); string d = judge(x->e, r); st.states++; if (c < 30) H::distinct(desc + show(r.t, r.v));
    if (!d.empty()) { vector<Vl> vv; for (auto &v : vs) vv.push_back(vars[v]); bad(fam + " " + opsOf(desc) + " " + to_string(a->k.size()), desc, xml(a) + "\noperands" + asg(vs, vector<Ty>(n, TB), vv) + "\nexpected " + show(r.t, r.v) + ", got:\n" + d); return; }
    if (changes) for (int i = 0; i < n; ++i) for (int q = 0; q < 3; ++q) {
      Vl old = vars[vs[i]], nw = tf(q); if (same(TB, old, nw)) continue;
      int before = x->spy.n; vars[vs[i]] = nw; env.set(vs[i], TB, nw); st.transitions++;
      Res r2 = eval(a, vars); string d2 = judge(x->e, r2);
      if (d2.empty() && !same(TB, r.v, r2.v) && x->spy.n == before) d2 = "listener was not notified of the change\n";
      if (!d2.empty()) { bad(fam + " change " + opsOf(desc) + " " + to_string(a->k.size()), desc, "after changing " + vs[i] + " to " + show(TB, nw) + ": expected " + show(r2.t, r2.v) + ", got:\n" + d2); return; }
      vars[vs[i]] = old; env.set(vs[i], TB, old);
    }
  }
}
static vector<std::pair<string, Ty>> bools(int n) { vector<std::pair<string, Ty>> d; for (int i = 0; i < n; ++i) d.push_back({"B" + to_string(i), TB}); return d; }
static void logic1() {
  Env env(bools(8)); int top = deep() ? 8 : 6;
  for (string op : {"AND", "OR", "XOR", "NOT", "IsKnown"}) for (int n = 1; n <= top; ++n) {
    if ((op == "NOT" || op == "IsKnown") && n > 1) continue;
    vector<AP> k; vector<string> vs; for (int i = 0; i < n; ++i) { vs.push_back("B" + to_string(i)); k.push_back(V(vs[i], TB)); }
    walkLogic("L1", env, Op(op, k), vs, n <= 6);
    // a literal (including UNKNOWN) in every position, a repeated operand, a negated operand
    for (int i = 0; i < n && n <= 5; ++i) { for (int q = 0; q < 3; ++q) { auto kk = k; kk[i] = Lit(TB, tf(q)); walkLogic("L1", env, Op(op, kk), vs, n <= 4); }
      auto kk = k; kk[i] = V(vs[(i + 1) % n], TB); walkLogic("L1", env, Op(op, kk), vs, n <= 4); kk[i] = Op("NOT", {V(vs[i], TB)}); walkLogic("L1", env, Op(op, kk), vs, n <= 4); kk[i] = Op("IsKnown", {V(vs[i], TB)}); walkLogic("L1", env, Op(op, kk), vs, n <= 4); }
  }
}
static void logic2() {   // two-level formulas over shared variables
  Env env(bools(3)); vector<string> vs = {"B0", "B1", "B2"}; auto L = [&](int i) { return i < 3 ? V(vs[i], TB) : i < 6 ? Op("NOT", {V(vs[i - 3], TB)}) : Op("IsKnown", {V(vs[i - 6], TB)}); };
  vector<string> ops = {"AND", "OR", "XOR"};
  int lim = deep() ? 9 : 4;
  for (auto &o : ops) for (auto &p : ops) for (auto &q : ops) for (int a = 0; a < lim; ++a) for (int b = 0; b < lim; ++b) for (int c = 0; c < lim; ++c) for (int d = 0; d < lim; ++d)
    walkLogic("L2", env, Op(o, {Op(p, {L(a), L(b)}), Op(q, {L(c), L(d)})}), vs, true);
  for (auto &o : ops) for (auto &p : ops) for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int c = 0; c < 3; ++c) for (int d = 0; d < 3; ++d)
    walkLogic("L2", env, Op(o, {L(a), Op("NOT", {Op(p, {L(b), L(c), L(d)})}), L(c)}), vs, true);
  for (auto &p : ops) for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (auto t : {"EQBoolean", "NEBoolean"})
    walkLogic("L2", env, Op(t, {Op(p, {L(a), L(b)}), L((a + b) % 3)}), vs, true);
}
// ---------------------------------------------------------------- C14
static vector<Vl> ints(bool small) { vector<Vl> v; for (int64_t x : small ? vector<int64_t>{INT32_MIN, -3, 0, 2, INT32_MAX} : vector<int64_t>{INT32_MIN, INT32_MIN + 1, -65536, -46341, -3, -2, -1, 0, 1, 2, 3, 7, 46340, 46341, 65536, 1073741824, INT32_MAX - 1, INT32_MAX}) v.push_back(I(x)); v.push_back(UN()); return v; }
static vector<Vl> reals(bool small) { vector<Vl> v; for (double x : small ? vector<double>{-2.5, -0.0, 0.5, 3, 1e308} : vector<double>{-1e308, -4294967296.5, -2147483649.0, -2147483648.5, -2147483648.0, -2147483647.5, -2.5, -1.5, -1, -0.5, -0.49999999999999994, -0.0, 0.0, 5e-324, 0.1, 0.49999999999999994, 0.5, 0.75, 1, 1.5, 2, 2.5, 3, 7.25, 2147483646.5, 2147483647.0, 2147483647.25, 2147483647.5, 2147483648.0, 4503599627370497.5, 9007199254740993.0, 1e18, 1e308}) v.push_back(R(x)); v.push_back(UN()); return v; }
static vector<Vl> valsOf(Ty t, bool small) {
  if (t == TI) return ints(small);
  if (isReal(t)) return reals(small);
  if (t == TB) return {B(true), B(false), UN()};
  if (t == TS) { vector<Vl> v; for (string s : {"", " ", "a", "ab", "b", "A", "aa", "UNKNOWN", "10", "9", "\xc3\xa9"}) v.push_back(S(s)); v.push_back(UN()); return v; }
  Ty e = elem(t); vector<Vl> el = e == TB ? vector<Vl>{B(true), B(false), UN()} : e == TI ? vector<Vl>{I(0), I(-5), UN()} : e == TR ? vector<Vl>{R(0), R(2.5), UN()} : vector<Vl>{S(""), S("x"), UN()};
  vector<Vl> v; v.push_back(UN()); v.push_back(A({})); for (auto &a : el) { v.push_back(A({a})); for (auto &b : el) { v.push_back(A({a, b})); if (!small) for (auto &c : el) v.push_back(A({a, b, c})); } } return v;
}
static const char *TN[] = {"B", "I", "R", "S", "BA", "IA", "RA", "SA", "", "", "", "", "D", "U"};
static vector<std::pair<string, Ty>> decls(int n) { vector<std::pair<string, Ty>> d; for (Ty t : {TB, TI, TR, TS, TBA, TIA, TRA, TSA}) for (int i = 0; i < n; ++i) d.push_back({TN[t] + to_string(i), t}); return d; }
static string vdesc(AP a, vector<string> const &n, vector<Ty> const &t, vector<Vl> const &v, int w = 0) { return str(a) + (w == 1 ? ":Integer" : w == 2 ? ":Real" : "") + asg(n, t, v); }
// One expression which stays active while its operands change: through every assignment in turn and backwards, each single change from each assignment, and each assignment after each other one (as far as the sizes allow).
static void walk(string const &fam, Env &env, AP a, vector<string> const &n, vector<Ty> const &t, vector<vector<Vl>> const &dom, int w, bool stale) {
  if (n.empty()) return;
  string desc = "walk " + vdesc(a, {}, {}, {}, w) + (stale ? " stale" : ""); uint64_t N = 1, sum = 0; for (auto &d : dom) { N *= d.size(); sum += d.size(); desc += " " + to_string(d.size()); }
  if (!want(fam, desc)) return;
  ValueType wt = w == 1 ? INTEGER_TYPE : w == 2 ? REAL_TYPE : UNKNOWN_TYPE; unique_ptr<Ex> x; Vars vars; vector<Vl> cur(n.size(), UN()); Res last; bool haveLast = false, failed = false; uint64_t budget = deep() ? 600000 : 60000;
  for (size_t i = 0; i < n.size(); ++i) { vars[n[i]] = UN(); env.set(n[i], t[i], UN()); }
  auto go = [&](vector<Vl> const &v) { // false: stop
    if (failed) return false;
    vector<Vl> from = cur; int before = x ? x->spy.n : 0; string d;
    for (size_t i = 0; i < n.size(); ++i) if (!same(t[i], cur[i], v[i])) { vars[n[i]] = cur[i] = v[i]; try { env.set(n[i], t[i], v[i], stale); } catch (PlanError const &) { x.reset(); haveLast = false; env.set(n[i], t[i], v[i], stale); } }
    Res r = eval(a, vars, wt); st.transitions++;
    if (!x) { x = env.make(xml(a), wt); if (!x->e) { x.reset(); failed = true; return false; } try { x->on(); } catch (PlanError const &) { if (!r.err) throw; x.reset(); haveLast = false; return true; } before = x->spy.n; haveLast = false; }
    d = judge(x->e, r);
    if (d.empty() && haveLast && !r.err && !r.odd && !same(r.t, last.v, r.v) && x->spy.n == before) d = "the listener was not notified of the change\n";
    if (!d.empty()) { failed = true; bad(fam + " change " + opsOf(str(a)) + (n.size() > 2 ? " " + to_string(n.size()) : ""), desc, xml(a) + "\nchanged from" + asg(n, t, from) + "\nto" + asg(n, t, v) + "\nexpected " + show(r.t, r.v) + ", got:\n" + d); return false; }
    if (r.err) { x.reset(); haveLast = false; } else { last = r; haveLast = !r.odd; }
    return true;
  };
  auto at = [&](uint64_t c) { vector<Vl> v; for (auto &d : dom) { v.push_back(d[c % d.size()]); c /= d.size(); } return v; };
  for (uint64_t c = 0; c < N; ++c) if (!go(at(c))) return;
  if (N * sum * 2 <= budget) { for (uint64_t c = 0; c < N; ++c) { auto v = at(c); for (size_t i = 0; i < n.size(); ++i) for (auto &q : dom[i]) { auto u = v; u[i] = q; if (!go(v) || !go(u)) return; } } }
  else for (uint64_t c = N; c-- > 0;) if (!go(at(c))) return;
  if (N * N * 2 <= budget) for (uint64_t c = 0; c < N; ++c) for (uint64_t e = 0; e < N; ++e) if (!go(at(c)) || !go(at(e))) return;
}
static void sweep(string const &fam, Env &env, AP a, vector<string> const &n, vector<Ty> const &t, vector<vector<Vl>> const &dom, int w = 0, bool stale = false) {
  vector<size_t> ix(n.size(), 0); std::map<string, Ty> tys; for (size_t i = 0; i < n.size(); ++i) tys[n[i]] = t[i];
  for (;;) {
    vector<Vl> v; Vars vars; for (size_t i = 0; i < n.size(); ++i) { v.push_back(dom[i][ix[i]]); vars[n[i]] = v.back(); }
    evalCase(fam, env, a, w == 1 ? INTEGER_TYPE : w == 2 ? REAL_TYPE : UNKNOWN_TYPE, vars, tys, vdesc(a, n, t, v, w), stale);
    size_t i = 0; while (i < n.size() && ++ix[i] == dom[i].size()) ix[i++] = 0;
    if (i == n.size()) break;
  }
  walk(fam, env, a, n, t, dom, w, stale);
}
static void arith() {
  Env env(decls(5)); auto nm = [](Ty t, int i) { return TN[t] + to_string(i); };
  vector<Ty> nums = {TI, TR};
  for (Ty t : {TI, TR}) {
    auto full = valsOf(t, false); if (t == TR) for (double x : {(double)INFINITY, (double)-INFINITY, (double)NAN}) full.push_back(R(x));
    for (string op : {"SQRT", "REAL_TO_INT", "CEIL", "FLOOR", "ROUND", "TRUNC"}) for (int w = 0; w < 3; ++w) sweep("A", env, Op(op, {V(nm(t, 0), t)}), {nm(t, 0)}, {t}, {full}, w);
    for (string op : {"ABS", "SUB", "ADD", "MUL", "MIN", "MAX"}) sweep("A", env, Op(op, {V(nm(t, 0), t)}), {nm(t, 0)}, {t}, {valsOf(t, false)});
  }
  for (string op : {"ADD", "SUB", "MUL", "DIV", "MOD", "MIN", "MAX"}) for (Ty t : nums) for (Ty u : nums) {
    string a = nm(t, 0), b = nm(u, 1); sweep("A", env, Op(op, {V(a, t), V(b, u)}), {a, b}, {t, u}, {valsOf(t, false), valsOf(u, false)});
    sweep("A", env, Op(op, {V(a, t), V(a, t)}), {a}, {t}, {valsOf(t, false)});
  }
  for (string op : {"ADD", "SUB", "MUL", "MIN", "MAX"}) for (int n = 3; n <= (deep() ? 5 : 4); ++n) for (int m = 0; m < (1 << n); ++m) {
    if (n == 5 && m != 0 && m != 31 && m != 1 && m != 16) continue;
    vector<AP> k; vector<string> ns; vector<Ty> ts; vector<vector<Vl>> dom; for (int i = 0; i < n; ++i) { Ty t = m >> i & 1 ? TR : TI; ns.push_back(nm(t, i)); ts.push_back(t); k.push_back(V(ns[i], t)); auto d = valsOf(t, true); if (n >= 4 && !deep()) d = t == TI ? vector<Vl>{I(INT32_MAX), I(-2), I(1), UN()} : vector<Vl>{R(0.5), R(-1e308), UN()}; dom.push_back(d); }
    sweep("A", env, Op(op, k), ns, ts, dom);
  }
  // nesting, and literals as operands
  vector<Vl> si = {I(INT32_MIN), I(-7), I(0), I(3), I(INT32_MAX), UN()}, sr = {R(-2.5), R(0), R(3), R(1e10), UN()};
  for (string p : {"ADD", "SUB", "MUL", "DIV", "MOD", "MIN", "MAX"}) for (string q : {"ADD", "SUB", "MUL", "DIV", "MOD", "MIN", "MAX"}) {
    sweep("A", env, Op(p, {Op(q, {V("I0", TI), V("I1", TI)}), V("I2", TI)}), {"I0", "I1", "I2"}, {TI, TI, TI}, {si, si, si});
    sweep("A", env, Op(p, {V("R0", TR), Op(q, {V("I0", TI), V("R1", TR)})}), {"R0", "I0", "R1"}, {TR, TI, TR}, {sr, si, sr});
    if (deep()) sweep("A", env, Op(p, {Op("ABS", {V("I0", TI)}), Op(q, {Op("REAL_TO_INT", {V("R1", TR)}), V("I2", TI)})}), {"I0", "R1", "I2"}, {TI, TR, TI}, {si, sr, si});
  }
  for (string op : {"ADD", "SUB", "MUL", "DIV", "MOD", "MIN", "MAX"}) for (auto &l : si) { sweep("A", env, Op(op, {V("I0", TI), Lit(TI, l)}), {"I0"}, {TI}, {ints(false)}); sweep("A", env, Op(op, {Lit(TI, l), V("R0", TR)}), {"R0"}, {TR}, {reals(false)}); }
}
// ---------------------------------------------------------------- C15
static void compare() {
  Env env(decls(2), "", "<StateDeclaration><Name>ld</Name><Return><Name>_r</Name><Type>Date</Type></Return></StateDeclaration><StateDeclaration><Name>lu</Name><Return><Name>_r</Name><Type>Duration</Type></Return></StateDeclaration><StateDeclaration><Name>me</Name><Return><Name>_r</Name><Type>Date</Type></Return></StateDeclaration><StateDeclaration><Name>mu</Name><Return><Name>_r</Name><Type>Duration</Type></Return></StateDeclaration><StateDeclaration><Name>mi</Name><Return><Name>_r</Name><Type>Integer</Type></Return></StateDeclaration><StateDeclaration><Name>mr</Name><Return><Name>_r</Name><Type>Real</Type></Return></StateDeclaration><StateDeclaration><Name>li</Name><Return><Name>_r</Name><Type>Integer</Type></Return></StateDeclaration><StateDeclaration><Name>ls</Name><Return><Name>_r</Name><Type>String</Type></Return></StateDeclaration><StateDeclaration><Name>lr</Name><Return><Name>_r</Name><Type>Real</Type></Return></StateDeclaration>");
  auto nm = [](Ty t, int i) { return TN[t] + to_string(i); };
  vector<string> ord = {"LT", "LE", "GT", "GE"};
  vector<Ty> nums = {TI, TR};
  for (Ty t : nums) for (Ty u : nums) {
    auto vt = valsOf(t, false), vu = valsOf(u, false); if (t == TR && u == TR) { vt.push_back(R(INFINITY)); vu.push_back(R(INFINITY)); vu.push_back(R(-INFINITY)); }
    for (string op : {"LT", "LE", "GT", "GE", "EQNumeric", "NENumeric"}) sweep("Q", env, Op(op, {V(nm(t, 0), t), V(nm(u, 1), u)}), {nm(t, 0), nm(u, 1)}, {t, u}, {vt, vu});
  }
  for (string op : {"LT", "LE", "GT", "GE", "EQString", "NEString"}) sweep("Q", env, Op(op, {V("S0", TS), V("S1", TS)}), {"S0", "S1"}, {TS, TS}, {valsOf(TS, false), valsOf(TS, false)});
  for (string op : {"EQBoolean", "NEBoolean"}) sweep("Q", env, Op(op, {V("B0", TB), V("B1", TB)}), {"B0", "B1"}, {TB, TB}, {valsOf(TB, false), valsOf(TB, false)});
  for (Ty t : {TBA, TIA, TRA, TSA}) for (string op : {"EQArray", "NEArray"}) { auto v = valsOf(t, !deep());
    sweep("Q", env, Op(op, {V(nm(t, 0), t), V(nm(t, 1), t)}), {nm(t, 0), nm(t, 1)}, {t, t}, {v, v});
    sweep("Q", env, Op(op, {V(nm(t, 0), t), V(nm(t, 1), t)}), {nm(t, 0), nm(t, 1)}, {t, t}, {v, v}, 0); }
  // unknown elements that once had a value
  for (Ty t : {TBA, TIA, TRA, TSA}) { auto v = valsOf(t, true); for (auto &x : v) for (auto &y : v) { bool holes = !y.known; for (auto &e : y.a) if (!e.known) holes = true; if (holes) continue; AP a = Op("EQArray", {V(nm(t, 0), t), Lit(t, y)});
    std::map<string, Ty> tys; tys[nm(t, 0)] = t; Vars vars; vars[nm(t, 0)] = x; evalCase("Q", env, a, UNKNOWN_TYPE, vars, tys, "stale " + vdesc(a, {nm(t, 0)}, {t}, {x}), true); } }
  // internal values are compared by identity
  vector<std::pair<string, vector<string>>> sets = {{"NodeStateValue", {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"}}, {"NodeOutcomeValue", {"SUCCESS", "FAILURE", "SKIPPED", "INTERRUPTED"}},
    {"NodeFailureValue", {"PRE_CONDITION_FAILED", "POST_CONDITION_FAILED", "INVARIANT_CONDITION_FAILED", "PARENT_FAILED", "EXITED", "PARENT_EXITED"}}, {"NodeCommandHandleValue", {"COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_SUCCESS", "COMMAND_ABORTED", "COMMAND_ABORT_FAILED", "COMMAND_INTERFACE_ERROR"}}};
  Ty kinds[] = {TNS, TNO, TNF, TCH}; int s = 0;
  for (auto &p : sets) { for (size_t i = 0; i < p.second.size(); ++i) for (size_t j = 0; j < p.second.size(); ++j) for (string op : {"EQInternal", "NEInternal"})
      sweep("Q", env, Op(op, {Raw(tagx(p.first, p.second[i]), kinds[s], I(i)), Raw(tagx(p.first, p.second[j]), kinds[s], I(j))}), {}, {}, {});
    ++s; }
  // lookups of declared type, known and unknown
  for (string l : {"me", "mu", "mi", "mr", "zz", "ld", "lu", "li", "lr", "lx"}) { bool never = l[0] != 'l'; Ty lt = l == "li" || l == "mi" ? TI : TR; /* m*: declared, never given a value; zz: neither; lx: not declared */ for (string op : {"EQNumeric", "NENumeric", "LT", "LE", "GT", "GE"}) for (int side = 0; side < 2; ++side) for (auto &w : lt == TI ? ints(true) : reals(true)) for (Ty t : nums) for (auto &x : valsOf(t, true)) {
      if (never && w.known) continue; env.world.clear(); env.world[State(l).toString()] = toReal(lt, w);
      AP lk = Raw(tagx("LookupNow", tagx("Name", "<StringValue>" + l + "</StringValue>")), lt, w), v = V(nm(t, 0), t), a = side ? Op(op, {v, lk}) : Op(op, {lk, v});
      StateCache::instance().incrementCycleCount();
      std::map<string, Ty> tys; tys[nm(t, 0)] = t; Vars vars; vars[nm(t, 0)] = x; evalCase("Q", env, a, UNKNOWN_TYPE, vars, tys, "lookup " + l + "=" + show(lt, w) + " " + vdesc(a, {nm(t, 0)}, {t}, {x})); } }
  for (string l : {"ls", "sx", "sz"}) for (string op : {"EQString", "NEString", "LT", "LE", "GT", "GE"}) for (int side = 0; side < 2; ++side) for (auto &w : valsOf(TS, true)) for (auto &x : valsOf(TS, true)) {
      if (l == "sz" && w.known) continue; env.world.clear(); if (w.known) env.world[State(l).toString()] = Value(w.s); else env.world[State(l).toString()] = Value();
      AP lk = Raw(tagx("LookupNow", tagx("Name", "<StringValue>" + l + "</StringValue>")), TS, w), v = V("S0", TS), a = side ? Op(op, {v, lk}) : Op(op, {lk, v});
      StateCache::instance().incrementCycleCount();
      std::map<string, Ty> tys; tys["S0"] = TS; Vars vars; vars["S0"] = x; evalCase("Q", env, a, UNKNOWN_TYPE, vars, tys, "lookup " + l + "=" + show(TS, w) + " " + vdesc(a, {"S0"}, {TS}, {x})); }
}
// ---------------------------------------------------------------- C18
static void strarr() {
  Env env(decls(6)); auto nm = [](Ty t, int i) { return TN[t] + to_string(i); };
  for (Ty t : {TBA, TIA, TRA, TSA}) for (string op : {"ArraySize", "ArrayMaxSize", "ALL_KNOWN", "ANY_KNOWN", "IsKnown"}) {
    auto v = valsOf(t, false); for (int n : {4, 8, 63, 64, 65, 127, 128, 200}) { for (int hole = -1; hole < n; hole += (n > 60 ? 31 : 1)) { vector<Vl> e; Vl x = valsOf(elem(t), true)[0]; for (int i = 0; i < n; ++i) e.push_back(i == hole ? UN() : x); v.push_back(A(e)); for (auto &y : e) y.known = !y.known; v.push_back(A(e)); } }
    sweep("K", env, Op(op, {V(nm(t, 0), t)}), {nm(t, 0)}, {t}, {v}); sweep("K", env, Op(op, {V(nm(t, 0), t)}), {nm(t, 0)}, {t}, {v}, 0, true);
    for (auto &x : v) { bool holes = !x.known; for (auto &e : x.a) if (!e.known) holes = true; if (!holes && x.a.size() < 5) sweep("K", env, Op(op, {Lit(t, x)}), {}, {}, {}); }
  }
  vector<Vl> s = valsOf(TS, false); s.push_back(S(string(300, 'z'))); s.push_back(S("a&b<c"));
  sweep("K", env, Op("STRLEN", {V("S0", TS)}), {"S0"}, {TS}, {s}); for (auto &x : s) if (x.known && x.s != "UNKNOWN") sweep("K", env, Op("STRLEN", {Lit(TS, x)}), {}, {}, {});
  vector<Vl> few = {S(""), S("a"), S("bc"), UN()};
  for (int n = 0; n <= (deep() ? 6 : 5); ++n) { vector<AP> k; vector<string> ns; vector<vector<Vl>> d; for (int i = 0; i < n; ++i) { ns.push_back(nm(TS, i)); k.push_back(V(ns[i], TS)); d.push_back(n <= 2 ? s : few); } sweep("K", env, Op("Concat", k), ns, vector<Ty>(n, TS), d); if (n) sweep("K", env, Op("STRLEN", {Op("Concat", k)}), ns, vector<Ty>(n, TS), d); }
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) { AP x = Op("Concat", {V(nm(TS, a), TS), Op("Concat", {V(nm(TS, b), TS), V(nm(TS, c), TS), Lit(TS, S("-"))}), V(nm(TS, a), TS)}); sweep("K", env, x, {"S0", "S1", "S2"}, {TS, TS, TS}, {few, few, few}); sweep("K", env, Op("EQString", {x, Op("Concat", {V(nm(TS, c), TS), V(nm(TS, b), TS)})}), {"S0", "S1", "S2"}, {TS, TS, TS}, {few, few, few}); }
}
void more(vector<H::Family> &); void lookups(vector<H::Family> &);
int main(int argc, char **argv) {
  vector<H::Family> f; typedef std::pair<string, void (*)()> P;
  for (auto &p : vector<P>{{"L1", logic1}, {"L2", logic2}, {"A", arith}, {"Q", compare}, {"K", strarr}}) {
    auto fn = p.second; f.push_back({p.first, fn, [fn](string const &b) { g_replay = true; g_target = b; while (!g_target.empty() && g_target.back() == '\n') g_target.pop_back(); fn(); }}); }
  more(f); lookups(f);
  return H::run(argc, argv, f);
}
