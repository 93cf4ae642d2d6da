// Histories of activations, listeners and value changes: EN (C16) and EV (C17).
#include "oracle.hh"
#include <deque>
#include <unordered_map>
using H::st;
// ---------------------------------------------------------------- EN: every change wakes every listener
namespace {
struct Src { string n; Ty t; Vl init; string initFrom; vector<Vl> vals; };
// B1 takes its initial value from B0; I0 and R0 have none; S0 and the array have literals.
vector<Src> const SRC = {{"B0", TB, B(true), "", {B(true), B(false), UN()}}, {"B1", TB, UN(), "B0", {B(true), B(false), UN()}}, {"I0", TI, I(1), "", {I(1), I(0), UN()}},
  {"R0", TR, UN(), "", {R(0.5), R(2), UN()}}, {"IA0", TIA, A({I(1), I(2)}), "", {A({I(1), I(2)}), A({UN(), I(2)}), UN()}}};
string srcDecl() {
  string d; for (auto &s : SRC) { string iv = !s.initFrom.empty() ? vx(s.initFrom, s.t) : s.init.known ? litx(s.t, s.init) : ""; string ty = s.t == TB ? "Boolean" : s.t == TR ? "Real" : "Integer";
    d += isArr(s.t) ? "<DeclareArray><Name>" + s.n + "</Name><Type>" + ty + "</Type><MaxSize>2</MaxSize>" : "<DeclareVariable><Name>" + s.n + "</Name><Type>" + ty + "</Type>";
    if (!iv.empty()) d += "<InitialValue>" + iv + "</InitialValue>"; d += isArr(s.t) ? "</DeclareArray>" : "</DeclareVariable>"; }
  return d;
}
AP v(int i) { return V(SRC[i].n, SRC[i].t); }
vector<AP> exprs() {
  AP b0 = v(0), b1 = v(1), i0 = v(2), r0 = v(3), a = v(4), one = Lit(TI, I(1));
  return {b0, b1, Op("NOT", {b0}), Op("IsKnown", {b1}), Op("AND", {b0, b1}), Op("OR", {b0, Op("AND", {b1, b0}), b1}), Op("LT", {i0, r0}), Op("GT", {Op("ADD", {i0, i0}), one}),
    Op("XOR", {Op("NOT", {b1}), Op("EQNumeric", {i0, one}), b1}), Op("EQNumeric", {Op("ArrayElement", {a, i0}), one}), Op("IsKnown", {Op("ArrayElement", {a, Op("SUB", {one, i0})})}), Op("ALL_KNOWN", {a}),
    Op("AND", {Op("OR", {b0, b1}), Op("OR", {b0, Op("IsKnown", {i0})}), Op("NOT", {Op("NOT", {b0})})})};
}
void occur(AP a, std::map<string, int> &n) { if (a->kind == 1) n[a->tag]++; for (auto &k : a->k) occur(k, n); }
struct MV { int own = 0; Vl v; };
struct NState { int act[2] = {0, 0}; bool lis[2] = {false, false}; vector<MV> mv; };
struct NModel {
  vector<AP> e; vector<int> used; vector<std::map<string, int>> occ; NState s;
  NModel(AP a, AP b) : e{a, b} { s.mv.resize(SRC.size()); std::map<string, int> all; for (auto &x : e) { std::map<string, int> m; occur(x, m); occ.push_back(m); for (auto &p : m) all[p.first]++; }
    if (all.count("B1")) all["B0"]++; for (size_t i = 0; i < SRC.size(); ++i) if (all.count(SRC[i].n)) used.push_back(i); }
  bool active(size_t i) const { auto &t = SRC[i]; if (s.mv[i].own) return true; for (int k = 0; k < 2; ++k) if (s.act[k] && occ[k].count(t.n)) return true;
    for (size_t j = 0; j < SRC.size(); ++j) if (SRC[j].initFrom == t.n && active(j)) return true; return false; }
  string key() const { string k; for (int i = 0; i < 2; ++i) k += to_string(s.act[i]) + (s.lis[i] ? "L" : "."); for (int i : used) k += "|" + to_string(s.mv[i].own) + (active(i) ? show(SRC[i].t, s.mv[i].v) : "-"); return k; }
  Vars vars() const { Vars r; for (size_t i = 0; i < SRC.size(); ++i) r[SRC[i].n] = active(i) ? s.mv[i].v : UN(); return r; }
  vector<string> ops() const { vector<string> o; for (int k = 0; k < 2; ++k) { string K = to_string(k); if (s.act[k] < 2) o.push_back("a" + K); if (s.act[k]) o.push_back("d" + K); o.push_back((s.lis[k] ? "u" : "l") + K); }
    for (int i : used) { string K = to_string(i); o.push_back(s.mv[i].own ? "D" + K : "A" + K); if (active(i)) for (size_t q = 0; q < SRC[i].vals.size(); ++q) if (!same(SRC[i].t, SRC[i].vals[q], s.mv[i].v)) o.push_back("s" + K + to_string(q)); } return o; }
  void apply(string const &o) {
    int k = o[1] - '0'; vector<bool> was; for (size_t i = 0; i < SRC.size(); ++i) was.push_back(active(i));
    switch (o[0]) { case 'a': s.act[k]++; break; case 'd': s.act[k]--; break; case 'l': s.lis[k] = true; break; case 'u': s.lis[k] = false; break; case 'A': s.mv[k].own = 1; break; case 'D': s.mv[k].own = 0; break; case 's': s.mv[k].v = SRC[k].vals[o[2] - '0']; break; }
    for (size_t i = 0; i < SRC.size(); ++i) if (active(i) && !was[i]) s.mv[i].v = SRC[i].initFrom.empty() ? SRC[i].init : UN();
    for (size_t i = 0; i < SRC.size(); ++i) if (active(i) && !was[i] && !SRC[i].initFrom.empty()) for (size_t j = 0; j < SRC.size(); ++j) if (SRC[j].n == SRC[i].initFrom) s.mv[i].v = s.mv[j].v;
  }
  Res value(int k) const { if (!s.act[k]) { Res r; r.t = TB; return r; } return eval(e[k], vars()); }
};
struct NRun {
  NModel m; Env env; unique_ptr<Ex> x[2]; vector<Expression *> var; string bad;
  NRun(AP a, AP b) : m(a, b), env({}, srcDecl()) { for (int k = 0; k < 2; ++k) x[k] = env.make(xml(m.e[k])); for (auto &s : SRC) var.push_back(env.node->findVariable(s.n.c_str())); if (!x[0]->e || !x[1]->e) bad = "loader rejected: " + x[0]->err + x[1]->err; }
  ~NRun() { for (int k = 0; k < 2; ++k) { for (int i = 0; i < m.s.act[k]; ++i) x[k]->e->deactivate(); if (m.s.lis[k]) x[k]->e->removeListener(&x[k]->spy); } for (size_t i = 0; i < var.size(); ++i) if (m.s.mv[i].own) var[i]->deactivate(); }
  void step(string const &o, bool check) {
    Res before[2]; int n[2]; for (int k = 0; k < 2; ++k) { before[k] = m.value(k); n[k] = x[k]->spy.n; }
    m.apply(o); int k = o[1] - '0';
    switch (o[0]) { case 'a': x[k]->e->activate(); break; case 'd': x[k]->e->deactivate(); break; case 'l': x[k]->e->addListener(&x[k]->spy); break; case 'u': x[k]->e->removeListener(&x[k]->spy); break;
      case 'A': var[k]->activate(); break; case 'D': var[k]->deactivate(); break;
      case 's': { Assignable *a = var[k]->asAssignable(); Vl const &w = m.s.mv[k].v; if (w.known) a->setValue(toReal(SRC[k].t, w)); else a->setUnknown(); } }
    st.transitions++; if (!check) return;
    for (int q = 0; q < 2; ++q) { Res r = m.value(q);
      if (m.s.act[q]) { string d; st.evaluations++; try { d = checkValue(x[q]->e, r.t, r.v); } catch (std::exception const &ex) { d = string("exception: ") + ex.what() + "\n"; } if (!d.empty()) bad += "expression " + to_string(q) + ": expected " + show(r.t, r.v) + ", got:\n" + d; 
        if (o[0] == 's' && m.s.lis[q] && !same(TB, before[q].v, r.v) && x[q]->spy.n == n[q]) bad += "expression " + to_string(q) + " changed from " + show(TB, before[q].v) + " to " + show(TB, r.v) + " and its listener was not notified\n"; }
      if (x[q]->spy.n != n[q] && !m.s.lis[q] && o[0] != 'u') bad += "expression " + to_string(q) + " notified a listener that had been removed\n"; }
    for (int i : m.used) { bool ac = m.active(i); if (var[i]->isActive() != ac) bad += SRC[i].n + (ac ? " is inactive but something uses it\n" : " is active but nothing uses it\n");
      if (ac) { string d; try { d = checkValue(var[i], SRC[i].t, m.s.mv[i].v); } catch (std::exception const &ex) { d = string("exception: ") + ex.what() + "\n"; } if (!d.empty()) bad += SRC[i].n + ": expected " + show(SRC[i].t, m.s.mv[i].v) + ", got:\n" + d; }
      else if (var[i]->isKnown()) bad += SRC[i].n + " has a value while inactive\n"; }
  }
};
string pathS(vector<string> const &p) { string o; for (auto &x : p) o += " " + x; return o; }
// Breadth-first over (model state, last operation); the implementation follows the path from a fresh plan.
void en(bool replay, string const &target) {
  auto E = exprs(); uint64_t idx = 0;
  if (replay) { std::istringstream in(target); size_t i, j; in >> i >> j; vector<string> p; string o; while (in >> o) p.push_back(o);
    NRun r(E[i], E[j]); for (auto &x : p) if (r.bad.empty()) r.step(x, true); if (!r.bad.empty()) H::violate("EN replay", xml(E[i]) + "\n" + xml(E[j]) + "\n" + r.bad, target); return; }
  for (size_t i = 0; i < E.size(); ++i) for (size_t j = i; j < E.size(); ++j) {
    if (!H::mine(idx++) || H::full()) continue; if (H::timeUp()) { st.capped = true; return; }
    string head = to_string(i) + " " + to_string(j); size_t cap = deep() ? 35000 : 2500; bool lastOp = deep();
    std::unordered_map<string, bool> seen; std::deque<vector<string>> q; q.push_back({}); seen["0"] = true; size_t states = 0; bool stop = false;
    while (!q.empty() && !stop) {
      auto p = q.front(); q.pop_front(); ++states; NModel m(E[i], E[j]); for (auto &o : p) m.apply(o);
      for (auto &o : m.ops()) {
        H::cell("EN", head + pathS(p) + " " + o); NRun r(E[i], E[j]); st.executions++; for (auto &x : p) r.step(x, false); if (r.bad.empty()) r.step(o, true);
        if (!r.bad.empty()) { auto full = p; full.push_back(o); H::violate("EN " + str(E[i]) + " " + str(E[j]) + " " + o.substr(0, 1), xml(E[i]) + "\n" + xml(E[j]) + "\noperations" + pathS(full) + "\n" + r.bad, head + pathS(full)); stop = true; break; }
        string k = r.m.key() + (lastOp ? o : ""); if (seen.size() < cap && seen.emplace(k, true).second) { auto f = p; f.push_back(o); q.push_back(f); }
      }
    }
    if (seen.size() >= cap) st.counters["pairs cut at the state bound"]++; else st.counters["pairs explored completely"]++;
    st.states += states; H::distinct(head);
  }
}
// ---------------------------------------------------------------- EV: arrays of optional values
Ty const ET[] = {TBA, TIA, TRA, TSA};
Vl ev(Ty e, int k) { switch (e) { case TB: return B(k == 1); case TI: return I(k == 1 ? 5 : -1); case TR: return R(k == 1 ? 2.5 : 0); default: return S(k == 1 ? "x" : ""); } }
struct AModel { Vl a, c, sa; bool saved = false, msaved = false; size_t midx = 0; Vl mval; Vl i; bool on = true; };
struct ARun {
  Ty t, e; bool init; AModel m; Env env; unique_ptr<Ex> mref; vector<unique_ptr<Ex>> obs; vector<AP> ast; Expression *a, *c, *ix; string bad;
  static string decl(Ty t, bool init) { Ty e = elem(t); string n = e == TB ? "Boolean" : e == TI ? "Integer" : e == TR ? "Real" : "String";
    return "<DeclareArray><Name>a</Name><Type>" + n + "</Type><MaxSize>2</MaxSize>" + (init ? "<InitialValue>" + litx(t, A({ev(e, 1)})) + "</InitialValue>" : "") + "</DeclareArray><DeclareArray><Name>c</Name><Type>" + n + "</Type><InitialValue>" + litx(t, A({ev(e, 0), ev(e, 1)})) + "</InitialValue></DeclareArray><DeclareVariable><Name>i</Name><Type>Integer</Type><InitialValue><IntegerValue>0</IntegerValue></InitialValue></DeclareVariable>"; }
  void fresh() { m.a = init ? A({ev(e, 1), UN()}) : A({UN(), UN()}); }
  ARun(Ty t, bool init) : t(t), e(elem(t)), init(init), env({}, decl(t, init)) {
    a = env.node->findVariable("a"); c = env.node->findVariable("c"); ix = env.node->findVariable("i"); c->activate(); ix->activate(); a->activate(); fresh(); m.c = A({ev(e, 0), ev(e, 1)}); m.i = I(0);
    mref = env.make(xml(Op("ArrayElement", {V("a", t), V("i", TI)})), UNKNOWN_TYPE, true); AP A_ = V("a", t), i_ = V("i", TI);
    ast = {Op("ArrayElement", {A_, Lit(TI, I(0))}), Op("ArrayElement", {A_, Lit(TI, I(1))}), Op("ArrayElement", {A_, i_}), A_, Op("ALL_KNOWN", {A_}), Op("ArraySize", {A_}), Op("EQArray", {A_, V("c", t)}), Op("IsKnown", {Op("ArrayElement", {A_, Lit(TI, I(1))})})};
    for (auto &x : ast) { obs.push_back(env.make(xml(x))); if (!obs.back()->e) { bad = "loader rejected " + xml(x) + obs.back()->err; return; } }
    if (!mref->e) { bad = "loader rejected the element reference " + mref->err; return; }
    for (auto &x : obs) { x->e->addListener(&x->spy); x->e->activate(); } mref->e->activate();
  }
  ~ARun() { if (m.on) off(); for (auto &x : obs) x->e->removeListener(&x->spy); c->deactivate(); ix->deactivate(); }
  void off() { for (auto &x : obs) x->e->deactivate(); mref->e->deactivate(); a->deactivate(); }
  Vars vars() { Vars v; v["a"] = m.a; v["c"] = m.c; v["i"] = m.i; return v; }
  bool inRange() { return m.i.known && m.i.i >= 0 && m.i.i < 2; }
  static vector<string> ops() { return {"i0", "i1", "i2", "i-", "i?", "e0", "e1", "e?", "eU", "es", "er", "aA", "aB", "aC", "a?", "aU", "as", "ar", "cy", "ca"}; }
  bool allowed(string const &o) { if (o == "er" && !m.msaved) return false; if (o == "es" && m.i.known && !inRange()) return false; if (o == "ar" && !m.saved) return false; return true; }
  void step(string const &o) {
    Assignable *av = a->asAssignable(), *mv = mref->e->asAssignable(); vector<Res> was; vector<int> n; for (size_t k = 0; k < ast.size(); ++k) { was.push_back(eval(ast[k], vars())); n.push_back(obs[k]->spy.n); }
    bool mayThrow = false, threw = false; auto guard = [&](std::function<void()> f) { try { f(); } catch (PlanError const &) { threw = true; } catch (Error const &) { threw = true; } };
    if (o[0] == 'i') { m.i = o == "i0" ? I(0) : o == "i1" ? I(1) : o == "i2" ? I(2) : o == "i-" ? I(-1) : UN(); if (m.i.known) ix->asAssignable()->setValue(Value((Integer)m.i.i)); else ix->asAssignable()->setUnknown(); }
    else if (o[0] == 'e' && (o[1] == '0' || o[1] == '1' || o[1] == '?' || o[1] == 'U')) {
      Vl nv = o == "e0" ? ev(e, 0) : o == "e1" ? ev(e, 1) : UN(); size_t at; bool ok = m.a.known; if (m.msaved) at = m.midx; else { if (!inRange()) { ok = false; mayThrow = true; } at = inRange() ? m.i.i : 0; }
      if (ok) m.a.a[at] = nv; guard([&] { if (o[1] == 'U') mv->setUnknown(); else mv->setValue(toReal(e, nv)); }); }
    else if (o == "es") { m.msaved = m.a.known && inRange(); if (m.msaved) { m.midx = m.i.i; m.mval = m.a.a[m.midx]; } mayThrow = !inRange(); guard([&] { mv->saveCurrentValue(); }); }
    else if (o == "er") { if (m.a.known) m.a.a[m.midx] = m.mval; mv->restoreSavedValue(); }
    else if (o == "aA") { m.a = A({ev(e, 0), UN()}); av->setValue(toReal(t, A({ev(e, 0)}))); }
    else if (o == "aB") { m.a = A({UN(), ev(e, 1)}); av->setValue(toReal(t, m.a, true)); }
    else if (o == "aC") { m.a = m.c; m.a.a.resize(2); av->setValue(c->toValue()); }
    else if (o == "a?") { m.a = UN(); av->setValue(Value()); }
    else if (o == "aU") { m.a = UN(); av->setUnknown(); }
    else if (o == "as") { m.sa = m.a; m.saved = true; av->saveCurrentValue(); }
    else if (o == "ar") { m.a = m.sa; av->restoreSavedValue(); }
    else if (o == "cy") { off(); if (a->isActive() || a->isKnown()) bad += "deactivated array is still active or known\n"; a->activate(); for (auto &x : obs) x->e->activate(); mref->e->activate(); fresh(); m.msaved = false; }
    else if (o == "ca") { Vl w = same(t, m.c, A({ev(e, 0), ev(e, 1)})) ? A({ev(e, 1)}) : A({ev(e, 0), ev(e, 1)}); m.c = w; c->asAssignable()->setValue(toReal(t, w)); }
    st.transitions++;
    if (threw && !mayThrow) bad += "unexpected error from " + o + "\n";
    for (size_t k = 0; k < ast.size(); ++k) {
      Res r = eval(ast[k], vars()); st.evaluations++; string d;
      if (r.err) { try { if (obs[k]->e->toValue().isKnown() || obs[k]->e->isKnown()) d = "has a value although the index is out of range\n"; } catch (PlanError const &) {} catch (Error const &) {} }
      else try { d = checkValue(obs[k]->e, r.t, r.v); } catch (std::exception const &x) { d = string("exception: ") + x.what() + "\n"; }
      if (!d.empty()) bad += str(ast[k]) + ": expected " + (r.err ? "an error or unknown" : show(r.t, r.v)) + ", got:\n" + d;
      if (o != "cy" && !r.err && !was[k].err && !same(r.t, r.v, was[k].v) && obs[k]->spy.n == n[k]) bad += str(ast[k]) + " changed from " + show(r.t, was[k].v) + " to " + show(r.t, r.v) + " and its listener was not notified\n";
    }
    if (m.msaved) { bool ok; Vl g = fromReal(e, mv->getSavedValue(), ok); if (!ok || !same(e, g, m.mval)) bad += "saved element value is " + show(e, g) + ", expected " + show(e, m.mval) + "\n"; }
    if (m.saved) { bool ok; Vl g = fromReal(t, av->getSavedValue(), ok); if (!ok || !same(t, g, m.sa)) bad += "saved array value is " + show(t, g) + ", expected " + show(t, m.sa) + "\n"; }
  }
};
void evRun(string const &head, Ty t, bool init, vector<string> const &p) {
  H::cell("EV", head + pathS(p)); ARun r(t, init); st.executions++;
  for (size_t k = 0; k < p.size() && r.bad.empty(); ++k) { if (!r.allowed(p[k])) { st.skipped++; return; } r.step(p[k]); if (!r.bad.empty()) { vector<string> q(p.begin(), p.begin() + k + 1); H::violate("EV " + p[k], "element type " + to_string(t) + (init ? ", with" : ", without") + " initial value; operations" + pathS(q) + "\n" + r.bad, head + pathS(q)); return; } }
  if (!r.bad.empty()) H::violate("EV setup", r.bad, head + pathS(p));
}
void evs(bool replay, string const &target) {
  if (replay) { std::istringstream in(target); int t, i; in >> t >> i; vector<string> p; string o; while (in >> o) p.push_back(o); evRun(to_string(t) + " " + to_string(i), (Ty)t, i, p); return; }
  auto ops = ARun::ops(); uint64_t idx = 0;
  for (Ty t : ET) for (int init = 0; init < 2; ++init) {
    int depth = deep() ? (t == TIA || t == TSA ? 5 : 4) : t == TIA ? 4 : 3; string head = to_string((int)t) + " " + to_string(init); vector<size_t> d(depth, 0);
    for (;;) {
      if (H::mine(idx++)) { if (H::full()) return; if (H::timeUp()) { st.capped = true; return; } vector<string> p; for (auto k : d) p.push_back(ops[k]); evRun(head, t, init, p); H::distinct(pathS(p)); }
      int k = depth - 1; while (k >= 0 && ++d[k] == ops.size()) d[k--] = 0; if (k < 0) break;
    }
  }
}
}
void more(vector<H::Family> &f) {
  f.push_back({"EN", [] { en(false, ""); }, [](string const &b) { en(true, b); }});
  f.push_back({"EV", [] { evs(false, ""); }, [](string const &b) { evs(true, b); }});
}
