// LK: lookups and change lookups against an abstract state cache.
#include "env.hh"
using namespace H;
namespace {
typedef std::pair<string, string> Sk;                 // state: name ("A"/"B"/"T") and argument ("", "1", "2")
struct Ls { string name, arg, tol; bool change = false; };   // name/arg/tol: "A" literal, "$n" variable, "@1" the value of lookup 1
struct Cfg { string id; Ty t; vector<Ls> l; vector<string> ops; bool tolReal; vector<bool> start; };
vector<Vl> valsOf(Ty t) {
  switch (t) {
  case TB: return {B(false), B(true)}; case TI: return {I(1), I(2), I(5)}; case TR: return {R(1), R(1.5), R(4)}; case TS: return {S(""), S("x")};
  case TBA: return {A({B(true), UN()}), A({})}; case TIA: return {A({I(1), UN()}), A({UN(), I(1)})}; case TRA: return {A({R(1.5)}), A({R(1.5), UN()})}; default: return {A({S("a")}), A({UN()})}; }
}
struct LEnv : public Env {
  vector<State> asked; std::function<Value(State const &)> answer; bool typed = false; int sets = 0;
  struct Th { bool on = false, isInt = false; double hi = 0, lo = 0; }; std::map<State, Th> th;
  LEnv(vector<std::pair<string, Ty>> const &d) : Env(d) {}
  template <typename T> static bool give(Value const &v, LookupReceiver *r) { T x; if (!v.getValue(x)) return false; r->update(x); return true; }
  template <typename T> static void giveA(Value const &v, LookupReceiver *r) { ArrayImpl<T> const *a; v.getValuePointer(a); size_t n = a->size(); for (size_t i = 0; i < n; ++i) if (!a->elementKnown(i)) { r->update(v); return; } T *p = new T[n + 1]; for (size_t i = 0; i < n; ++i) { T x; a->getElement(i, x); p[i] = x; } r->update((T const *)p, n); delete[] p; }
  void lookupNow(State const &s, LookupReceiver *r) override {
    asked.push_back(s); Value v = answer(s); if (!v.isKnown()) { r->setUnknown(); return; }
    if (!typed) { r->update(v); return; }
    switch (v.valueType()) { case BOOLEAN_TYPE: give<Boolean>(v, r); break; case INTEGER_TYPE: give<Integer>(v, r); break; case REAL_TYPE: give<Real>(v, r); break; case STRING_TYPE: give<String>(v, r); break;
    case BOOLEAN_ARRAY_TYPE: giveA<Boolean>(v, r); break; case INTEGER_ARRAY_TYPE: giveA<Integer>(v, r); break; case REAL_ARRAY_TYPE: giveA<Real>(v, r); break; default: giveA<String>(v, r); }
  }
  void setThresholds(const State &s, Real h, Real l) override { th[s] = {true, false, h, l}; ++sets; }
  void setThresholds(const State &s, Integer h, Integer l) override { th[s] = {true, true, (double)h, (double)l}; ++sets; }
  void clearThresholds(const State &s) override { th[s] = Th(); }
};
struct MState { Vl v; bool fresh = false; };
struct MLook { bool on = false; bool has = false; Sk at; Vl shown; };
uint64_t seqno = 0;
struct Run {
  Cfg const &c; LEnv &e; string tagA; vector<unique_ptr<Ex>> ex; std::map<Sk, MState> st; std::map<Sk, Vl> world; vector<MLook> m; vector<Sk> wantAsk; string bad;
  Vl n = S("A"), p = I(1), t; bool typed;
  string real(string const &nm) { return nm + tagA; }
  State state(Sk const &k) { string nm = real(k.first); return k.second.empty() ? State(nm) : State(nm, Value((Integer)atoi(k.second.c_str()))); }
  Ty typeOf(Sk const &k) { return k.first == "T" ? (c.tolReal ? TR : TI) : c.t; }
  string xmlOf(int k) {
    Ls const &l = c.l[k]; auto ref = [&](string const &r, bool name) -> string { if (r[0] == '@') return xmlOf(atoi(r.c_str() + 1)); if (r[0] == '$') return vx(r.substr(1), r == "$n" ? TS : r == "$t" && c.tolReal ? TR : TI); return name ? litx(TS, S(real(r))) : litx(r.find('.') != string::npos ? TR : TI, r.find('.') != string::npos ? R(atof(r.c_str())) : I(atoi(r.c_str()))); };
    string b = tagx("Name", ref(l.name, true)); if (!l.tol.empty()) b += tagx("Tolerance", ref(l.tol, false)); if (!l.arg.empty()) b += tagx("Arguments", ref(l.arg, false));
    return tagx(l.change ? "LookupOnChange" : "LookupNow", b);
  }
  Run(Cfg const &cc, LEnv &ee, bool ty) : c(cc), e(ee), typed(ty) {
    tagA = "_" + to_string(++seqno); e.asked.clear(); e.th.clear(); e.typed = ty; m.resize(c.l.size());
    e.answer = [this](State const &s) { for (auto &w : world) if (state(w.first) == s) return toReal(typeOf(w.first), w.second, true); return Value(); };
    t = c.tolReal ? R(2) : I(2);
    e.set("n", TS, S(real("A"))); e.set("p", TI, p); e.set("t", c.tolReal ? TR : TI, t);
    e.exec->setDispatcher(&e);
    for (size_t k = 0; k < c.l.size(); ++k) { ex.push_back(e.make(xmlOf(k))); if (!ex[k]->e) { bad = "not loaded: " + xmlOf(k) + ": " + ex[k]->err; return; } ex[k]->e->addListener(&ex[k]->spy); ex[k]->listening = true; }
    for (size_t k = 0; k < c.l.size(); ++k) if (c.start[k]) on(k);
    check("start");
  }
  // ---- model ----
  Vl val(string const &r, int own) {                       // value of an operand, for active lookups
    if (r == "$n") return n; if (r == "$p") return p; if (r == "$t") return t;
    if (r[0] == '@') return inner[{own, atoi(r.c_str() + 1)}].shown;
    if (r.find('.') != string::npos) return R(atof(r.c_str())); if (isdigit(r[0]) || r[0] == '-') return I(atoi(r.c_str())); return S(r);
  }
  std::map<std::pair<int, int>, MLook> inner;        // (owner, k): the copy of lookup k inside lookup owner
  bool denote(Ls const &l, int own, Sk &k) { Vl a = val(l.name, own); if (!a.known) return false; k.first = a.s; size_t q = k.first.find(tagA); if (q != string::npos) k.first.resize(q); k.second = ""; if (!l.arg.empty()) { Vl b = val(l.arg, own); if (!b.known) return false; k.second = to_string(b.i); } return true; }
  bool within(Ls const &l, int own, Vl const &shown, Vl const &now) {
    Vl tv = val(l.tol, own); if (!tv.known) return false; if (!shown.known || !now.known) return shown.known == now.known; double tol = fabs(tv.r); return fabs(now.r - shown.r) < tol; }
  void ask(Sk const &k) { MState &s = st[k]; if (!s.fresh) { wantAsk.push_back(k); s.fresh = true; auto w = world.find(k); s.v = w == world.end() ? UN() : w->second; } }
  void settleOne(int kk, int own, MLook &x) {
    Ls const &l = c.l[kk]; Sk k; bool d = x.on && denote(l, own, k);
    if (!d) { x.has = false; x.shown = UN(); return; }
    if (!x.has || x.at != k) { x.has = true; x.at = k; ask(k); x.shown = st[k].v; return; }
    Vl now = st[k].v; if (l.tol.empty() || !within(l, own, x.shown, now)) x.shown = now;
  }
  void settle() { for (int pass = 0; pass < 4; ++pass) { for (auto &q : inner) settleOne(q.first.second, q.first.first, q.second); for (size_t k = 0; k < m.size(); ++k) settleOne(k, k, m[k]); } }
  // ---- operations ----
  void on(int k) { ex[k]->e->activate(); ex[k]->act++; m[k].on = true; for (string const &r : {c.l[k].name, c.l[k].arg, c.l[k].tol}) if (!r.empty() && r[0] == '@') inner[{k, atoi(r.c_str() + 1)}].on = true; }
  void off(int k) { ex[k]->e->deactivate(); ex[k]->act--; m[k].on = false; for (string const &r : {c.l[k].name, c.l[k].arg, c.l[k].tol}) if (!r.empty() && r[0] == '@') inner[{k, atoi(r.c_str() + 1)}].on = false; }
  bool allowed(string const &o) { if (o[0] == '+') return !m[o[1] - '0'].on; if (o[0] == '-') return m[o[1] - '0'].on; if (o[0] == 'n') return n.known ? n.s != o.substr(1) : o != "n?"; return true; }
  Vl pick(Ty q, string const &w) { if (w == "?") return UN(); if (w[0] == 'n') return S(real(w.substr(1))); if (q == TI && w[0] == '#') return I(atoi(w.c_str() + 1)); if (w[0] == '#') return R(atof(w.c_str() + 1)); return valsOf(q)[atoi(w.c_str())]; }
  void step(string const &o) {                   // rA1=v report, wA1=v handler value, nA, p1, t3, +0, -0, c (next cycle)
    vector<Vl> was; vector<int> seen; vector<bool> wasOn; for (size_t k = 0; k < m.size(); ++k) { was.push_back(m[k].shown); seen.push_back(ex[k]->spy.n); wasOn.push_back(m[k].on); }
    e.asked.clear(); wantAsk.clear(); st_();
    if (o[0] == 'r' || o[0] == 'w' || o[0] == 'x') { size_t q = std::min(o.find('='), o.size()); Sk k(o.substr(1, 1), o.substr(2, q - 2)); Ty ty = typeOf(k); Vl v = o[0] == 'x' ? UN() : pick(ty, o.substr(q + 1)); if (o[0] == 'w') world[k] = v; else { st[k].v = v; st[k].fresh = true; StateCache &sc = StateCache::instance(); if (o[0] == 'r') sc.lookupReturn(state(k), toReal(ty, v)); else sc.getLookupReceiver(state(k))->setUnknown(); } }
    else if (o[0] == 'n') { n = o == "n?" ? UN() : S(o.substr(1)); e.set("n", TS, n.known ? S(real(n.s)) : UN()); }
    else if (o[0] == 'p') { p = o == "p?" ? UN() : I(atoi(o.c_str() + 1)); e.set("p", TI, p); }
    else if (o[0] == 't') { t = o == "t?" ? UN() : c.tolReal ? R(atof(o.c_str() + 1)) : I(atoi(o.c_str() + 1)); e.set("t", c.tolReal ? TR : TI, t); }
    else if (o[0] == '+') on(o[1] - '0'); else if (o[0] == '-') off(o[1] - '0');
    else if (o == "c") { StateCache::instance().incrementCycleCount(); for (auto &s : st) s.second.fresh = false; }
    check(o);
    for (size_t k = 0; k < m.size(); ++k) if (wasOn[k] && m[k].on && !same(typeOf(m[k].at), was[k], m[k].shown) && ex[k]->spy.n == seen[k]) bad += "lookup " + to_string(k) + " changed from " + show(c.t, was[k]) + " to " + show(c.t, m[k].shown) + " and its listener was not notified\n";
  }
  void st_() { H::st.transitions++; }
  void check(string const &o) {
    settle();
    for (size_t k = 0; k < m.size(); ++k) { string d; H::st.evaluations++; try { d = checkValue(ex[k]->e, c.l[k].name == "T" ? (c.tolReal ? TR : TI) : c.t, m[k].shown); } catch (std::exception const &x) { d = string("exception: ") + x.what() + "\n"; }
      if (!d.empty()) bad += "after " + o + ", lookup " + to_string(k) + " should show " + show(c.t, m[k].shown) + ", got:\n" + d; }
    vector<string> a, b; for (auto &s : e.asked) a.push_back(s.toString()); for (auto &k : wantAsk) b.push_back(state(k).toString()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) { bad += "after " + o + ", handlers were asked for:"; for (auto &x : a) bad += " " + x; bad += "; expected:"; for (auto &x : b) bad += " " + x; bad += "\n"; }
    e.asked.clear(); wantAsk.clear();
    std::map<Sk, LEnv::Th> want;
    auto th = [&](Ls const &l, int own, MLook const &x) { if (l.tol.empty() || !x.on || !x.has || !x.shown.known) return; Vl tv = val(l.tol, own); if (!tv.known) return; Ty ty = typeOf(x.at); bool in = ty == TI; double tol = fabs(tv.r); if (in) tol = ceil(tol);
      double base = in ? (double)x.shown.i : x.shown.r, hi = base + tol, lo = base - tol; if (in) { hi = std::min(hi, 2147483647.0); lo = std::max(lo, -2147483648.0); } auto &w = want[x.at]; if (!w.on) w = {true, in, hi, lo}; else { w.hi = std::min(w.hi, hi); w.lo = std::max(w.lo, lo); } };
    for (size_t k = 0; k < m.size(); ++k) th(c.l[k], k, m[k]); for (auto &q : inner) th(c.l[q.first.second], q.first.first, q.second);
    std::map<State, LEnv::Th> w2; for (auto &w : want) w2[state(w.first)] = w.second;
    auto sh = [](LEnv::Th const &x) { return x.on ? string(x.isInt ? "int" : "real") + "[" + numS(x.lo) + ", " + numS(x.hi) + "]" : string("none"); };
    for (auto &x : e.th) w2.emplace(x.first, LEnv::Th());
    for (auto &w : w2) { LEnv::Th g; auto i = e.th.find(w.first); if (i != e.th.end()) g = i->second; if (sh(g) != sh(w.second)) bad += "after " + o + ", thresholds of " + w.first.toString() + " are " + sh(g) + ", expected " + sh(w.second) + "\n"; }
  }
};
vector<Cfg> const &cfgs() {
  static vector<Cfg> v; if (!v.empty()) return v;
  auto ops = [](string s) { std::istringstream in(s); vector<string> o; string w; while (in >> w) o.push_back(w); return o; };
  for (Ty t : {TB, TI, TR, TS, TBA, TIA, TRA, TSA}) v.push_back({"plain" + to_string((int)t), t, {{"A", "$p", "", false}, {"$n", "1", "", true}}, ops("rA1=0 rA1=1 rA1=? rA2=0 rB1=1 wA1=1 wA1=0 wA2=? p2 p1 p? nB nA n? +0 -0 +1 -1 c"), false, {true, true}});
  v.push_back({"cold", TI, {{"A", "", "", false}, {"A", "", "", false}, {"$n", "", "", false}}, ops("rA=0 rA=1 rA=? xA rB=0 wA=1 wA=0 nB nA +0 -0 +1 -1 +2 -2 c"), false, {false, false, false}});
  for (int r = 0; r < 3; ++r) {
    Ty t = r == 0 ? TI : TR; string R_ = r == 2 ? "r" : "", z = to_string(r);
    v.push_back({"tol" + z, t, {{"A", "", "$t", true}, {"A", "", "3", true}}, ops("rA=#10 rA=#11 rA=#12 rA=#14 rA=#8 rA=? wA=#13 t1 t4 t-3 t? +0 -0 +1 -1 c"), r == 2, {true, true}});
    v.push_back({"tolmove" + z, t, {{"$n", "$p", "$t", true}, {"A", "1", "", true}}, ops("rA1=#10 rA1=#11 rA1=#13 rA1=? rB1=#11 rA2=#12 nB nA n? p2 p1 t1 t? +0 -0 wA2=#9 c"), r == 2, {true, true}});
    v.push_back({"tolcold" + z, t, {{"A", "", "$t", true}, {"A", "", "", true}}, ops("rA=#10 rA=#11 rA=#13 rA=? xA t1 t? t3 +0 -0 +1 -1 wA=#12 wA=#9 c"), r == 2, {false, false}});
  }
  v.push_back({"mixtol", TI, {{"A", "", "$t", true}, {"A", "", "2.5", true}}, ops("rA=#10 rA=#11 rA=#12 rA=#13 rA=#9 rA=? t0.5 t1.5 t? t-2.5 +0 -0 +1 -1 c"), true, {true, true}});
  v.push_back({"mixtol2", TR, {{"A", "", "$t", true}, {"A", "", "2.5", true}}, ops("rA=#10 rA=#10.5 rA=#12 rA=#13 rA=#9 rA=? t1 t2 t? +0 -0 +1 -1 c"), false, {true, true}});
  v.push_back({"limits", TI, {{"A", "", "$t", true}, {"A", "", "5", true}}, ops("rA=#2147483647 rA=#2147483644 rA=#-2147483648 rA=#-2147483645 rA=#0 t1 t2147483647 +0 -0 c"), false, {true, true}});
  v.push_back({"chain", TI, {{"A", "1", "", true}, {"A", "@0", "", true}}, ops("rA1=0 rA1=1 rA1=? rA2=0 rA2=1 rA2=? wA1=1 wA2=0 +0 -0 +1 -1 c"), false, {true, true}});
  v.push_back({"chaintol", TI, {{"A", "1", "$t", true}, {"A", "@0", "2", true}, {"B", "@0", "", false}}, ops("rA1=#1 rA1=#2 rA1=? rA2=#2 rA2=#4 rB1=0 rB2=1 t1 t? +0 -0 +1 -1 -2"), false, {true, true, true}});
  v.push_back({"named", TS, {{"$n", "", "", true}, {"@0", "", "", true}}, ops("rA=nA rA=nB rB=nA rB=nB rB=? nB nA wA=nB +1 -1 +0 -0 c"), false, {true, true}});
  v.push_back({"toltol", TI, {{"T", "", "", true}, {"A", "", "@0", true}}, ops("rT=#1 rT=#3 rT=? rA=#10 rA=#12 rA=#11 wT=#2 rA=? +0 -0 +1 -1 c"), false, {true, true}});
  return v;
}
vector<string> split(string const &s) { std::istringstream in(s); vector<string> o; string w; while (in >> w) o.push_back(w); return o; }
string join(vector<string> const &p) { string s; for (auto &x : p) s += " " + x; return s; }
unique_ptr<LEnv> mkEnv(bool real) { return unique_ptr<LEnv>(new LEnv({{"n", TS}, {"p", TI}, {"t", real ? TR : TI}})); }
bool one(string const &fam, Cfg const &c, LEnv &e, bool typed, vector<string> const &p) {
  string head = c.id + (typed ? " t" : " v"); H::cell(fam, head + join(p)); H::st.executions++;
  Run r(c, e, typed); string at = "start";
  for (size_t k = 0; k < p.size() && r.bad.empty(); ++k) { if (!r.allowed(p[k])) { H::st.skipped++; return true; } at = p[k]; try { r.step(p[k]); } catch (std::exception const &x) { r.bad += "exception in " + p[k] + ": " + x.what() + "\n"; }
    if (!r.bad.empty()) { vector<string> q(p.begin(), p.begin() + k + 1); H::violate(fam + " " + c.id + " " + at.substr(0, 1), "lookups:" + [&] { string s; for (size_t j = 0; j < c.l.size(); ++j) s += " " + to_string(j) + "=" + r.xmlOf(j); return s; }() + "\noperations:" + join(q) + "\n" + r.bad, head + join(q)); return false; } }
  if (!r.bad.empty()) { H::violate(fam + " " + c.id + " start", r.bad, head); return false; }
  return true;
}
bool isTol(Cfg const &c) { for (auto &l : c.l) if (!l.tol.empty()) return true; return false; }
void lk(string const &fam, bool tol, bool replay, string const &target) {
  if (replay) { auto w = split(target); for (auto &c : cfgs()) if (c.id == w[0]) { auto e = mkEnv(c.tolReal); one(fam, c, *e, w[1] == "t", vector<string>(w.begin() + 2, w.end())); } return; }
  uint64_t idx = 0;
  for (auto &c : cfgs()) {
    if (isTol(c) != tol) continue;
    bool plain = c.id.compare(0, 5, "plain") == 0; int depth = plain ? (c.t == TI ? 4 : 3) : 4; if (deep()) depth = plain && c.t != TI && c.t != TR ? 4 : 5;
    auto e = mkEnv(c.tolReal); size_t N = c.ops.size(); vector<size_t> d(depth, 0);
    for (;;) {
      if (H::mine(idx++)) { if (H::full()) return; if (H::timeUp()) { H::st.capped = true; return; } vector<string> p; for (auto k : d) p.push_back(c.ops[k]); one(fam, c, *e, (idx / H::args.nshards) & 1, p); H::distinct(c.id + join(p)); }
      int k = depth - 1; while (k >= 0 && ++d[k] == N) d[k--] = 0; if (k < 0) break;
    }
  }
}
}
void lookups(vector<H::Family> &f) {
  f.push_back({"LK", [] { lk("LK", false, false, ""); }, [](string const &b) { lk("LK", false, true, b); }});
  f.push_back({"LT", [] { lk("LT", true, false, ""); }, [](string const &b) { lk("LT", true, true, b); }});
}
