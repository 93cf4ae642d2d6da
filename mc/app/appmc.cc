// Handler registration (HD), listeners and filters (LS), list parsing of the configuration (CS).
#include "harness.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Command.hh"
#include "CommandImpl.hh"
#include "Constant.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerFactory.hh"
#include "ExecListenerFilter.hh"
#include "ExecListenerFilterFactory.hh"
#include "ExecListenerHub.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "InterfaceManager.hh"
#include "InterfaceSchema.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeTransition.hh"
#include "PlanError.hh"
#include "State.hh"
#include "Update.hh"
#include "Variable.hh"
#include <memory>
using namespace PLEXIL; using H::string; using H::vector;
namespace {
vector<string> g_log; // everything a handler was asked to do
void lg(string const &s) { g_log.push_back(s); }
struct Quiet { std::stringstream s; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(s.rdbuf())), b(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
string join(vector<string> const &v) { string o; for (auto &s : v) o += (o.empty() ? "" : "; ") + s; return "[" + o + "]"; }
[[noreturn]] void ifail(char const *w) { throw InterfaceError(w, w, __FILE__, __LINE__); }

// ---- HD: command, lookup and update handlers ----
string vs(Value const &v) { std::ostringstream o; o << v; return o.str(); }
string stname(State const &s) { std::ostringstream o; o << s; return o.str(); }
struct CObj : CommandHandler { string id; bool thr, own; CObj(string i, bool t = false, bool o = true) : id(i), thr(t), own(o) {}
  void executeCommand(Command *c, AdapterExecInterface *) override { lg(id + " exec " + stname(c->getCommand())); if (thr) ifail("exec"); }
  void abortCommand(Command *c, AdapterExecInterface *i) override { if (!own) { CommandHandler::abortCommand(c, i); return; } lg(id + " abort " + stname(c->getCommand())); if (thr) ifail("abort"); } };
struct LObj : LookupHandler { string id; bool thr; LObj(string i, bool t = false) : id(i), thr(t) {}
  void lookupNow(State const &s, LookupReceiver *r) override { lg(id + " now " + stname(s)); if (thr) ifail("now"); r->update(Value(id)); }
  void setThresholds(State const &s, Real hi, Real lo) override { lg(id + " real " + stname(s) + " " + std::to_string(hi) + " " + std::to_string(lo)); }
  void setThresholds(State const &s, Integer hi, Integer lo) override { lg(id + " int " + stname(s) + " " + std::to_string(hi) + " " + std::to_string(lo)); }
  void clearThresholds(State const &s) override { lg(id + " clear " + stname(s)); } };
struct Recv : LookupReceiver { string got = "nothing";
  void setUnknown() override { got = "unknown"; }
  void update(Value const &v) override { got = vs(v); }
  void update(Boolean) override { got = "?"; } void update(Integer) override { got = "?"; } void update(Real) override { got = "?"; }
  void update(String const &v) override { got = vs(Value(v)); } void update(char const *v) override { got = vs(Value(v)); }
  void update(Boolean const *, size_t) override { got = "?"; } void update(Integer const *, size_t) override { got = "?"; } void update(Real const *, size_t) override { got = "?"; } void update(String const *, size_t) override { got = "?"; } };
struct FakeUpdate : Update { PairValueMap m; string id = "upd"; int acked = -1; FakeUpdate *nx = nullptr;
  PairValueMap const &getPairs() const override { return m; } string const &getNodeId() const override { return id; }
  void acknowledge(bool a) override { acked = a; } Update *next() const override { return nx; } Update **nextPtr() override { return (Update **)&nx; } };
// what the model knows of a registered handler
struct MC { string id; bool execThrows = false, ownAbort = true, abortThrows = false; };          // id "": the built-in default
struct ML { string id; bool now = true, thr = false, real = true, integer = true, clear = true; }; // id "": the built-in default
struct Model { std::map<string, MC> c; std::map<string, ML> l; MC dc; ML dl; string upd; };
ExecuteCommandHandler execFn(string id, bool thr = false) { return [id, thr](Command *c, AdapterExecInterface *) { lg(id + " exec " + stname(c->getCommand())); if (thr) ifail("x"); }; }
AbortCommandHandler abortFn(string id, bool thr = false) { return [id, thr](Command *c, AdapterExecInterface *) { lg(id + " abort " + stname(c->getCommand())); if (thr) ifail("x"); }; }
LookupNowHandler nowFn(string id, bool thr = false) { return [id, thr](State const &s, LookupReceiver *r) { lg(id + " now " + stname(s)); if (thr) ifail("x"); r->update(Value(id)); }; }
SetThresholdsHandlerReal realFn(string id) { return [id](State const &s, Real hi, Real lo) { lg(id + " real " + stname(s) + " " + std::to_string(hi) + " " + std::to_string(lo)); }; }
SetThresholdsHandlerInteger intFn(string id) { return [id](State const &s, Integer hi, Integer lo) { lg(id + " int " + stname(s) + " " + std::to_string(hi) + " " + std::to_string(lo)); }; }
ClearThresholdsHandler clearFn(string id) { return [id](State const &s) { lg(id + " clear " + stname(s)); }; }
PlannerUpdateHandler updFn(string id) { return [id](Update *u, AdapterExecInterface *i) { lg(id + " update " + u->getNodeId()); }; }
struct Op { string name; std::function<void(AdapterConfiguration *)> real; std::function<void(Model &)> model; };
vector<Op> const &ops() {
  static vector<Op> o;
  if (!o.empty()) return o;
  using A = AdapterConfiguration *;
  auto add = [](string n, std::function<void(A)> r, std::function<void(Model &)> m) { o.push_back({n, r, m}); };
  auto mc = [](string id, bool et = false, bool oa = true, bool at = false) { MC c; c.id = id; c.execThrows = et; c.ownAbort = oa; c.abortThrows = at; return c; };
  add("command a by object C1", [](A a) { a->registerCommandHandler(std::make_shared<CObj>("C1"), string("a")); }, [=](Model &m) { m.c["a"] = mc("C1"); });
  add("command list a,b by object C2", [](A a) { a->registerCommandHandler(std::make_shared<CObj>("C2"), vector<string>{"a", "b"}); }, [=](Model &m) { m.c["a"] = m.c["b"] = mc("C2"); });
  add("command b by function C3 without abort function", [](A a) { a->registerCommandHandlerFunction("b", execFn("C3")); }, [=](Model &m) { m.c["b"] = mc("C3", false, false); });
  add("command a by functions C4", [](A a) { a->registerCommandHandlerFunction("a", execFn("C4"), abortFn("C4")); }, [=](Model &m) { m.c["a"] = mc("C4"); });
  add("command a by function C5 with null abort function", [](A a) { a->registerCommandHandlerFunction("a", execFn("C5"), nullptr); }, [=](Model &m) { m.c["a"] = mc("C5", false, false); });
  add("command a by throwing object C6", [](A a) { a->registerCommandHandler(std::make_shared<CObj>("C6", true), string("a")); }, [=](Model &m) { m.c["a"] = mc("C6", true, true, true); });
  add("default command object C7", [](A a) { a->setDefaultCommandHandler(std::make_shared<CObj>("C7")); }, [=](Model &m) { m.dc = mc("C7"); });
  add("default command function C8 without abort function", [](A a) { a->setDefaultCommandHandlerFunction(execFn("C8")); }, [=](Model &m) { m.dc = mc("C8", false, false); });
  add("default command functions C9", [](A a) { a->setDefaultCommandHandlerFunction(execFn("C9", true), abortFn("C9", true)); }, [=](Model &m) { m.dc = mc("C9", true, true, true); });
  add("command \"\" by object C10", [](A a) { a->registerCommandHandler(std::make_shared<CObj>("C10", false, false), string("")); }, [=](Model &m) { m.c[""] = mc("C10", false, false); });
  add("command list empty", [](A a) { a->registerCommandHandler(std::make_shared<CObj>("C11"), vector<string>{}); }, [=](Model &) {});
  add("lookup a by object L1", [](A a) { a->registerLookupHandler(std::make_shared<LObj>("L1"), string("a")); }, [](Model &m) { m.l["a"] = {"L1"}; });
  add("lookup list b,a by object L2", [](A a) { a->registerLookupHandler(std::make_shared<LObj>("L2"), vector<string>{"b", "a"}); }, [](Model &m) { m.l["a"] = m.l["b"] = {"L2"}; });
  add("lookup a by function L3", [](A a) { a->registerLookupHandlerFunction("a", nowFn("L3")); }, [](Model &m) { m.l["a"] = {"L3", true, false, false, false, false}; });
  add("lookup a by functions L4", [](A a) { a->registerLookupHandlerFunction("a", nowFn("L4"), realFn("L4"), intFn("L4"), clearFn("L4")); }, [](Model &m) { m.l["a"] = {"L4"}; });
  add("lookup b by threshold functions L5", [](A a) { a->registerLookupHandlerFunction("b", nullptr, realFn("L5"), nullptr, clearFn("L5")); }, [](Model &m) { m.l["b"] = {"L5", false, false, true, false, true}; });
  add("lookup b by throwing function L6 and integer thresholds", [](A a) { a->registerLookupHandlerFunction("b", nowFn("L6", true), nullptr, intFn("L6")); }, [](Model &m) { m.l["b"] = {"L6", true, true, false, true, false}; });
  add("default lookup object L7", [](A a) { a->setDefaultLookupHandler(std::make_shared<LObj>("L7")); }, [](Model &m) { m.dl = {"L7"}; });
  add("default lookup function L8", [](A a) { a->setDefaultLookupHandler(nowFn("L8")); }, [](Model &m) { m.dl = {"L8", true, false, false, false, false}; });
  add("default throwing lookup object L9", [](A a) { a->setDefaultLookupHandler(std::make_shared<LObj>("L9", true)); }, [](Model &m) { m.dl = {"L9", true, true}; });
  add("update handler U1", [](A a) { a->registerPlannerUpdateHandler(updFn("U1")); }, [](Model &m) { m.upd = "U1"; });
  add("update handler U2", [](A a) { a->registerPlannerUpdateHandler(updFn("U2")); }, [](Model &m) { m.upd = "U2"; });
  return o;
}
// Adapters that register when they are initialised, in the order of the configuration.
struct AdX : InterfaceAdapter { AdX(AdapterExecInterface &i, AdapterConf *c) : InterfaceAdapter(i, c) {}
  bool initialize(AdapterConfiguration *a) override { a->registerCommandHandler(std::make_shared<CObj>("X"), string("a")); a->registerLookupHandler(std::make_shared<LObj>("X"), string("b")); return true; } };
struct AdY : InterfaceAdapter { AdY(AdapterExecInterface &i, AdapterConf *c) : InterfaceAdapter(i, c) {}
  bool initialize(AdapterConfiguration *a) override { a->registerCommandHandler(std::make_shared<CObj>("Y"), vector<string>{"a", "b"}); a->setDefaultLookupHandler(std::make_shared<LObj>("Y")); a->registerPlannerUpdateHandler(updFn("Y")); a->registerLookupHandler(std::make_shared<LObj>("Y"), string("b")); return true; } };
void modX(Model &m) { m.c["a"] = {"X"}; m.l["b"] = {"X"}; }
void modY(Model &m) { m.c["a"] = m.c["b"] = {"Y"}; m.dl = {"Y"}; m.upd = "Y"; m.l["b"] = {"Y"}; }
char const *CONF[] = {"", "<Interfaces/>", "<Interfaces><Adapter AdapterType='AdX'/></Interfaces>", "<Interfaces><Adapter AdapterType='AdX'/><Adapter AdapterType='AdY'/></Interfaces>",
  "<Interfaces><Adapter AdapterType='AdY'/><Adapter AdapterType='AdX'/></Interfaces>"};
struct App { std::unique_ptr<ExecApplication> a; pugi::xml_document d; App() : a(makeExecApplication()) {}
  ~App() { a.reset(); } };
struct Cmd { CommandImpl c; ExprVec *v = nullptr; Cmd(string const &n) : c("node_" + n) { c.setNameExpr(new StringConstant(n), true); c.activate(); c.fixValues(); } ~Cmd() { c.deactivate(nullptr); c.cleanUp(); } };
// Ask every kind of request and compare with the model; returns "" or what differs.
string ask(App &app, Model const &m) {
  AdapterConfiguration *ac = app.a->configuration(); Dispatcher *d = ac; string bad;
  auto want = [&](string what, vector<string> const &log, string const &got, string const &exp) {
    H::st.evaluations++;
    if (g_log != log || got != exp) bad += "  " + what + ": handlers " + join(g_log) + ", result " + got + "; expected " + join(log) + ", " + exp + "\n";
    H::distinct(what + join(log) + exp);
    g_log.clear(); };
  static vector<string> const names = {"a", "b", "c", "A", "ab", ""};
  for (auto &n : names) {
    MC h = m.dc; auto it = m.c.find(n); if (it != m.c.end()) h = it->second;
    string sn = stname(State(n));
    {
      Cmd c(n); g_log.clear();
      d->executeCommand(&c.c); app.a->manager()->processQueue();
      CommandHandleValue hv = c.c.getCommandHandle();
      want("command '" + n + "'", h.id.empty() ? vector<string>{} : vector<string>{h.id + " exec " + sn}, commandHandleValueName(hv), commandHandleValueName(h.id.empty() ? COMMAND_SUCCESS : h.execThrows ? COMMAND_INTERFACE_ERROR : NO_COMMAND_HANDLE));
      if (h.abortThrows) c.c.acknowledgeAbort(true); // so that a refusal shows
      d->invokeAbort(&c.c); app.a->manager()->processQueue();
      Value ab = c.c.getAbortComplete()->toValue();
      bool dflt = h.id.empty() || !h.ownAbort;
      want("abort of '" + n + "'", dflt ? vector<string>{} : vector<string>{h.id + " abort " + sn}, vs(ab), dflt ? "true" : "false");
    }
    { Cmd c(n); d->reportCommandArbitrationFailure(&c.c); app.a->manager()->processQueue();
      want("refusal of '" + n + "'", {}, commandHandleValueName(c.c.getCommandHandle()), commandHandleValueName(COMMAND_DENIED)); }
    ML l = m.dl; auto jt = m.l.find(n); if (jt != m.l.end()) l = jt->second;
    for (int args = 0; args < 2; ++args) {
      State s = args ? State(n, {Value((Integer)3)}) : State(n); string ss = stname(s);
      Recv r; d->lookupNow(s, &r);
      want("lookup of " + ss, l.id.empty() || !l.now ? vector<string>{} : vector<string>{l.id + " now " + ss}, r.got, l.id.empty() || !l.now ? "nothing" : l.thr ? "unknown" : vs(Value(l.id)));
      d->setThresholds(s, (Real)2.5, (Real)-1.25);
      want("real thresholds of " + ss, l.id.empty() || !l.real ? vector<string>{} : vector<string>{l.id + " real " + ss + " 2.500000 -1.250000"}, "", "");
      d->setThresholds(s, (Integer)7, (Integer)-7);
      want("integer thresholds of " + ss, l.id.empty() || !l.integer ? vector<string>{} : vector<string>{l.id + " int " + ss + " 7 -7"}, "", "");
      d->clearThresholds(s);
      want("clearing of " + ss, l.id.empty() || !l.clear ? vector<string>{} : vector<string>{l.id + " clear " + ss}, "", "");
    }
  }
  FakeUpdate u; d->executeUpdate(&u); app.a->manager()->processQueue();
  want("update", m.upd.empty() ? vector<string>{} : vector<string>{m.upd + " update upd"}, std::to_string(u.acked), m.upd.empty() ? "1" : "-1");
  return bad;
}
// case: number of operations before initialisation, configuration, operations
void runHD(vector<int> const &c) {
  int pre = c[0], conf = c[1]; vector<int> seq(c.begin() + 2, c.end());
  string body; for (int x : c) body += std::to_string(x) + " ";
  H::cell("HD", body); H::st.executions++;
  static bool reg = false;
  std::unique_ptr<Quiet> q(new Quiet); App app; AdapterConfiguration *ac = app.a->configuration(); Model m; string text, bad;
  if (!reg) { reg = true; }
  REGISTER_ADAPTER(AdX, "AdX"); REGISTER_ADAPTER(AdY, "AdY");
  app.d.load_string(CONF[conf]); g_log.clear();
  for (int i = 0; i < pre; ++i) { ops()[seq[i]].real(ac); ops()[seq[i]].model(m); text += "  " + ops()[seq[i]].name + "\n"; }
  text += string("  initialise with '") + CONF[conf] + "'\n";
  if (!app.a->initialize(app.d.document_element())) { H::violate("HD init " + std::to_string(conf), "initialisation refused\n" + text, body); return; }
  if (conf == 2 || conf == 3) modX(m);
  if (conf >= 3) modY(m);
  if (conf == 4) modX(m);
  bad = ask(app, m);
  for (size_t i = pre; bad.empty() && i < seq.size(); ++i) { ops()[seq[i]].real(ac); ops()[seq[i]].model(m); text += "  " + ops()[seq[i]].name + "\n"; bad = ask(app, m); }
  H::st.transitions += seq.size() + 1; q.reset();
  if (!bad.empty()) H::violate("HD " + bad.substr(0, bad.find(':')), "after\n" + text + bad, body);
  else H::sample(text);
}
void exploreHD() {
  int depth = H::args.thorough ? 3 : 2, n = ops().size(); uint64_t i = 0;
  vector<int> seq;
  std::function<void(int)> rec = [&](int left) {
    if (H::full()) return;
    for (int pre = 0; pre <= (int)seq.size(); ++pre) {
      for (int conf = 0; conf < 5; ++conf) {
        if (conf < 2 && pre > 0 && pre < (int)seq.size()) continue; // registrations on both sides matter only when the configuration registers too
        if (!H::mine(i++)) continue;
        if (H::timeUp()) { H::st.capped = true; return; }
        vector<int> c = {pre, conf}; c.insert(c.end(), seq.begin(), seq.end()); runHD(c);
      }
    }
    if (left) for (int k = 0; k < n; ++k) { seq.push_back(k); rec(left - 1); seq.pop_back(); }
  };
  rec(depth);
}
vector<int> ints(string const &b) { std::stringstream s(b); vector<int> v; int x; while (s >> x) v.push_back(x); return v; }

// ---- CS: comma separated lists in the configuration ----
vector<string> splitModel(string const &s) { // items between commas without surrounding white space; empty ones left out
  vector<string> r; string cur; auto push = [&]() { size_t a = cur.find_first_not_of(" \t\n"), b = cur.find_last_not_of(" \t\n"); if (a != string::npos) r.push_back(cur.substr(a, b - a + 1)); cur.clear(); };
  for (char c : s) { if (c == ',') push(); else cur += c; }
  push(); return r;
}
void runCS(string const &s) {
  H::cell("CS", s); H::st.executions++; H::st.evaluations++; H::distinct(s);
  std::unique_ptr<vector<string>> v(InterfaceSchema::parseCommaSeparatedArgs(s.c_str())); vector<string> got; for (auto &x : *v) if (!x.empty()) got.push_back(x);
  if (got != splitModel(s)) H::violate("CS split", "the list '" + s + "' is read as " + join(got) + ", its items are " + join(splitModel(s)), s);
}
void exploreCS() {
  string A = "ab, \n\t"; int depth = H::args.thorough ? 8 : 6; uint64_t i = 0; string s;
  std::function<void(int)> rec = [&](int left) { if (H::full()) return; if (H::mine(i++)) runCS(s); if (left) for (char c : A) { s += c; rec(left - 1); s.pop_back(); } };
  rec(depth);
}

// ---- LS: listeners and filters ----
struct Rec { vector<string> *out; };
std::map<string, vector<string>> g_seen; // by listener name
string nid(Node *n) { return std::to_string((long)n); }
string trs(NodeTransition const &t) { return "T" + nid(t.node) + ":" + std::to_string((int)t.oldState) + ">" + std::to_string((int)t.newState); }
struct L1 : ExecListener { string id; bool whole; L1(pugi::xml_node const x) : ExecListener(x), id(x.attribute("Id").value()), whole(x.attribute("Whole").as_bool()) {}
  void implementNotifyNodeTransition(NodeTransition const &t) const override { g_seen[id].push_back(trs(t)); }
  void implementNotifyAddPlan(pugi::xml_node const p) const override { g_seen[id].push_back(string("P") + p.attribute("n").value()); }
  void implementNotifyAddLibrary(pugi::xml_node const p) const override { g_seen[id].push_back(string("B") + p.attribute("n").value()); }
  void implementNotifyAssignment(Expression const *e, string const &n, Value const &v) const override { g_seen[id].push_back("A" + std::to_string((long)e) + n + "=" + vs(v)); } };
// a filter that selects by kind and by the name or value concerned
struct KF : ExecListenerFilter { string k; KF(pugi::xml_node const x) : ExecListenerFilter(x), k(x.attribute("Kinds").value()) {}
  bool has(char c) { return k.find(c) != string::npos; }
  bool reportNodeTransition(NodeTransition const &t) override { return has('t') || (has('1') && (long)t.node == 1); }
  bool reportAddPlan(pugi::xml_node const) override { return has('p'); } bool reportAddLibrary(pugi::xml_node const) override { return has('b'); }
  bool reportAssignment(Expression const *, string const &n, Value const &) override { return has('a') || (has('x') && n == "x"); } };
struct Spec { string xml; std::function<bool(string const &)> ok; };
char const *SN[] = {"", "INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"};
int const NS_ = 8;
Spec stateSpec(unsigned mask, bool ignored, int style) {
  string t; for (int s = 1; s < NS_; ++s) if (mask >> s & 1) { if (!t.empty()) t += style == 0 ? "," : style == 1 ? ", " : style == 2 ? " , " : "\n ,\t"; t += SN[s]; }
  if (style == 3) t = "\n  " + t + "\n";
  string tag = ignored ? "IgnoredStates" : "States";
  string x = "<Filter FilterType='NodeState'><" + tag + ">" + t + "</" + tag + "></Filter>";
  bool none = mask == 0 && t.empty();
  return {x, [=](string const &e) {
    if (e[0] != 'T') return true;
    size_t c = e.find(':'), g = e.find('>'); int o = std::stoi(e.substr(c + 1, g - c - 1)), n = std::stoi(e.substr(g + 1));
    if (none) return true;
    auto en = [&](int s) { return ignored ? !(mask >> s & 1) : (bool)(mask >> s & 1); };
    return en(o) || en(n); }};
}
Spec kindSpec(string k) { return {"<Filter FilterType='KF' Kinds='" + k + "'/>", [=](string const &e) {
  auto has = [&](char c) { return k.find(c) != string::npos; };
  switch (e[0]) { case 'T': return has('t') || (has('1') && e[1] == '1'); case 'P': return has('p'); case 'B': return has('b'); default: return has('a') || (has('x') && e[2] == 'x'); } }}; }
Spec noSpec() { return {"", [](string const &) { return true; }}; }
bool g_regL = false;
void regL() { if (g_regL) return; g_regL = true; std::unique_ptr<AdapterConfiguration> c(makeAdapterConfiguration()); REGISTER_EXEC_LISTENER(L1, "L1"); REGISTER_EXEC_LISTENER_FILTER(KF, "KF"); }
// one hub with the given listeners; feed the events, publishing at each 's'
string feed(vector<Spec> const &ls, vector<string> const &ev, bool add) {
  regL(); Quiet q; g_seen.clear();
  ExecListenerHub hub; vector<std::unique_ptr<pugi::xml_document>> docs; vector<vector<string>> want(ls.size());
  for (size_t i = 0; i < ls.size(); ++i) {
    docs.emplace_back(new pugi::xml_document); string x = "<Listener ListenerType='L1' Id='" + std::to_string(i) + "'>" + ls[i].xml + "</Listener>"; docs.back()->load_string(x.c_str());
    if (add) hub.addListener(new L1(docs.back()->document_element())); else if (!hub.constructListener(docs.back()->document_element())) return "listener refused: " + x;
  }
  if (!hub.initialize() || !hub.start()) return "initialisation refused";
  vector<string> pt, pa; pugi::xml_document d; string bad;
  unsigned cyc = 0;
  auto flush = [&]() { hub.stepComplete(++cyc); for (size_t i = 0; i < ls.size(); ++i) { for (auto &e : pt) if (ls[i].ok(e)) want[i].push_back(e); for (auto &e : pa) if (ls[i].ok(e)) want[i].push_back(e); } pt.clear(); pa.clear(); };
  for (auto &e : ev) {
    H::st.transitions++;
    switch (e[0]) {
    case 'T': { vector<NodeTransition> v; std::stringstream s(e); string one; while (s >> one) { long n; int o, w; sscanf(one.c_str(), "T%ld:%d>%d", &n, &o, &w); v.push_back(NodeTransition((Node *)n, (NodeState)o, (NodeState)w)); pt.push_back(one); } hub.notifyOfTransitions(v); break; }
    case 'A': { string n(1, e[2]); Value v((Integer)(e[4] - '0')); hub.notifyOfAssignment((Expression const *)(long)(e[1] - '0'), n, v); pa.push_back(e); break; }
    case 'P': case 'B': { d.load_string(("<x n='" + e.substr(1) + "'/>").c_str()); if (e[0] == 'P') hub.notifyOfAddPlan(d.document_element()); else hub.notifyOfAddLibrary(d.document_element());
      for (size_t i = 0; i < ls.size(); ++i) if (ls[i].ok(e)) want[i].push_back(e); break; }
    default: flush();
    }
  }
  flush(); hub.stop();
  // order within a kind, and every event of an earlier step before those of a later one (batches are separated above by construction)
  for (size_t i = 0; i < ls.size(); ++i) {
    H::st.evaluations++;
    auto &g = g_seen[std::to_string(i)];
    auto kind = [](vector<string> const &v, char k) { vector<string> r; for (auto &s : v) if (s[0] == k) r.push_back(s); return r; };
    for (char k : {'T', 'A', 'P', 'B'}) if (kind(g, k) != kind(want[i], k)) bad += "  listener " + std::to_string(i) + " with " + (ls[i].xml.empty() ? "no filter" : ls[i].xml) + " saw " + join(g) + ", expected " + join(want[i]) + "\n";
    if (bad.empty() && g.size() != want[i].size()) bad += "  listener " + std::to_string(i) + " saw " + join(g) + "\n";
    H::distinct(ls[i].xml + join(want[i]));
  }
  return bad;
}
// every filter configuration against every transition
void runLF(unsigned mask, bool ignored, int style) {
  if (!mask && style == 3) return; // white space alone: unspecified
  string body = std::to_string(mask) + " " + std::to_string(ignored) + " " + std::to_string(style); H::cell("LF", body); H::st.executions++;
  vector<string> ev; string all;
  for (int o = 1; o < NS_; ++o) for (int n = 1; n < NS_; ++n) { string t = "T" + std::to_string(o * 8 + n) + ":" + std::to_string(o) + ">" + std::to_string(n); if (style & 1) ev.push_back(t); else all += (all.empty() ? "" : " ") + t; }
  if (!all.empty()) ev.push_back(all);
  ev.push_back("A1x=1"); ev.push_back("Pp"); ev.push_back("Bb");
  string bad = feed({stateSpec(mask, ignored, style)}, ev, style == 2);
  if (!bad.empty()) H::violate(string("LF filter ") + (ignored ? "ignored" : "states") + " style " + std::to_string(style), bad, body); else if (mask < 20) H::sample(stateSpec(mask, ignored, style).xml);
}
void exploreLF() { uint64_t i = 0; for (int style = 0; style < 4; ++style) for (int ig = 0; ig < 2; ++ig) for (unsigned m = 0; m < 256; m += 2) { if (H::full()) return; if (H::mine(i++)) runLF(m, ig, style); }
  // malformed configurations are refused
  regL(); Quiet q;
  for (char const *x : {"<L ListenerType='L1'><Filter FilterType='NodeState'><States>WAITING</States><IgnoredStates>WAITING</IgnoredStates></Filter></L>", "<L ListenerType='L1'><Filter/></L>", "<L ListenerType='L1'><Filter FilterType=''/></L>", "<L ListenerType='L1'><Filter FilterType='NoSuch'/></L>"}) {
    pugi::xml_document d; d.load_string(x); ExecListenerHub hub; H::st.executions++;
    bool ok = hub.constructListener(d.document_element()) && hub.initialize();
    if (ok) H::violate(string("LF accepted ") + x, string("a malformed filter was accepted: ") + x, "0 0 0");
  }
}
vector<Spec> pool() { return {noSpec(), stateSpec(1u << 3, false, 0), stateSpec(1u << 2 | 1u << 5, true, 1), kindSpec("t"), kindSpec("pa"), kindSpec("1xb"), kindSpec("")}; }
vector<string> evs() { return {"T1:1>2", "T2:2>3 T1:2>5", "A1x=1", "A2y=2", "Pp", "Bb", "s"}; }
void runLS(vector<int> const &c) {
  string body; for (int x : c) body += std::to_string(x) + " ";
  H::cell("LS", body); H::st.executions++;
  vector<Spec> ls; int k = 1; for (int i = 0; i < c[0]; ++i) ls.push_back(pool()[c[k++]]);
  vector<string> ev; while (k < (int)c.size()) ev.push_back(evs()[c[k++]]);
  string bad = feed(ls, ev, c.size() & 1);
  if (!bad.empty()) H::violate("LS " + bad.substr(0, bad.find(" saw")), "events " + join(ev) + "\n" + bad, body); else H::sample(join(ev));
}
void exploreLS() {
  int depth = H::args.thorough ? 5 : 4, np = pool().size(), ne = evs().size(); uint64_t i = 0;
  vector<vector<int>> lists = {{0}};
  for (int a = 0; a < np; ++a) { lists.push_back({1, a}); for (int b = 0; b < np; ++b) { lists.push_back({2, a, b}); } }
  if (H::args.thorough) for (int a = 0; a < np; ++a) for (int b = 0; b < np; ++b) for (int d = 0; d < np; ++d) lists.push_back({3, a, b, d});
  else lists.push_back({3, 1, 0, 4}), lists.push_back({3, 5, 2, 6});
  vector<int> seq;
  std::function<void(int)> rec = [&](int left) {
    if (H::full()) return;
    if (!left) { for (auto &l : lists) { if (!H::mine(i++)) continue; if (H::timeUp()) { H::st.capped = true; return; } vector<int> c = l; c.insert(c.end(), seq.begin(), seq.end()); runLS(c); } return; }
    for (int k = 0; k < ne; ++k) { seq.push_back(k); rec(left - 1); seq.pop_back(); } };
  rec(depth);
}
}
void appExtra(vector<H::Family> &f);
int main(int argc, char **argv) {
  PlanError::doThrowExceptions();
  vector<H::Family> f = {
    {"HD", exploreHD, [](string const &b) { runHD(ints(b)); }},
    {"CS", exploreCS, [](string const &b) { runCS(b.substr(0, b.size() - (!b.empty() && b.back() == '\n' ? 1 : 0))); }},
    {"LF", exploreLF, [](string const &b) { auto v = ints(b); runLF(v[0], v[1], v[2]); }},
    {"LS", exploreLS, [](string const &b) { runLS(ints(b)); }}};
  appExtra(f);
  return H::run(argc, argv, f);
}
