// Whole applications, driven one macro step at a time: listeners added by every route (LA), plans launched by plans (LN, LP, LE), messages (MS, MA).
#include "harness.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Command.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerFactory.hh"
#include "MessageAdapter.hh"
#include "Expression.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceManager.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeTransition.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "Value.hh"
#include "ArrayImpl.hh"
#include "pugixml.hpp"
#include "planLibrary.hh"
#include <cmath>
#include <limits>
#include <memory>
using namespace PLEXIL; using H::string; using H::vector; using std::to_string;
namespace {
string g_out;
struct Quiet { std::stringstream s; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(s.rdbuf())), b(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); g_out = s.str(); } };
string join(vector<string> const &v) { string o; for (auto &s : v) o += (o.empty() ? "" : "; ") + s; return "[" + o + "]"; }
string vs(Value const &v) { if (!v.isKnown()) return "UNKNOWN"; std::ostringstream o; o << valueTypeName(v.valueType()) << ' '; if (v.valueType() == REAL_TYPE) { double d = 0; v.getValue(d); o.precision(17); o << d; } else o << v; return o.str(); }
vector<int> ints(string const &b) { std::stringstream s(b); vector<int> v; int x; while (s >> x) v.push_back(x); return v; }
string tag(string const &t, string const &x) { return "<" + t + ">" + x + "</" + t + ">"; }
string esc(string const &s) { string o; for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : string(1, c); return o; }
string S(string const &s) { return tag("StringValue", esc(s)); }
string look(string const &n, string const &args = "") { return tag("LookupNow", tag("Name", S(n)) + (args.empty() ? "" : tag("Arguments", args))); }
string planx(string const &n) { return "<PlexilPlan>" + n + "</PlexilPlan>"; }
int g_serial = 0; // of plan names in this process

// One application. Adapters: those of the configuration, plus commands "probe" (records its arguments) and "work" (finished or aborted by the case), and lookups of the table.
struct App {
  std::unique_ptr<ExecApplication> a; pugi::xml_document conf;
  std::map<string, Value> world; vector<vector<Value>> probes; vector<Command *> works, slows, slowAborts; int aborted = 0;
  std::map<string, string> outcome; // of finished roots
  struct L : ExecListener { App *w; L(App *x) : w(x) {}
    void implementNotifyNodeTransition(NodeTransition const &t) const override { if (!t.node->getParent() && t.newState == FINISHED_STATE) w->outcome[t.node->getNodeId()] = outcomeName(t.node->getOutcome()) + (t.node->getFailureType() == NO_FAILURE ? "" : "/" + failureTypeName(t.node->getFailureType())); } };
  App(string const &c, std::function<void(ExecApplication &)> pre = nullptr) : a(makeExecApplication()) {
    conf.load_string(c.c_str()); a->configuration()->addExecListener(new L(this));
    if (pre) pre(*a);
    if (!a->initialize(conf.document_element())) throw std::runtime_error("the configuration was refused: " + c);
    auto *ac = a->configuration();
    ac->registerCommandHandlerFunction("probe", [this](Command *c, AdapterExecInterface *i) { probes.push_back(c->getArgValues()); i->handleCommandAck(c, COMMAND_SUCCESS); });
    ac->registerCommandHandlerFunction("slow", [this](Command *c, AdapterExecInterface *) { slows.push_back(c); }, [this](Command *c, AdapterExecInterface *) { slowAborts.push_back(c); });   // aborted when the case says so
    ac->registerCommandHandlerFunction("work", [this](Command *c, AdapterExecInterface *) { works.push_back(c); },
      [this](Command *c, AdapterExecInterface *i) { ++aborted; for (size_t k = 0; k < works.size(); ++k) if (works[k] == c) { works.erase(works.begin() + k); break; } i->handleCommandAbortAck(c, true); });
    if (!a->startInterfaces()) throw std::runtime_error("the interfaces were refused");
  }
  void lookups(string const &n) { a->configuration()->registerLookupHandlerFunction(n, [this](State const &s, LookupReceiver *r) { std::ostringstream o; o << s; auto it = world.find(o.str()); if (it == world.end() || !it->second.isKnown()) r->setUnknown(); else r->update(it->second); }); }
  void set(State const &s, Value const &v) { std::ostringstream o; o << s; world[o.str()] = v; a->manager()->handleValueChange(s, v); }
  void change(string const &n, Value const &v) { set(State(n), v); a->runExec(); }
  void plan(string const &x) { pugi::xml_document d; if (!d.load_string(planx(x).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) throw std::runtime_error("bad plan " + x); a->manager()->handleAddPlan(d.document_element()); }
  // Execute one command from a plan of its own. Result: command handle, and the value returned.
  std::pair<string, string> command(string const &name, string const &args) {
    string id = "cmd" + to_string(++g_serial); size_t n = probes.size();
    string r = "<Node NodeType='Command'><NodeId>Do</NodeId><EndCondition><IsKnown><NodeCommandHandleVariable><NodeRef dir='self'/></NodeCommandHandleVariable></IsKnown></EndCondition><NodeBody><Command><StringVariable>r</StringVariable><Name>" + S(name) + "</Name>" + (args.empty() ? "" : tag("Arguments", args)) + "</Command></NodeBody></Node>";
    // the command handle is reported as the name of the handle value it equals
    string hs; for (char const *h : {"COMMAND_SUCCESS", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_INTERFACE_ERROR", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_SENT_TO_SYSTEM"}) hs += "<EQInternal><NodeCommandHandleVariable><NodeId>Do</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>" + string(h) + "</NodeCommandHandleValue></EQInternal>";
    string rep = "<Node NodeType='Command'><NodeId>Tell</NodeId><StartCondition><Finished><NodeId>Do</NodeId></Finished></StartCondition><NodeBody><Command><Name>" + S("probe") + "</Name><Arguments><StringVariable>r</StringVariable>" + hs + "</Arguments></Command></NodeBody></Node>";
    plan("<Node NodeType='NodeList'><NodeId>" + id + "</NodeId><VariableDeclarations><DeclareVariable><Name>r</Name><Type>String</Type></DeclareVariable></VariableDeclarations><NodeBody><NodeList>" + r + rep + "</NodeList></NodeBody></Node>");
    a->runExec();
    // the report is the probe with 8 arguments; the launched plans may have called probe as well
    for (size_t k = n; k < probes.size(); ++k) if (probes[k].size() == 8) {
      vector<Value> p = probes[k]; probes.erase(probes.begin() + k);
      static char const *const hn[] = {"SUCCESS", "FAILED", "DENIED", "INTERFACE_ERROR", "ACCEPTED", "RCVD", "SENT"};
      string h = "none"; for (int j = 0; j < 7; ++j) { Boolean b = false; if (p[j + 1].getValue(b) && b) h = hn[j]; }
      string v; return {h, p[0].getValue(v) ? "=" + v : "UNKNOWN"};
    }
    return {"no report", ""};
  }
  vector<string> query(string const &name, vector<string> const &states) {
    string id = "ask" + to_string(++g_serial), as; for (auto &s : states) as += look(s, S(name));
    probes.clear();
    plan("<Node NodeType='Command'><NodeId>" + id + "</NodeId><NodeBody><Command><Name>" + S("probe") + "</Name><Arguments>" + as + "</Arguments></Command></NodeBody></Node>");
    a->runExec();
    vector<string> r; if (probes.size() != 1) return {"no answer"};
    for (auto &v : probes[0]) r.push_back(vs(v)); probes.clear();
    return r;
  }
  size_t roots() { return a->exec()->getPlans().size(); }
};
void library(string const &node) { auto *d = new pugi::xml_document; if (!d->load_string(planx(node).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single) || !loadLibraryDocument(d)) throw std::runtime_error("library refused: " + node); }
char const *LAUNCH = "<Interfaces><Adapter AdapterType='Launcher'/></Interfaces>";

// ---- LN: sequences of launches, exits and ends
void lnLibs() {
  static bool done = false; if (done) return; done = true;
  library("<Node NodeType='Command'><NodeId>LnWork</NodeId><EndCondition><EQInternal><NodeCommandHandleVariable><NodeRef dir='self'/></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal></EndCondition><NodeBody><Command><Name><StringValue>work</StringValue></Name></Command></NodeBody></Node>");
  library("<Node NodeType='Command'><NodeId>LnSlow</NodeId><EndCondition><BooleanValue>false</BooleanValue></EndCondition><NodeBody><Command><Name><StringValue>slow</StringValue></Name></Command></NodeBody></Node>");
  library("<Node NodeType='Empty'><NodeId>LnInv</NodeId><InvariantCondition><LookupOnChange><Name><StringValue>lninv</StringValue></Name></LookupOnChange></InvariantCondition><EndCondition><BooleanValue>false</BooleanValue></EndCondition></Node>");
}
char const *LNOPS[] = {"start LnWork", "start LnInv", "start a missing plan", "exit the newest", "exit the oldest", "exit a plan that does not exist", "all work done", "the invariant fails", "R starts", "R succeeds", "R fails", "exit R", "start LnWork and exit it at once", "R repeats", "start LnSlow", "the aborts are acknowledged"};
int const NLN = 16;
void runLN(vector<int> const &c) {
  string body, text; for (int x : c) { body += to_string(x) + " "; text += string("  ") + LNOPS[x] + "\n"; }
  H::cell("LN", body); H::st.executions++;
  struct P { string name; bool inv; int st; /* 0 running, 1 done, 2 exited, 3 exited before it started, 4 on its way out */ bool slow = false; }; vector<P> ps; std::set<string> names; string bad;
  std::unique_ptr<Quiet> q(new Quiet);
  try {
    lnLibs(); App w(LAUNCH); w.lookups("lninv"); string R = "lnR" + to_string(++g_serial), up = "up" + R, ok = "ok" + R, rep = "rep" + R; w.lookups(up); w.lookups(ok); w.lookups(rep);
    w.set(State("lninv"), Value(true)); w.set(State(up), Value(false)); w.set(State(ok), Value(true));
    auto onch = [](string const &n, string const &a = "") { return tag("LookupOnChange", tag("Name", S(n)) + (a.empty() ? "" : tag("Arguments", a))); };
    w.plan("<Node NodeType='Empty'><NodeId>" + R + "</NodeId>" + tag("StartCondition", onch(up)) + tag("EndCondition", tag("NOT", onch(up))) + tag("PostCondition", onch(ok)) + tag("RepeatCondition", onch(rep)) + tag("ExitCondition", onch("ExitPlan", S(R))) + "</Node>");
    w.a->runExec();
    int r = 0; bool rexit = false; string rout = "-"; int ab = 0; // r: 0 waiting, 1 executing, 3 between iterations, 2 gone
    auto started = [&](std::pair<string, string> const &p, bool inv) { if (p.first != "SUCCESS" || p.second.size() < 2 || p.second[0] != '=') { bad += "  StartPlan: " + p.first + " " + p.second + "\n"; return; }
      string n = p.second.substr(1); if (!names.insert(n).second) bad += "  the name " + n + " was given to two plans\n"; ps.push_back({n, inv, 0}); };
    auto doExit = [&](string const &n, bool exists) { auto p = w.command("ExitPlan", S(n)); if (p.first != (exists ? "SUCCESS" : "FAILED")) bad += "  ExitPlan of " + string(exists ? "a running" : "no") + " plan: " + p.first + "\n"; };
    for (size_t k = 0; k < c.size() && bad.empty(); ++k) {
      H::st.transitions++; int n = -1;
      switch (c[k]) {
      case 0: started(w.command("StartPlan", S("LnWork")), false); break;
      case 1: started(w.command("StartPlan", S("LnInv")), true); break;
      case 2: { auto p = w.command("StartPlan", S("LnMissing")); if (p.first != "FAILED" || p.second != "UNKNOWN") bad += "  StartPlan of a missing plan: " + p.first + " " + p.second + "\n"; break; }
      case 3: case 4: if (ps.empty()) break; n = c[k] == 3 ? (int)ps.size() - 1 : 0; { bool run = ps[n].st == 0; doExit(ps[n].name, run); if (run) { ps[n].st = ps[n].slow ? 4 : 2; if (!ps[n].inv && !ps[n].slow) ++ab; } else if (ps[n].st == 4) bad.clear(); break; }   // whether a plan on its way out can be exited again is open
      case 14: started(w.command("StartPlan", S("LnSlow")), false); if (bad.empty()) ps.back().slow = true; break;
      case 15: { auto v = w.slowAborts; w.slowAborts.clear(); for (auto *x : v) w.a->manager()->handleCommandAbortAck(x, true); w.a->runExec(); for (auto &p : ps) if (p.st == 4) p.st = 2; break; }
      case 5: doExit("LnNothing", false); break;
      case 6: { auto v = w.works; w.works.clear(); for (auto *x : v) w.a->manager()->handleCommandAck(x, COMMAND_SUCCESS); w.a->runExec(); for (auto &p : ps) if (!p.inv && !p.slow && p.st == 0) { p.st = 1; } break; }
      case 7: w.change("lninv", Value(false)); w.change("lninv", Value(true)); for (auto &p : ps) if (p.inv && p.st == 0) p.st = 1; break;
      case 8: w.change(up, Value(true)); if (r == 0) { r = 1; } break;
      case 9: case 10: w.change(ok, Value(c[k] == 9)); w.change(up, Value(false)); if (r == 1) { r = 3; rout = c[k] == 9 ? "SUCCESS" : "FAILURE/POST_CONDITION_FAILED"; } break;
      case 11: doExit(R, r != 2); rexit = true; if (r == 0) { r = 2; rout = "SKIPPED"; } else if (r == 1) { r = 3; rout = "INTERRUPTED/EXITED"; } break;
      case 13: w.change(rep, Value(true)); w.change(rep, Value()); if (r == 3) { r = rexit ? 2 : 0; if (rexit) rout = "SKIPPED"; } break;
      case 12: { // one plan does both
        string id = "both" + to_string(++g_serial); size_t before = w.roots();
        string s1 = "<Node NodeType='Command'><NodeId>A</NodeId><NodeBody><Command><StringVariable>r</StringVariable><Name>" + S("StartPlan") + "</Name><Arguments>" + S("LnWork") + "</Arguments></Command></NodeBody></Node>";
        string s2 = "<Node NodeType='Command'><NodeId>B</NodeId><StartCondition><IsKnown><StringVariable>r</StringVariable></IsKnown></StartCondition><NodeBody><Command><Name>" + S("ExitPlan") + "</Name><Arguments><StringVariable>r</StringVariable></Arguments></Command></NodeBody></Node>";
        string s3 = "<Node NodeType='Command'><NodeId>C</NodeId><StartCondition><Finished><NodeId>B</NodeId></Finished></StartCondition><NodeBody><Command><Name>" + S("probe") + "</Name><Arguments><StringVariable>r</StringVariable><EQInternal><NodeCommandHandleVariable><NodeId>B</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal></Arguments></Command></NodeBody></Node>";
        w.probes.clear(); int ab0 = w.aborted;
        w.plan("<Node NodeType='NodeList'><NodeId>" + id + "</NodeId><VariableDeclarations><DeclareVariable><Name>r</Name><Type>String</Type></DeclareVariable></VariableDeclarations><NodeBody><NodeList>" + s1 + s2 + s3 + "</NodeList></NodeBody></Node>"); w.a->runExec();
        string nm; Boolean exitOk = false; if (w.probes.size() != 1 || !w.probes[0][0].getValue(nm) || !w.probes[0][1].getValue(exitOk) || !exitOk) { bad += "  launching and exiting in one plan failed\n"; break; }
        if (!names.insert(nm).second) bad += "  the name " + nm + " was given to two plans\n"; ps.push_back({nm, false, 3}); ab += w.aborted - ab0; if (w.aborted - ab0 > 1 || w.roots() != before) bad += "  the plan was not exited\n"; break; }
      }
      // what can be observed now
      H::st.evaluations++;
      size_t alive = r != 2; int working = 0;
      for (auto &p : ps) {
        if (p.st == 0 || p.st == 4) { ++alive; if (!p.inv && !p.slow) ++working; }
        vector<string> g = w.query(p.name, {"PlanState", "PlanOutcome", "PlanFailureType", "ExitPlan"}), e;
        if (p.st == 3) { // exited as it started
          vector<string> a1 = {"String FINISHED", "String INTERRUPTED", "String EXITED", "Boolean true"}, a2 = {"String FINISHED", "String SKIPPED", "UNKNOWN", "Boolean true"}; e = g == a2 ? a2 : a1; }
        else e = p.st == 0 ? vector<string>{"String EXECUTING", "UNKNOWN", "UNKNOWN", "UNKNOWN"} : p.st == 1 ? vector<string>{"String FINISHED", "String SUCCESS", "UNKNOWN", "UNKNOWN"} : vector<string>{p.st == 4 ? "String FAILING" : "String FINISHED", "String INTERRUPTED", "String EXITED", "Boolean true"};
        for (auto &x : g) { auto f = [&](char const *a, char const *b) { if (x == a) x = b; }; f("Boolean 1", "Boolean true"); f("Boolean 0", "Boolean false"); }
        if (g != e) bad += "  lookups of " + string(p.inv ? "LnInv" : "LnWork") + ": " + join(g) + ", expected " + join(e) + "\n";
      }
      { size_t out = 0; for (auto &p : ps) out += p.st == 4; if (w.slowAborts.size() != out) bad += "  " + to_string(w.slowAborts.size()) + " aborts under way, expected " + to_string(out) + "\n"; }
      { vector<string> g = w.query(R, {"PlanState", "PlanOutcome", "PlanFailureType"}); string st = r == 0 ? "WAITING" : r == 1 ? "EXECUTING" : r == 3 ? "ITERATION_ENDED" : "FINISHED";
        string o = "UNKNOWN", f = "UNKNOWN"; if (rout != "-") { size_t s = rout.find('/'); o = "String " + rout.substr(0, s); if (s != string::npos) f = "String " + rout.substr(s + 1); }
        vector<string> e = {"String " + st, o, f}, e2 = {"String " + st, "UNKNOWN", "UNKNOWN"};
        if (g != e && !(r < 2 && g == e2)) bad += "  lookups of R: " + join(g) + ", expected " + join(e) + "\n"; }
      if (w.roots() != alive) bad += "  " + to_string(w.roots()) + " plans in the exec, expected " + to_string(alive) + "\n";
      if ((int)w.works.size() != working) bad += "  " + to_string(w.works.size()) + " LnWork plans at work, expected " + to_string(working) + "\n";
      if (w.aborted != ab) bad += "  " + to_string(w.aborted) + " commands aborted, expected " + to_string(ab) + "\n";
      if (!bad.empty()) bad = "after operation " + to_string(k + 1) + " (" + LNOPS[c[k]] + "):\n" + bad;
    }
    string d; for (auto &p : ps) d += to_string(p.st) + (p.inv ? "i" : p.slow ? "s" : "w"); H::distinct(d + to_string(r) + rout);
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  q.reset();
  if (!bad.empty()) { size_t p = bad.find('\n'); string key = p == string::npos ? bad : bad.substr(p + 3, bad.find_first_of(":\n", p + 3) - p - 3); H::violate("LN " + key, text + bad + "\n" + g_out.substr(0, 600), body); }
  else H::sample(text);
}
void exploreLN() {
  int depth = H::args.thorough ? 6 : 5; uint64_t i = 0; vector<int> seq;
  std::function<void(int, bool, int)> rec = [&](int left, bool any, int r) { // only sequences in which every operation has something to act on
    if (H::full()) return;
    if (!left) { if (!H::mine(i++)) return; if (H::timeUp()) { H::st.capped = true; return; } runLN(seq); return; }
    for (int k = 0; k < NLN; ++k) {
      if (!any && (k == 3 || k == 4 || k == 6 || k == 7)) continue; if (k == 15 && !(std::count(seq.begin(), seq.end(), 14) && (std::count(seq.begin(), seq.end(), 3) + std::count(seq.begin(), seq.end(), 4)))) continue;
            if (k == 8 && r != 0) continue; if ((k == 9 || k == 10) && r != 1) continue; if (k == 13 && r != 3) continue;
      seq.push_back(k); rec(left - 1, any || k < 2 || k == 12 || k == 14, k == 8 ? 1 : k == 9 || k == 10 ? 3 : k == 11 ? (r == 1 ? 3 : r == 0 ? 2 : r) : k == 13 ? 0 : r); seq.pop_back(); } };
  rec(depth, false, 0);
}

// ---- LP: parameters of launched plans
template <class A, class T> Value arr(vector<T> const &v, int hole = -1) { std::vector<T> w(v.begin(), v.end()); A a(w); if (hole >= 0) a.setElementUnknown(hole); return Value(a); }
vector<std::pair<string, Value>> const &paramValues() {
  static vector<std::pair<string, Value>> v; if (!v.empty()) return v;
  for (bool b : {true, false}) v.push_back({"Boolean", Value(b)});
  for (Integer n : {0, 1, -1, 7, 1000000, INT32_MAX, INT32_MIN}) v.push_back({"Integer", Value(n)});
  for (Real d : {0.0, 1.0, -2.5, 0.1, 1.0 / 3, 0.1 + 0.2, 1e300, -1e-300, 5e-324, 123456789.123456789, 1e17 + 64, 3.0000000000000004, std::numeric_limits<double>::max()}) v.push_back({"Real", Value(d)});
  for (string s : {"", " ", "a", "a b", " lead", "trail ", "<&>\"'", "]]>", "UNKNOWN", "1\n2", "\t", "\xc3\xa4", "0", "true"}) v.push_back({"String", Value(s)});
  for (int hole = -1; hole < 2; ++hole) {
    v.push_back({"BooleanArray", arr<BooleanArray, Boolean>({true, false}, hole)});
    v.push_back({"IntegerArray", arr<IntegerArray, Integer>({-3, INT32_MAX}, hole)});
    v.push_back({"RealArray", arr<RealArray, Real>({1.0 / 3, -2.0}, hole)});
    v.push_back({"StringArray", arr<StringArray, String>({"a b", ""}, hole)});
  }
  v.push_back({"IntegerArray", arr<IntegerArray, Integer>({})}); v.push_back({"StringArray", arr<StringArray, String>({"", " ", "<&>", "x"})}); v.push_back({"BooleanArray", arr<BooleanArray, Boolean>({})}); v.push_back({"RealArray", arr<RealArray, Real>({0.1, 1e300, 5})});
  return v;
}
string declP(string const &n, string const &ty, string const &init = "") { size_t p = ty.find("Array"); return p == string::npos ? "<DeclareVariable><Name>" + n + "</Name><Type>" + ty + "</Type>" + (init.empty() ? "" : tag("InitialValue", init)) + "</DeclareVariable>" : "<DeclareArray><Name>" + n + "</Name><Type>" + ty.substr(0, p) + "</Type><MaxSize>8</MaxSize></DeclareArray>"; }
string refP(string const &n, string const &ty) { return tag(ty.find("Array") == string::npos ? ty + "Variable" : "ArrayVariable", n); }
bool sameValue(Value const &a, Value const &b) { return vs(a) == vs(b) && a == b; }
void lpLibs() {
  static bool done = false; if (done) return; done = true;
  vector<string> tys = {"Boolean", "Integer", "Real", "String", "BooleanArray", "IntegerArray", "RealArray", "StringArray"};
  for (auto &t : tys) for (auto &u : tys)
    library("<Node NodeType='Command'><NodeId>Lp" + t + u + "</NodeId><Interface><In>" + declP("p", t) + declP("q", u) + "</In></Interface><NodeBody><Command><Name>" + S("probe") + "</Name><Arguments>" + refP("p", t) + refP("q", u) + "</Arguments></Command></NodeBody></Node>");
}
void runLP(vector<int> const &c) {
  string body = to_string(c[0]) + " " + to_string(c[1]) + " " + to_string(c[2]); H::cell("LP", body); H::st.executions++;
  auto &pv = paramValues(); auto &x = pv[c[0]], &y = pv[c[1]]; string bad;
  std::unique_ptr<Quiet> q(new Quiet);
  try {
    static std::unique_ptr<App> w; // one application serves all the cases of this family
    if (!w) { lpLibs(); w.reset(new App(LAUNCH)); for (auto &v : pv) for (string n : {"lpx", "lpy"}) w->lookups(n + v.first); }
    w->set(State("lpx" + x.first), x.second); w->set(State("lpy" + y.first), y.second); w->a->runExec(); w->probes.clear();
    string px = S("p") + look("lpx" + x.first), py = S("q") + look("lpy" + y.first);
    auto r = w->command("StartPlan", S("Lp" + x.first + y.first) + (c[2] ? py + px : px + py));
    auto hole = [](Value const &v) { StringArray const *sa = nullptr; return v.valueType() == STRING_ARRAY_TYPE && v.getValuePointer(sa) && !sa->allElementsKnown(); }; // no literal has such a value
    if (hole(x.second) || hole(y.second)) { if (r.first != "FAILED" || !w->probes.empty()) bad = "an inexpressible value: StartPlan: " + r.first; }
    else if (r.first != "SUCCESS") bad = "StartPlan: " + r.first;
    else if (w->probes.size() != 1 || w->probes[0].size() != 2) bad = "the plan did not run";
    else if (!sameValue(w->probes[0][0], x.second) || !sameValue(w->probes[0][1], y.second)) bad = "the plan received " + vs(w->probes[0][0]) + " and " + vs(w->probes[0][1]);
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  q.reset(); string text = "StartPlan with " + vs(x.second) + " and " + vs(y.second) + (c[2] ? ", in the opposite order" : ""); H::distinct(text);
  if (!bad.empty()) H::violate("LP " + x.first + " " + bad.substr(0, 20), text + "\n" + bad + "\n" + g_out.substr(0, 600), body); else H::sample(text);
}
void exploreLP() { int n = paramValues().size(); uint64_t i = 0; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int o = 0; o < 2; ++o) { if (H::full()) return; if (H::mine(i++)) runLP({a, b, o}); } }

// ---- LE: argument lists of StartPlan and ExitPlan
struct Arg { char const *show; string xml; }; 
vector<Arg> const &argPool() { static vector<Arg> v = {{"LeCallee", S("LeCallee")}, {"\"LeMissing\"", S("LeMissing")}, {"\"p\"", S("p")}, {"\"q\"", S("q")}, {"\"z\"", S("z")}, {"\"\"", S("")}, {"3", "<IntegerValue>3</IntegerValue>"}, {"4", "<IntegerValue>4</IntegerValue>"}, {"an unknown value", look("leunknown")}, {"true", "<BooleanValue>true</BooleanValue>"}}; return v; }
void runLE(vector<int> const &c) { // c[0]: StartPlan or ExitPlan
  string body, text = c[0] ? "ExitPlan(" : "StartPlan("; for (int x : c) body += to_string(x) + " ";
  H::cell("LE", body); H::st.executions++;
  string xml; for (size_t k = 1; k < c.size(); ++k) { text += string(k > 1 ? ", " : "") + argPool()[c[k]].show; xml += argPool()[c[k]].xml; } text += ")";
  // the model: a name of a plan, then pairs of a parameter name and a value of its type
  bool ok = c.size() > 1 && c[1] == 0; string p = "Integer 5", q2 = "Integer 6"; std::set<int> seen; bool any = false; // any: a parameter the plan does not have, which the loader may ignore
  if (c[0]) ok = false;
  else { if (c.size() % 2) ok = false; for (size_t k = 2; k + 1 < c.size() && ok; k += 2) { int f = c[k], v = c[k + 1]; bool other = f == 4 || f < 2; ok = (other || f == 2 || f == 3) && (other || v == 6 || v == 7) && v != 8 && seen.insert(f).second; if (other) any = true; else if (ok) (f == 2 ? p : q2) = v == 6 ? "Integer 3" : "Integer 4"; } }
  string bad; std::unique_ptr<Quiet> q(new Quiet);
  try {
    static std::unique_ptr<App> w;
    if (!w) { library("<Node NodeType='Command'><NodeId>LeCallee</NodeId><Interface><In>" + declP("p", "Integer", "<IntegerValue>5</IntegerValue>") + declP("q", "Integer", "<IntegerValue>6</IntegerValue>") + "</In></Interface><NodeBody><Command><Name>" + S("probe") + "</Name><Arguments><IntegerVariable>p</IntegerVariable><IntegerVariable>q</IntegerVariable></Arguments></Command></NodeBody></Node>"); w.reset(new App(LAUNCH)); }
    w->probes.clear(); auto r = w->command(c[0] ? "ExitPlan" : "StartPlan", xml);
    if (ok && any && r.first == "FAILED") { if (!w->probes.empty()) bad = "a plan ran"; }
    else if (ok) {
      if (r.first != "SUCCESS" || r.second[0] != '=') bad = "refused: " + r.first;
      else if (w->probes.size() != 1 || vs(w->probes[0][0]) != p || vs(w->probes[0][1]) != q2) bad = "the plan ran " + to_string(w->probes.size()) + " times" + (w->probes.empty() ? "" : ", with " + vs(w->probes[0][0]) + " and " + vs(w->probes[0][1])) + "; expected " + p + " and " + q2;
    } else if (r.first != "FAILED" || r.second != "UNKNOWN") bad = "the command gave " + r.first + " " + r.second + ", expected FAILED";
    else if (!w->probes.empty()) bad = "a plan ran";
    if (bad.empty() && w->roots()) bad = "plans are left over";
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  q.reset(); H::distinct(text);
  if (!bad.empty()) H::violate("LE " + bad.substr(0, 24) + (c.size() > 2 ? string(argPool()[c[2]].show) : ""), text + "\n" + bad + "\n" + g_out.substr(0, 600), body); else H::sample(text);
}
void exploreLE() {
  int depth = H::args.thorough ? 5 : 4, n = argPool().size(); uint64_t i = 0;
  for (int cmd = 0; cmd < 2; ++cmd) { vector<int> seq = {cmd};
    std::function<void(int)> rec = [&](int left) { if (H::full()) return; if (H::mine(i++)) { if (H::timeUp()) { H::st.capped = true; return; } runLE(seq); } if (!left) return; for (int k = 0; k < n; ++k) { seq.push_back(k); rec(left - 1); seq.pop_back(); } };
    rec(cmd ? 2 : depth); }
  // a complete list of two pairs, every order of names and values
  if (!H::args.thorough) for (int a : {2, 3, 4}) for (int b : {6, 7, 8}) for (int c : {2, 3, 4}) for (int d : {6, 7, 8}) if (H::mine(i++)) runLE({0, 0, a, b, c, d});
}

// ---- LA: listeners added by every route
struct Tape { string id; vector<string> got; };
std::map<string, vector<string>> g_tape;
struct TL : ExecListener { string id; TL(string const &i) : id(i) {} TL(pugi::xml_node const x) : ExecListener(x), id(x.attribute("Id").value()) {}
  bool initialize() override { g_tape[id].push_back("init"); return ExecListener::initialize(); } bool start() override { g_tape[id].push_back("start"); return true; } void stop() override { g_tape[id].push_back("stop"); }
  void implementNotifyNodeTransition(NodeTransition const &t) const override { g_tape[id].push_back(t.node->getNodeId() + ":" + nodeStateName(t.newState)); }
  void implementNotifyAddPlan(pugi::xml_node const) const override { g_tape[id].push_back("plan"); }
  void implementNotifyAssignment(Expression const *, string const &n, Value const &v) const override { g_tape[id].push_back(n + "=" + vs(v)); } };
struct LAd : InterfaceAdapter { string id; LAd(AdapterExecInterface &i, AdapterConf *c) : InterfaceAdapter(i, c), id(getXml().attribute("Id").value()) {}
  bool initialize(AdapterConfiguration *a) override { a->addExecListener(new TL(id)); return true; } };
// case: routes of the listeners, in order: 0 before initialisation, 1 in the configuration, 2 by an adapter, 3 after initialisation, 4 after the interfaces were started
void runLA(vector<int> const &c) {
  string body, text; for (int x : c) body += to_string(x) + " "; H::cell("LA", body); H::st.executions++;
  static char const *const rn[] = {"before initialisation", "in the configuration", "by an adapter", "after initialisation", "after the start"};
  string bad; std::unique_ptr<Quiet> q(new Quiet); g_tape.clear();
  try {
    std::unique_ptr<ExecApplication> a(makeExecApplication());
    static bool reg = false; if (!reg) { reg = true; REGISTER_ADAPTER(LAd, "LAd"); REGISTER_EXEC_LISTENER(TL, "TL"); }
    string conf; for (size_t k = 0; k < c.size(); ++k) { text += string("  ") + rn[c[k]] + "\n"; if (c[k] == 1) conf += "<Listener ListenerType='TL' Id='" + to_string(k) + "'/>"; if (c[k] == 2) conf += "<Adapter AdapterType='LAd' Id='" + to_string(k) + "'/>"; }
    auto add = [&](int r) { for (size_t k = 0; k < c.size(); ++k) if (c[k] == r) a->configuration()->addExecListener(new TL(to_string(k))); };
    pugi::xml_document d; d.load_string(("<Interfaces>" + conf + "</Interfaces>").c_str());
    add(0); if (!a->initialize(d.document_element())) bad = "initialisation refused"; add(3);
    if (!a->startInterfaces()) bad = "start refused"; add(4);
    pugi::xml_document p; p.load_string(planx("<Node NodeType='Assignment'><NodeId>N</NodeId><VariableDeclarations><DeclareVariable><Name>x</Name><Type>Integer</Type></DeclareVariable></VariableDeclarations><NodeBody><Assignment><IntegerVariable>x</IntegerVariable><NumericRHS><IntegerValue>3</IntegerValue></NumericRHS></Assignment></NodeBody></Node>").c_str());
    a->manager()->handleAddPlan(p.document_element()); a->runExec();
    a.reset();
    vector<string> ev = {"plan", "N:WAITING", "N:EXECUTING", "x=Integer 3", "N:ITERATION_ENDED", "N:FINISHED"};
    for (size_t k = 0; k < c.size(); ++k) {
      auto v = g_tape[to_string(k)]; vector<string> e, life; for (auto &s : v) (s == "init" || s == "start" || s == "stop" ? life : e).push_back(s);
      vector<string> want = ev; // the assignment is reported with the step in which it happens: only its place between the transitions may differ
      auto strip = [](vector<string> x) { vector<string> r; for (auto &s : x) if (s[0] != 'x') r.push_back(s); return r; };
      if (strip(e) != strip(want) || e.size() != want.size()) bad += "  the listener added " + string(rn[c[k]]) + " saw " + join(e) + ", expected " + join(want) + "\n";
      if (c[k] < 3 && (life.size() < 2 || life[0] != "init" || life[1] != "start" || (life.size() > 2 && life[2] != "stop") || life.size() > 3)) bad += "  the listener added " + string(rn[c[k]]) + " was driven " + join(life) + "\n";
    }
    if (g_tape.size() != c.size()) bad += "  " + to_string(g_tape.size()) + " listeners, expected " + to_string(c.size()) + "\n";
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  q.reset(); H::distinct(body);
  if (!bad.empty()) H::violate("LA " + bad.substr(0, bad.find(" saw")), "listeners added\n" + text + bad, body); else H::sample(text);
}
void exploreLA() { uint64_t i = 0; vector<int> seq; int depth = H::args.thorough ? 5 : 4; std::function<void(int)> rec = [&](int left) { if (H::full()) return; if (H::mine(i++)) runLA(seq); if (left) for (int k = 0; k < 5; ++k) { seq.push_back(k); rec(left - 1); seq.pop_back(); } }; rec(depth); }

// ---- MS: messages received, accepted, read and released
MessageAdapter *g_ma = nullptr;
struct MsApp : App { MessageAdapter *ma;
  MsApp() : App("<Interfaces/>", [](ExecApplication &x) { pugi::xml_document d; d.load_string("<Adapter AdapterType='Message'/>"); InterfaceAdapter *i = AdapterFactory::createInstance(d.document_element(), *x.manager()); if (!i) throw std::runtime_error("no message adapter"); g_ma = dynamic_cast<MessageAdapter *>(i); x.configuration()->addInterfaceAdapter(i); }), ma(g_ma) { a->runExec(); }
  // the values of lookups, read by a plan
  vector<string> read(string const &args) { string id = "ask" + to_string(++g_serial); probes.clear(); plan("<Node NodeType='Command'><NodeId>" + id + "</NodeId><NodeBody><Command><Name>" + S("probe") + "</Name><Arguments>" + args + "</Arguments></Command></NodeBody></Node>"); a->runExec(); vector<string> r; if (probes.size() != 1) return {"no answer"}; for (auto &v : probes[0]) r.push_back(vs(v)); probes.clear(); return r; } };
struct Msg { char const *sender, *text; vector<Value> pars; };
vector<Msg> const &msPool() { static vector<Msg> v = {{"alice", "go", {}}, {"", "stop now", {Value((Integer) 3), Value()}}, {"bob", "", {Value(2.5), Value(string("x")), Value(true)}}}; return v; }
string lk(string const &n, string const &a = "", bool change = false) { return tag(change ? "LookupOnChange" : "LookupNow", tag("Name", S(n)) + (a.empty() ? "" : tag("Arguments", a))); }
string I(int n) { return tag("IntegerValue", to_string(n)); }
char const *MSOPS[] = {"receive go", "receive stop now", "receive an empty text", "get a handle", "release the oldest handle", "release the newest handle", "release it again", "release a handle that does not exist", "watch the parameter count of the newest", "watch the text of the newest", "watch everything of the newest"};
int const NMS = 11;
void runMS(vector<int> const &c) {
  string body, text; for (int x : c) { body += to_string(x) + " "; text += string("  ") + MSOPS[x] + "\n"; }
  H::cell("MS", body); H::st.executions++; string bad; std::unique_ptr<Quiet> q(new Quiet);
  try {
    MsApp w; std::vector<int> queue; struct Hd { string h; int m; bool live; vector<string> watch; }; vector<Hd> hs; std::set<string> names;
    auto check = [&](string const &when) {
      H::st.evaluations++;
      vector<string> want = {queue.empty() ? "Boolean false" : "Boolean true", queue.empty() ? "UNKNOWN" : string("String ") + msPool()[queue[0]].text, queue.empty() ? "UNKNOWN" : string("String ") + msPool()[queue[0]].sender}; string as = lk("HaveMessage") + lk("PeekAtMessage") + lk("PeekAtMessageSender");
      for (auto &x : hs) { auto &m = msPool()[x.m]; string h = S(x.h); as += lk("MessageText", h) + lk("MessageSender", h) + lk("MessageParameterCount", h) + tag("IsKnown", lk("MessageArrived", h));
        for (string s : {string("String ") + m.text, string("String ") + m.sender, "Integer " + to_string(m.pars.size())}) want.push_back(x.live ? s : "UNKNOWN"); want.push_back(x.live ? "Boolean true" : "Boolean false");
        for (int k = 0; k < 4; ++k) { as += lk("MessageParameter", h + I(k)); want.push_back(x.live && k < (int) m.pars.size() ? vs(m.pars[k]) : "UNKNOWN"); } }
      auto got = w.read(as); if (got.size() == want.size()) for (size_t k = 0; k < got.size(); ++k) if (got[k] != want[k] && !(got[k] == "UNKNOWN" && want[k] == "String ")) // an unknown sender may be shown either way
        { bad += "  " + when + ": item " + to_string(k) + ": " + got[k] + ", expected " + want[k] + " in " + join(got) + "\n"; break; }
      if (got.size() != want.size()) bad += "  " + when + ": " + join(got) + "\n";
      for (auto &x : hs) for (auto &id : x.watch) { bool run = false; for (auto &p : w.a->exec()->getPlans()) run = run || p->getNodeId() == id; if (run != x.live) { bad += "  " + when + ": a plan waiting for the release of " + x.h + (run ? " was not told\n" : " was told before\n"); break; } }
    };
    check("at first");
    for (size_t k = 0; k < c.size() && bad.empty(); ++k) {
      H::st.transitions++; string when = "after step " + to_string(k + 1) + " (" + MSOPS[c[k]] + ")"; Hd *last = nullptr, *first = nullptr; for (auto &x : hs) if (x.live) { if (!first) first = &x; last = &x; }
      auto release = [&](string const &h) { auto p = w.command("ReleaseMessageHandle", S(h)); if (p.first != "SUCCESS") bad += "  " + when + ": ReleaseMessageHandle: " + p.first + "\n"; };
      switch (c[k]) {
        case 0: case 1: case 2: { auto &m = msPool()[c[k]]; State s(m.text, m.pars); if (*m.sender) w.ma->receiveMessage(m.sender, s); else w.ma->receiveMessageAnonymously(s); queue.push_back(c[k]); w.a->runExec(); break; }
        case 3: { auto p = w.command("GetMessageHandle", ""); if (p.first != "SUCCESS") bad += "  " + when + ": GetMessageHandle: " + p.first + "\n"; else if (queue.empty()) { if (p.second != "UNKNOWN") bad += "  " + when + ": a handle without a message: " + p.second + "\n"; }
          else { if (p.second.size() < 2 || p.second[0] != '=') bad += "  " + when + ": no handle: " + p.second + "\n"; else if (!names.insert(p.second).second) bad += "  " + when + ": the handle " + p.second + " was given twice\n"; else { hs.push_back({p.second.substr(1), queue[0], true, {}}); queue.erase(queue.begin()); } } break; }
        case 4: if (first) { release(first->h); first->live = false; } break;
        case 5: if (last) { release(last->h); last->live = false; } break;
        case 6: for (auto &x : hs) if (!x.live) release(x.h); break;
        case 7: release("no such handle"); break;
        default: if (last) { // plans that wait until the lookups are unknown
          string h = S(last->h); vector<string> ls; if (c[k] != 9) ls.push_back(lk("MessageParameterCount", h, true)); if (c[k] != 8 ) ls.push_back(lk("MessageText", h, true)); if (c[k] == 10) { ls.push_back(lk("MessageSender", h, true)); ls.push_back(lk("MessageArrived", h, true)); if (msPool()[last->m].pars.size()) ls.push_back(lk("MessageParameter", h + I(0), true)); }
          if (c[k] == 10 && !*msPool()[last->m].sender) ls.erase(ls.begin() + 2);
          for (auto &l : ls) { string id = "watch" + to_string(++g_serial); w.plan("<Node NodeType='Empty'><NodeId>" + id + "</NodeId><EndCondition>" + tag("NOT", tag("IsKnown", l)) + "</EndCondition></Node>"); last->watch.push_back(id); } w.a->runExec(); } break;
      }
      if (bad.empty()) check(when);
    }
  } catch (std::exception const &e) { bad += string("  exception: ") + e.what(); }
  q.reset(); H::distinct(text);
  if (!bad.empty()) H::violate("MS " + bad.substr(0, bad.find(':', 25)), text + bad + "\n" + g_out.substr(0, 600), body); else if (c.size() > 3) H::sample(text);
}
void exploreMS() {
  int depth = H::args.thorough ? 6 : 5; uint64_t i = 0; vector<int> seq;
  std::function<void(int, int, int, int)> rec = [&](int left, int queued, int live, int dead) { if (H::full()) return; if (H::mine(i++)) { if (H::timeUp()) { H::st.capped = true; return; } runMS(seq); } if (!left) return;
    for (int k = 0; k < NMS; ++k) { if (!live && (k == 4 || k == 5 || k > 7)) continue; if (live < 2 && k == 4) continue; if (!dead && k == 6) continue;
      seq.push_back(k); bool g = k == 3 && queued, r = k == 4 || k == 5; rec(left - 1, queued + (k < 3) - g, live + g - r, dead + r); seq.pop_back(); } };
  rec(depth, 0, 0, 0);
}
// ---- MA: argument lists of the message commands
void runMA(vector<int> const &c) {
  static char const *const CN[] = {"GetMessageHandle", "ReleaseMessageHandle", "PublishMessage", "SendMessage"};
  static vector<Arg> const pool = {{"\"a\"", S("a")}, {"\"\"", S("")}, {"3", I(3)}, {"an unknown value", lk("maunknown")}, {"true", "<BooleanValue>true</BooleanValue>"}, {"unknown + \"\"", tag("Concat", lk("maunknown") + S(""))}};
  string body, text = string(CN[c[0]]) + "("; for (int x : c) body += to_string(x) + " ";
  H::cell("MA", body); H::st.executions++;
  string xml; for (size_t k = 1; k < c.size(); ++k) { text += string(k > 1 ? ", " : "") + pool[c[k]].show; xml += pool[c[k]].xml; } text += ")";
  auto str = [&](size_t k) { return k < c.size() && c[k] < 2; }; string bad; std::unique_ptr<Quiet> q(new Quiet);
  auto unk = [&](size_t k) { return k < c.size() && (c[k] == 3 || c[k] == 5); };
  // 1 to be accepted, 0 to be refused, 2 either: superfluous arguments, a release of an unknown handle, and what happens to a message that no transport carries
  int want = c[0] == 0 ? (c.size() == 1 ? 1 : 2) : c[0] == 1 ? (unk(1) ? 2 : !str(1) ? 0 : c.size() > 2 ? 2 : 1) : c[0] == 2 ? (str(1) ? 3 : 0) : str(1) && str(2) ? 3 : 0;
  try {
    static std::unique_ptr<MsApp> w; if (!w) w.reset(new MsApp);
    auto r = w->command(CN[c[0]], xml); string h = r.first;
    if (h != "SUCCESS" && h != "FAILED" && !(h == "INTERFACE_ERROR" && want == 3)) bad = "the command handle is " + h;
    else if (want == 1 && h != "SUCCESS") bad = "refused: " + h; else if (want == 0 && h != "FAILED") bad = "accepted: " + h;
    if (bad.empty() && w->roots()) bad = "the command did not end";
    if (bad.empty()) { auto v = w->read(lk("HaveMessage")); if (v[0] != "Boolean false") bad = "HaveMessage is " + v[0]; }
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  q.reset(); H::distinct(text);
  if (!bad.empty()) H::violate("MA " + string(CN[c[0]]) + bad.substr(0, 24), text + "\n" + bad + "\n" + g_out.substr(0, 600), body); else H::sample(text);
}
void exploreMA() { int depth = H::args.thorough ? 5 : 4; uint64_t i = 0; for (int cmd = 0; cmd < 4; ++cmd) { vector<int> seq = {cmd}; std::function<void(int)> rec = [&](int left) { if (H::full()) return; if (H::mine(i++)) runMA(seq); if (!left) return; for (int k = 0; k < 6; ++k) { seq.push_back(k); rec(left - 1); seq.pop_back(); } }; rec(depth); } }
}
int main(int argc, char **argv) {
  PlanError::doThrowExceptions();
  return H::run(argc, argv, {
    {"MS", exploreMS, [](string const &b) { runMS(ints(b)); }},
    {"MA", exploreMA, [](string const &b) { runMA(ints(b)); }},
    {"LA", exploreLA, [](string const &b) { runLA(ints(b)); }},
    {"LN", exploreLN, [](string const &b) { runLN(ints(b)); }},
    {"LP", exploreLP, [](string const &b) { runLP(ints(b)); }},
    {"LE", exploreLE, [](string const &b) { runLE(ints(b)); }}});
}
