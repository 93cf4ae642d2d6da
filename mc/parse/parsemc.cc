// Exhaustive structural mutation of plan documents, and generated documents of known standing,
// through the real loader; whatever is accepted is also run.
#include "harness.hh"
#include "corpus.hh"
#include "PlexilExec.hh"
#include "Dispatcher.hh"
#include "ExecListenerBase.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "Command.hh"
#include "Update.hh"
#include "State.hh"
#include "StateCache.hh"
#include "LookupReceiver.hh"
#include "Value.hh"
#include "Expression.hh"
#include "Error.hh"
#include "PlanError.hh"
#include "Logging.hh"
#include "InterfaceError.hh"
#include "ParserException.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "SymbolTable.hh"
#include "plan-utils.hh"
#include "pugixml.hpp"
#include <memory>
#include <regex>
using namespace PLEXIL; using std::string; using std::vector;
static unsigned const OPT = pugi::parse_default | pugi::parse_ws_pcdata_single;
struct Endless {};   // a plan that repeats for ever without waiting for anything
// The environment of a plan: everything it asks for is answered.
struct World : Dispatcher, ExecListenerBase {
  std::unique_ptr<PlexilExec> exec; vector<Command *> cmds; vector<Update *> upds; unsigned transitions = 0, inStep = 0; double t = 1; bool xReal = false;
  World() : exec(makePlexilExec()) { g_exec = exec.get(); g_dispatcher = this; exec->setDispatcher(this); exec->setExecListener(this); StateCache::instance().incrementCycleCount(); wipe(); }
  void wipe() { for (char const *n : {"x", "y", "z", "undeclared", "time"}) StateCache::instance().lookupReturn(State(n), Value()); }
  ~World() { exec.reset(); g_exec = nullptr; g_dispatcher = nullptr; }
  void lookupNow(State const &s, LookupReceiver *r) override {
    // values of the declared type only
    if (xReal && s.name() == "x") r->update((Real)1.5); else r->setUnknown();
  }
  void setThresholds(const State &, Real, Real) override {}
  void setThresholds(const State &, Integer, Integer) override {}
  void clearThresholds(const State &) override {}
  void executeCommand(Command *c) override { cmds.push_back(c); }
  void reportCommandArbitrationFailure(Command *c) override { commandHandleReturn(c, COMMAND_DENIED); }
  void invokeAbort(Command *c) override { commandAbortAcknowledge(c, true); }
  void executeUpdate(Update *u) override { upds.push_back(u); }
  void notifyOfTransitions(vector<NodeTransition> const &v) override { transitions += v.size(); if (++inStep > 3000) throw Endless(); }
  void notifyOfAssignment(Expression const *, string const &, Value const &) override {}
  void stepComplete(unsigned int) override {}
  void go() {
    for (int i = 0; i < 14; ++i) {
      int n = 0;
      while (n++ < 25 && exec->needsStep()) { StateCache::instance().incrementCycleCount(); inStep = 0; exec->step(t += 1); }
      auto c = cmds; cmds.clear(); auto u = upds; upds.clear();
      for (auto x : c) { if (i == 0) cmds.push_back(x), commandHandleReturn(x, COMMAND_SENT_TO_SYSTEM); else { if (i & 1) commandReturn(x, Value((Integer)1)); commandHandleReturn(x, COMMAND_SUCCESS); } }
      for (auto x : u) x->acknowledge(true);
      if (!xReal) continue; if (i == 3) StateCache::instance().lookupReturn(State("x"), Value(2.5));
      if (i == 4) StateCache::instance().lookupReturn(State("x"), Value());
    }
  }
};
enum Res { ACCEPT, REJECT, BAD };
struct Out { Res r = REJECT; string why, site; bool libs = true; };
static string norm(string s) { s = std::regex_replace(s, std::regex("\"[^\"]*\"|'[^']*'|[0-9]+|0x[0-9a-f]+"), "#"); for (char &c : s) if (c == '\n') c = ' '; return s.substr(0, 160); }
static string g_stage;
// Load the libraries, then the plan; run the plan if accepted.
static Out load(vector<string> const &libs, string const &plan, bool runIt) {
  Out o;
  auto guard = [&](std::function<void()> f) {
    try { f(); }
    catch (Endless const &) { o.why = "endless"; ++H::st.counters["plans that repeat for ever"]; }
    catch (ParserException const &e) { if (o.r != BAD) { o.r = REJECT; o.why = e.what(); } if (g_stage != "load" && g_stage != "library") { o.r = BAD; o.why = "ParserException at " + g_stage + ": " + e.what(); } }
    catch (PlanError const &e) { std::ostringstream x; x << e; string f = x.str(); if (g_stage == "run") for (char const *ok : {"rray index", "Command resource ", "exceeds", "Attempt to acquire", "index", "trying to get a", "Attempt to get a"}) if (f.find(ok) != string::npos) { o.why = "value"; return; }   // depends on values, not on the document
      o.r = BAD; o.why = "plan error at " + g_stage + ": " + f; size_t k = f.rfind('/'); o.site = "plan error at " + g_stage + ": " + (k == string::npos ? norm(f) : f.substr(k + 1)); }
    catch (Error const &e) { { std::ostringstream x; x << e; if (g_stage == "run" && x.str().find("trying to get a") != string::npos) { o.why = "value"; return; } }   // an undeclared lookup answered with a type the plan does not expect
      o.r = BAD; std::ostringstream x; x << e; string f = x.str(); o.why = "internal error at " + g_stage + ": " + f; size_t k = f.rfind('/'); o.site = "internal error at " + g_stage + ": " + (k == string::npos ? norm(f) : f.substr(k + 1)); }
    catch (std::exception const &e) { o.r = BAD; o.why = "exception at " + g_stage + ": " + e.what(); }
  };
  g_stage = "library"; bool libsOk = true; string libWhy;
  for (auto &l : libs) guard([&] {
    std::unique_ptr<pugi::xml_document> d(new pugi::xml_document);
    if (!d->load_string(l.c_str(), OPT)) throw std::runtime_error("harness: library text");
    if (!loadLibraryDocument(d.release())) { libsOk = false; libWhy = "library rejected"; }
  });
  if (o.r == BAD) return o;
  World w; w.xReal = libs.empty() && plan.find("<StateDeclaration><Name>x</Name><Return><Name>_</Name><Type>Real</Type></Return></StateDeclaration>") != string::npos; pugi::xml_document d; NodeImpl *n = nullptr;
  g_stage = "load";
  guard([&] { if (!d.load_string(plan.c_str(), OPT)) throw std::runtime_error("harness: plan text"); n = parsePlan(d.document_element()); o.r = ACCEPT; if (!n) { o.r = BAD; o.why = "accepted without a plan"; } });
  if (o.r == ACCEPT) {
    if (runIt) { g_stage = "run"; guard([&] { w.exec->addPlan(n); w.go(); H::st.transitions += w.transitions; }); }
    else guard([&] { delete n; });
  }
  g_stage = "delete"; guard([&] { w.exec.reset(); });
  o.libs = libsOk; return o;
}
static std::streambuf *quiet() { static std::ostringstream sink; sink.str(""); return std::cerr.rdbuf(sink.rdbuf()); }
static string text(pugi::xml_node n) { std::ostringstream o; n.print(o, "", pugi::format_raw); return o.str(); }
static string pack(vector<string> const &libs, string const &plan) { string s; for (auto &l : libs) s += "LIB\t" + l + "\n"; return s + "PLAN\t" + plan + "\n"; }
// Documents may contain newlines only through mutation texts; none of those has one.
static void unpack(string const &b, vector<string> &libs, string &plan) { std::stringstream s(b); string l; while (getline(s, l)) { if (l.compare(0, 4, "LIB\t") == 0) libs.push_back(l.substr(4)); else if (l.compare(0, 5, "PLAN\t") == 0) plan = l.substr(5); } }
static vector<string> clibs(Doc const &d) { return vector<string>(d.libs.begin(), d.libs.end()); }
static char const *const SANE = "<PlexilPlan>" "<Node NodeType='NodeList'><NodeId>Sane</NodeId><VariableDeclarations>" DV("v", "Integer", INIT("<IntegerValue>1</IntegerValue>")) "</VariableDeclarations>"
  LISTB("<Node NodeType='Assignment'><NodeId>A</NodeId><NodeBody><Assignment><IntegerVariable>v</IntegerVariable><NumericRHS><ADD><IntegerVariable>v</IntegerVariable><IntegerValue>1</IntegerValue></ADD></NumericRHS></Assignment></NodeBody></Node>") "</Node></PlexilPlan>";
// One document: load, run, and then load something known good.
static Out judge(string const &key, vector<string> const &libs, string const &plan) {
  auto *old = quiet();
  Out o = load(libs, plan, true); ++H::st.executions;
  Out s = load({}, SANE, true);
  std::cerr.rdbuf(old);
  if (o.r == BAD) H::violate(o.site.empty() ? norm(o.why) : o.site, key + "\n" + o.why, pack(libs, plan));
  if (s.r != ACCEPT) H::violate("a valid plan is refused after: " + key, s.why, pack(libs, plan));
  H::st.counters[o.r == ACCEPT ? "accepted" : o.r == REJECT ? "rejected" : "bad"]++;
  if (o.r == REJECT) H::distinct(norm(o.why)); else H::distinct("A" + pack(libs, plan));
  return o;
}
static char const *const TAGS[] = {"PlexilPlan", "GlobalDeclarations", "CommandDeclaration", "Return", "Parameter", "AnyParameters", "StateDeclaration", "LibraryNodeDeclaration", "Node", "NodeId", "Comment", "Priority", "UsingMutex", "Interface", "In", "InOut", "NodeBody", "Assignment", "NumericRHS", "BooleanRHS", "StringRHS", "LibraryNodeCall", "Alias", "NodeParameter", "NodeList", "VariableDeclarations", "DeclareVariable", "Name", "Type", "InitialValue", "DeclareArray", "MaxSize", "DeclareMutex", "Condition", "StartCondition", "RepeatCondition", "PreCondition", "PostCondition", "InvariantCondition", "EndCondition", "ExitCondition", "SkipCondition", "NodeRef", "Timepoint", "Arguments", "LookupNow", "LookupOnChange", "Pair", "Tolerance", "Command", "Update", "Resource", "ResourceList", "ResourceName", "ResourcePriority", "ResourceUpperBound", "ResourceReleaseAtTermination", "ArrayElement", "Index", "StringValue", "ArrayValue", "BooleanValue", "IntegerValue", "RealValue", "DateValue", "DurationValue", "NodeStateValue", "NodeOutcomeValue", "NodeFailureValue", "NodeCommandHandleValue", "Assume", "Desire", "Expect",
  "ABS", "ADD", "ALL_KNOWN", "AND", "ANY_KNOWN", "ArraySize", "ArrayMaxSize", "ArrayVariable", "BooleanVariable", "CEIL", "Concat", "DIV", "EQArray", "EQBoolean", "EQInternal", "EQNumeric", "EQString", "Executing", "Failed", "Finished", "FLOOR", "GE", "GT", "Inactive", "IntegerVariable", "IsKnown", "IterationEnded", "LE", "LT", "MAX", "MIN", "MOD", "MUL", "NEArray", "NEBoolean", "NEInternal", "NENumeric", "NEString", "NOT", "NodeCommandHandleVariable", "NodeFailureVariable", "NodeOutcomeVariable", "NodeStateVariable", "NodeTimepointValue", "NoChildFailed", "OR", "PostconditionFailed", "REAL_TO_INT", "ROUND", "RealVariable", "SQRT", "STRLEN", "SUB", "Skipped", "StringVariable", "Succeeded", "TRUNC", "Waiting", "XOR", "Bogus", "BogusVariable", "BogusCondition"};
static char const *const PAYLOADS[] = {"<BooleanValue>true</BooleanValue>", "<BooleanValue>UNKNOWN</BooleanValue>", "<IntegerValue>2</IntegerValue>", "<IntegerValue>UNKNOWN</IntegerValue>", "<RealValue>1.5</RealValue>", "<StringValue>zz</StringValue>", "<StringValue/>", "<ArrayValue Type='Integer'><IntegerValue>1</IntegerValue></ArrayValue>", "<ArrayValue Type='String'/>", "<NodeStateValue>WAITING</NodeStateValue>", "<NodeOutcomeValue>SUCCESS</NodeOutcomeValue>", "<NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue>", "<IntegerVariable>i</IntegerVariable>", "<BooleanVariable>b</BooleanVariable>", "<StringVariable>s</StringVariable>", "<ArrayVariable>a</ArrayVariable>", "<RealVariable>nosuch</RealVariable>", "<LookupNow>" NM("x") "</LookupNow>", "<LookupOnChange>" NM("undeclared") "</LookupOnChange>", "<ArrayElement><Name>a</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>", "<ArrayElement><Name>a</Name><Index><IntegerValue>-1</IntegerValue></Index></ArrayElement>", "<ADD><IntegerValue>1</IntegerValue><RealValue>2</RealValue></ADD>", "<AND/>", "<SUB/>", "<NodeStateVariable><NodeRef dir='self'/></NodeStateVariable>", "<NodeStateVariable><NodeRef dir='parent'/></NodeStateVariable>", "<Finished><NodeId>A</NodeId></Finished>", "<NodeRef dir='parent'/>", "<NodeId>Lib</NodeId>",
  "<Node NodeType='Empty'><NodeId>Payload</NodeId></Node>", "<Name>m</Name>", "<NodeBody/>", "<NodeList/>", "text", "<!-- c -->", "<![CDATA[cd]]>", "<Type>Integer</Type>", "<Interface/>", "<Interface><In><DeclareVariable><Name>zzz</Name><Type>Integer</Type></DeclareVariable></In></Interface>", "<UsingMutex><Name>m</Name></UsingMutex>", "<VariableDeclarations><DeclareMutex><Name>m</Name></DeclareMutex></VariableDeclarations>", "<Pair><Name>p</Name><IntegerValue>1</IntegerValue></Pair>", "<Arguments/>", "<MaxSize>0</MaxSize>", "<InitialValue/>"};
static char const *const TEXTS[] = {"", " ", "x", "0", "-1", "1", "true", "UNKNOWN", "99999999999999999999", "2147483647", "2147483648", "-2147483649", "1e999", "1.5", "NaN", "0x10", "+5", " 7 ", "Integer", "Boolean", "String", "Real", "Date", "Duration", "Any", "BooleanArray", "IntegerArray", "NodeState", "i", "b", "s", "a", "A", "B", "m", "self", "parent", "Lib", "FINISHED", "SUCCESS", "START", "END", "INACTIVE", "COMMAND_UNKNOWN", "go", "any", "p", "o", "time", "100000000"};
static char const *const ATTRV[] = {"", "x", "Empty", "NodeList", "Command", "Assignment", "Update", "LibraryNodeCall", "child", "parent", "sibling", "self", "Integer", "Real", "String", "Boolean", "Date", "Any", "IntegerArray", "UNKNOWN"};
template <typename T, size_t N> static constexpr size_t len(T const (&)[N]) { return N; }
struct Place { int kind; vector<int> path; string attr; };   // 0 element, 1 text, 2 attribute
static void places(pugi::xml_node n, vector<int> &path, vector<Place> &out) {
  if (n.type() == pugi::node_element) { out.push_back({0, path, ""}); for (auto a : n.attributes()) out.push_back({2, path, a.name()}); if (!n.first_child()) out.push_back({1, path, ""}); }
  else if (n.type() == pugi::node_pcdata) out.push_back({1, path, "t"});
  int i = 0; for (auto c : n.children()) { path.push_back(i++); places(c, path, out); path.pop_back(); }
}
static pugi::xml_node at(pugi::xml_node n, vector<int> const &p) { for (int i : p) { pugi::xml_node c = n.first_child(); while (i-- > 0) c = c.next_sibling(); n = c; } return n; }
static size_t choices(Place const &p) { return p.kind == 0 ? 12 + len(TAGS) + 2 * len(PAYLOADS) : p.kind == 1 ? len(TEXTS) : 2 + len(ATTRV); }
static void put(pugi::xml_node where, string const &xml, bool before) {
  pugi::xml_document d; d.load_string(("<R>" + xml + "</R>").c_str(), pugi::parse_full | pugi::parse_ws_pcdata_single);
  for (auto c : d.document_element().children()) if (before) where.parent().insert_copy_before(c, where); else where.append_copy(c);
}
// Applies mutation number m at place p.  Gives its name, or "" when it changes nothing or is not well formed.
static string mutate(pugi::xml_node root, Place const &p, size_t m) {
  pugi::xml_node n = at(root, p.path); if (!n) return "";
  if (p.kind == 2) {
    if (m == 0) { n.remove_attribute(p.attr.c_str()); return "remove attribute " + p.attr; }
    if (m == 1) { n.attribute(p.attr.c_str()).set_name("other"); return "rename attribute " + p.attr; }
    n.attribute(p.attr.c_str()).set_value(ATTRV[m - 2]); return "set " + p.attr + "=" + ATTRV[m - 2];
  }
  if (p.kind == 1) {
    if (!strcmp(p.attr == "t" ? n.parent().name() : n.name(), "MaxSize") && atof(TEXTS[m]) >= 1e7) return "";   // room for that many elements is a resource question
    if (p.attr == "t") { if (!*TEXTS[m]) { n.parent().remove_child(n); return "remove text"; } n.set_value(TEXTS[m]); } else { if (!*TEXTS[m]) return ""; n.append_child(pugi::node_pcdata).set_value(TEXTS[m]); }
    return string("text '") + TEXTS[m] + "'";
  }
  pugi::xml_node par = n.parent(); bool root0 = p.path.empty(); string nm = n.name();
  switch (m) {
  case 0: if (root0) return ""; par.remove_child(n); return "delete " + nm;
  case 1: if (root0) return ""; par.insert_copy_after(n, n); return "duplicate " + nm;
  case 2: { if (root0) return ""; pugi::xml_node s = n.next_sibling(); if (!s) return ""; par.insert_move_before(s, n); return "swap " + nm; }
  case 3: if (root0) return ""; if (!n.next_sibling()) return ""; par.append_move(n); return "move to the end " + nm;
  case 4: { if (root0) return ""; if (!n.first_child()) return ""; while (n.first_child()) par.insert_move_before(n.first_child(), n); par.remove_child(n); return "unwrap " + nm; }
  case 5: if (!n.first_child()) return ""; while (n.first_child()) n.remove_child(n.first_child()); return "empty " + nm;
  case 6: if (n.first_child().type() != pugi::node_element) return ""; n.remove_child(n.first_child()); return "drop the first child of " + nm;
  case 7: if (n.last_child().type() != pugi::node_element || n.last_child() == n.first_child()) return ""; n.remove_child(n.last_child()); return "drop the last child of " + nm;
  case 8: { if (root0) return ""; pugi::xml_node w = par.insert_child_before(nm.c_str(), n); w.append_move(n); return "wrap in itself " + nm; }
  case 9: { if (root0) return ""; par.parent() ? (void)par.parent().insert_copy_after(n, par) : (void)0; return par.parent() && par.parent().type() == pugi::node_element ? "copy outwards " + nm : ""; }
  case 10: { pugi::xml_node s = n.previous_sibling(); if (root0 || !s || s.type() != pugi::node_element) return ""; s.append_move(n); return "move into the preceding " + nm; }
  case 11: { if (root0 || n.attributes_begin() != n.attributes_end()) return ""; n.append_attribute("extra").set_value("1"); return "attribute on " + nm; }
  }
  m -= 12;
  if (m < len(TAGS)) { if (nm == TAGS[m]) return ""; n.set_name(TAGS[m]); return "rename " + nm + " to " + TAGS[m]; }
  m -= len(TAGS);
  if (m < len(PAYLOADS)) { if (root0) return ""; put(n, PAYLOADS[m], true); par.remove_child(n); return "replace " + nm + " by " + PAYLOADS[m]; }
  m -= len(PAYLOADS); put(n, PAYLOADS[m], false); return "append to " + nm + " " + PAYLOADS[m];
}
static bool wellFormedRoot(pugi::xml_document &d) { int k = 0; for (auto c : d.children()) { if (c.type() != pugi::node_element) return false; ++k; } return k == 1; }
static void oneCase(Doc const &d, int target, pugi::xml_document &x, string const &name, char const *family = "MU") {
  if (!wellFormedRoot(x)) return;
  string t = text(x.document_element()); pugi::xml_document chk; if (!chk.load_string(t.c_str(), OPT)) return;
  auto libs = clibs(d); string plan = d.plan; if (target < 0) plan = t; else libs[target] = t;
  string body = pack(libs, plan); H::cell(family, body);
  judge(string(d.name) + (target < 0 ? "" : " (library)") + ": " + name, libs, plan);
}
static void single() {
  uint64_t c = 0;
  for (auto &d : CORPUS) {
    { auto *old = quiet(); Out o = load(clibs(d), d.plan, true); std::cerr.rdbuf(old); if (o.r != ACCEPT) H::violate(string("valid document ") + d.name + " refused", o.why, pack(clibs(d), d.plan)); }
    for (int t = -1; t < (int)d.libs.size(); ++t) {
      pugi::xml_document base; base.load_string(t < 0 ? d.plan : d.libs[t], OPT);
      vector<Place> pl; vector<int> path; places(base.document_element(), path, pl);
      for (auto &p : pl) for (size_t m = 0; m < choices(p); ++m) {
        if (!H::mine(c++)) continue; if (H::full()) return; if (H::timeUp()) { H::st.capped = true; return; }
        pugi::xml_document x; x.reset(base); string nm = mutate(x.document_element(), p, m); if (nm.empty()) { ++H::st.skipped; continue; }
        oneCase(d, t, x, nm);
      }
    }
  }
}
// Two structural mutations close to each other: the second within the parent of the first, at most two levels down
// (thorough: the second anywhere from the first on).
static void twice() {
  uint64_t c = 0; static size_t const TX[] = {0, 2, 3, 7};   // texts: none, x, 0, UNKNOWN
  for (auto &d : CORPUS) for (int t = -1; t < (int)d.libs.size(); ++t) {
    pugi::xml_document base; base.load_string(t < 0 ? d.plan : d.libs[t], OPT);
    vector<Place> pl; vector<int> path; places(base.document_element(), path, pl);
    for (auto &p : pl) {
      if (p.kind != 0) continue;
      for (size_t m = 0; m < 12; ++m) {
        if (!H::mine(c++)) continue; if (H::full()) return; if (H::timeUp()) { H::st.capped = true; return; }
        pugi::xml_document x; x.reset(base); string nm = mutate(x.document_element(), p, m); if (nm.empty() || !wellFormedRoot(x)) { ++H::st.skipped; continue; }
        pugi::xml_document x1; if (!x1.load_string(text(x.document_element()).c_str(), OPT)) continue;
        vector<Place> pl2; vector<int> path2; places(x1.document_element(), path2, pl2); size_t up = p.path.size() ? p.path.size() - 1 : 0;
        for (auto &q : pl2) {
          if (q.kind == 2) continue; if (H::args.thorough) { if (q.path < p.path) continue; } else if (q.path.size() > up + 3 || q.path.size() < up || !std::equal(p.path.begin(), p.path.begin() + up, q.path.begin())) continue;
          for (size_t k = 0; k < (q.kind ? len(TX) : 12); ++k) {
            if (H::full()) return;
            pugi::xml_document y; y.reset(x1); string n2 = mutate(y.document_element(), q, q.kind ? TX[k] : k); if (n2.empty()) { ++H::st.skipped; continue; }
            oneCase(d, t, y, nm + "; " + n2, "MU2");
          }
        }
      }
    }
  }
}
static void mureplay(string const &b) { vector<string> libs; string plan; unpack(b, libs, plan); judge("replayed", libs, plan); }
#include "rules.hh"
int main(int argc, char **argv) {
  Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions();
  return H::run(argc, argv, {{"MU", single, mureplay}, {"MU2", twice, mureplay}, {"RU", rules::all, rules::replay}});
}
