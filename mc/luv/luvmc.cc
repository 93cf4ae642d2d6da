// The plan viewer's listener in a real application, with the viewer replaced by one in memory (C35):
// LT what the viewer is told over every bounded history, LV texts with special characters, LF faults of the connection, LC configurations.
#include "harness.hh"
#include "luvnet.hh"
#include "AdapterConfiguration.hh"
#include "ArrayImpl.hh"
#include "AdapterExecInterface.hh"
#include "Command.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "Expression.hh"
#include "InterfaceManager.hh"
#include "LookupReceiver.hh"
#include "LuvListener.hh"
#include "Node.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "PlanError.hh"
#include "Error.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "Value.hh"
#include "pugixml.hpp"
#include <malloc.h>
#include <memory>
using namespace PLEXIL; using H::string; using H::vector; using std::to_string;
namespace {
string g_out; struct Quiet { std::stringstream s; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(s.rdbuf())), b(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); g_out = s.str(); } };
string tag(string const &t, string const &x) { return "<" + t + ">" + x + "</" + t + ">"; }
string esc(string const &s) { string o; for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : string(1, c); return o; }
unsigned const PARSE = pugi::parse_default | pugi::parse_ws_pcdata_single;
string raw(pugi::xml_node const n) { std::ostringstream o; n.print(o, "", pugi::format_raw | pugi::format_no_declaration); return o.str(); }
string planx(string const &n) { return "<PlexilPlan>" + n + "</PlexilPlan>"; }
// a message as a viewer's XML parser reads it
bool wellFormed(string const &m, string &canon) {
  for (size_t i = 0; i < m.size(); ++i) { if (m[i] == '&') { size_t j = m.find(';', i); string e = j == string::npos ? "" : m.substr(i + 1, j - i - 1); if (!(e == "lt" || e == "gt" || e == "amp" || e == "quot" || e == "apos" || (e.size() > 1 && e[0] == '#'))) return false; } if ((unsigned char)m[i] < 32 && !strchr("\t\n\r", m[i])) return false; if (m.compare(i, 3, "]]>") == 0) return false; }
  pugi::xml_document d; if (!d.load_buffer(m.data(), m.size(), pugi::parse_minimal | pugi::parse_escapes | pugi::parse_ws_pcdata)) return false;
  int n = 0; for (pugi::xml_node c : d.children()) { if (c.type() != pugi::node_element) return false; ++n; } if (n != 1) return false;
  std::function<void(pugi::xml_node)> norm = [&](pugi::xml_node x) { for (pugi::xml_node c : x.children()) { if (c.type() == pugi::node_pcdata && !strcmp(c.value(), "[unknown_value]")) c.set_value("UNKNOWN"); norm(c); } }; norm(d); // either spelling
  canon = raw(d.document_element()); return true; }
char const *COND[] = {"AncestorExitCondition", "AncestorInvariantCondition", "AncestorEndCondition", "SkipCondition", "StartCondition", "PreCondition", "ExitCondition", "InvariantCondition", "EndCondition", "PostCondition", "RepeatCondition", "ActionCompleteCondition", "AbortCompleteCondition"};
struct App {
  std::unique_ptr<ExecApplication> a; pugi::xml_document conf; std::map<string, Value> world; vector<Command *> works; vector<string> want, run; bool blocks; bool started = false;
  struct L : ExecListener { App *w; L(App *x) : w(x) {} // what a viewer has to be told
    void put(pugi::xml_document &d) const { w->want.push_back(raw(d.document_element())); }
    void info() const { pugi::xml_document d; d.append_child("PlanInfo").append_child("ViewerBlocks").append_child(pugi::node_pcdata).set_value(w->blocks ? "true" : "false"); put(d); }
    void implementNotifyNodeTransition(NodeTransition const &t) const override {
      static char const *const sn[] = {nullptr, "INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"}; static char const *const on[] = {nullptr, "SUCCESS", "FAILURE", "SKIPPED", "INTERRUPTED"}; static char const *const fn[] = {nullptr, "PRE_CONDITION_FAILED", "POST_CONDITION_FAILED", "INVARIANT_CONDITION_FAILED", "PARENT_FAILED", "EXITED", "PARENT_EXITED"};
      pugi::xml_document d; auto u = d.append_child("NodeStateUpdate"); auto put1 = [](pugi::xml_node p, char const *tg, string const &x) { auto e = p.append_child(tg); e.append_child(pugi::node_pcdata).set_value(x.c_str()); };
      put1(u, "NodeState", sn[t.newState]); int o = t.node->getOutcome(), f = t.node->getFailureType(); if (o != NO_OUTCOME) put1(u, "NodeOutcome", on[o - NO_OUTCOME]); if (f != NO_FAILURE) put1(u, "NodeFailureType", fn[f - NO_FAILURE]);
      auto c = u.append_child("Conditions"); auto *n = dynamic_cast<NodeImpl const *>(t.node); for (int i = 0; i < 13; ++i) if (Expression const *e = n->getCondition(i)) { Boolean b; bool known = e->getValue(b); put1(c, COND[i], known ? b ? "true" : "false" : "UNKNOWN"); }
      auto p = u.append_child("NodePath"); vector<string> path; for (Node const *x = t.node; x; x = x->getParent()) path.insert(path.begin(), x->getNodeId()); for (auto &x : path) put1(p, "NodeId", x);
      put(d); w->run.push_back(t.node->getNodeId() + ":" + sn[t.newState] + (o != NO_OUTCOME ? string("/") + on[o - NO_OUTCOME] : "")); }
    void implementNotifyAddPlan(pugi::xml_node const p) const override { info(); w->want.push_back(raw(p)); w->run.push_back("plan"); }
    void implementNotifyAddLibrary(pugi::xml_node const p) const override { info(); pugi::xml_document d; d.append_child("PlexilLibrary").append_copy(p); put(d); w->run.push_back("library"); }
    void implementNotifyAssignment(Expression const *, string const &n, Value const &v) const override {
      pugi::xml_document d; auto e = d.append_child("Assignment"); e.append_child("Variable").append_child("VariableName").append_child(pugi::node_pcdata).set_value(n.c_str()); string x; Integer i; Boolean b;
      if (!v.isKnown()) x = "UNKNOWN"; else if (v.valueType() == STRING_TYPE) v.getValue(x); else if (v.valueType() == INTEGER_TYPE) { v.getValue(i); x = to_string(i); } else if (v.valueType() == BOOLEAN_TYPE) { v.getValue(b); x = b ? "true" : "false"; } else { std::ostringstream s; s << v; x = s.str(); }
      auto y = e.append_child("Value"); if (!x.empty()) y.append_child(pugi::node_pcdata).set_value(x.c_str()); put(d); w->run.push_back(n + "=" + x); } };
  App(string const &attrs, bool blocking, std::function<void(ExecApplication &)> pre = nullptr) : a(makeExecApplication()), blocks(blocking) {
    conf.load_string(("<Interfaces>" + (attrs == "-" ? "" : "<Listener ListenerType='LuvListener' " + attrs + "/>") + "</Interfaces>").c_str()); a->configuration()->addExecListener(new L(this)); if (pre) pre(*a);
    if (!a->initialize(conf.document_element())) throw std::runtime_error("the configuration was refused: " + attrs);
    auto *ac = a->configuration();
    ac->registerCommandHandlerFunction("work", [this](Command *c, AdapterExecInterface *) { works.push_back(c); }, [this](Command *c, AdapterExecInterface *i) { for (size_t k = 0; k < works.size(); ++k) if (works[k] == c) { works.erase(works.begin() + k); break; } i->handleCommandAbortAck(c, true); });
    started = a->startInterfaces();
  }
  void lookups(string const &n) { a->configuration()->registerLookupHandlerFunction(n, [this](State const &s, LookupReceiver *r) { auto it = world.find(s.name()); if (it == world.end() || !it->second.isKnown()) r->setUnknown(); else r->update(it->second); }); }
  void set(string const &n, Value const &v) { world[n] = v; a->manager()->handleValueChange(State(n), v); }
  void plan(string const &x) { pugi::xml_document d; if (!d.load_string(planx(x).c_str(), PARSE)) throw std::runtime_error("bad plan " + x); a->manager()->handleAddPlan(d.document_element()); }
  void library(string const &x) { auto *d = new pugi::xml_document; d->load_string(planx(x).c_str(), PARSE); a->manager()->handleAddLibrary(d); }
};
struct Fresh { Fresh(bool blocking) { for (auto &f : V::net.fds) syscall(SYS_close, f.first); V::net = V::Net(); V::net.blocking = blocking; static bool reg = false; if (!reg) { reg = true; initLuvListener(); } } };
string attrs(bool b) { return string("HostName='10.0.0.7' Port='4911' Blocking='") + (b ? "true'" : "false'"); }
// compares what arrived with what had to: complete, or (prefix) as far as the viewer was there
string compare(string const &data, vector<string> const &want, bool prefix) {
  size_t i = 0, k = 0; string canon;
  while (i < data.size()) { size_t e = data.find('\4', i); if (e == string::npos) { if (prefix) return ""; return "the last message is not ended: " + data.substr(i, 300); }
    string m = data.substr(i, e - i); if (!wellFormed(m, canon)) return "message " + to_string(k + 1) + " is not well-formed: " + m.substr(0, 400);
    if (k >= want.size()) return "message " + to_string(k + 1) + " is one too many: " + m.substr(0, 400);
    string w; if (!wellFormed(want[k], w)) return "internal: " + want[k]; if (canon != w) return "message " + to_string(k + 1) + " is " + canon.substr(0, 500) + "\n  instead of " + w.substr(0, 500);
    ++k; i = e + 1; }
  if (k < want.size() && !prefix) return "only " + to_string(k) + " of " + to_string(want.size()) + " messages were sent; the next had to be " + want[k].substr(0, 300);
  return ""; }
string decl(string const &n, string const &ty) { return "<DeclareVariable><Name>" + n + "</Name><Type>" + ty + "</Type></DeclareVariable>"; }
string look(string const &n) { return "<LookupOnChange><Name><StringValue>" + n + "</StringValue></Name></LookupOnChange>"; }
string lookNow(string const &n) { return "<LookupNow><Name><StringValue>" + n + "</StringValue></Name></LookupNow>"; }
string cond(string const &c, string const &x) { return tag(c + "Condition", x); }

// ---- LT: histories of a plan
char const *NAMES[] = {"go", "fin", "inv", "ok", "ex", "rep", "out", "val", "num", "arr"};
string theplan(int serial) { string id = "Top" + to_string(serial);
  string A = "<Node NodeType='Assignment'><NodeId>A</NodeId>" + cond("Start", look("go")) + cond("Exit", look("ex")) + cond("Post", look("ok")) + cond("Repeat", look("rep")) + "<NodeBody><Assignment><StringVariable>s</StringVariable><StringRHS>" + lookNow("val") + "</StringRHS></Assignment></NodeBody></Node>";
  string B = "<Node NodeType='Assignment'><NodeId>B</NodeId>" + cond("Start", "<Finished><NodeId>A</NodeId></Finished>") + cond("Pre", look("ok")) + "<NodeBody><Assignment><IntegerVariable>n</IntegerVariable><NumericRHS>" + lookNow("num") + "</NumericRHS></Assignment></NodeBody></Node>";
  string D = "<Node NodeType='Assignment'><NodeId>D</NodeId>" + cond("Start", "<Finished><NodeId>B</NodeId></Finished>") + "<NodeBody><Assignment><ArrayVariable>r</ArrayVariable><ArrayRHS>" + lookNow("arr") + "</ArrayRHS></Assignment></NodeBody></Node>";
  string F = "<Node NodeType='Assignment'><NodeId>F</NodeId>" + cond("Start", "<Finished><NodeId>D</NodeId></Finished>") + "<NodeBody><Assignment><ArrayElement><Name>r</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement><NumericRHS><RealValue>0.1</RealValue></NumericRHS></Assignment></NodeBody></Node>";
  string C = "<Node NodeType='Command'><NodeId>C</NodeId>" + cond("Exit", look("ex")) + cond("Invariant", look("inv")) + cond("End", look("fin")) + "<NodeBody><Command><Name><StringValue>work</StringValue></Name></Command></NodeBody></Node>";
  string E = "<Node NodeType='Empty'><NodeId>E</NodeId>" + cond("Skip", look("ex")) + cond("Start", look("go")) + cond("End", look("fin")) + "</Node>";
  return "<Node NodeType='NodeList'><NodeId>" + id + "</NodeId><VariableDeclarations>" + decl("s", "String") + decl("n", "Integer") + "<DeclareArray><Name>r</Name><Type>Real</Type><MaxSize>2</MaxSize></DeclareArray></VariableDeclarations>" + cond("Exit", look("out")) + cond("Invariant", look("inv")) + "<NodeBody><NodeList>" + A + B + C + D + F + "<Node NodeType='NodeList'><NodeId>Inner</NodeId><NodeBody><NodeList>" + E + "</NodeList></NodeBody></Node></NodeList></NodeBody></Node>"; }
char const *OPS[] = {"go changes", "fin changes", "inv changes", "ok changes", "ex becomes true", "rep becomes false", "the command succeeds", "a library is added", "a plan is added", "go becomes unknown", "A is repeated", "out becomes true"};
int const NOPS = 12;
void drive(App &w, vector<int> const &ops) {
  static int serial = 0; for (char const *n : NAMES) w.lookups(n); auto B = [](bool b) { return Value(b); };
  w.set("go", B(false)); w.set("fin", B(false)); w.set("inv", B(true)); w.set("ok", B(true)); w.set("ex", B(false)); w.set("out", B(false)); w.set("arr", Value(RealArray(vector<Real>{1.5, -2e10}))); w.set("rep", Value()); w.set("val", Value("a<b")); w.set("num", Value((Integer)-7));
  w.plan(theplan(0)); w.a->runExec();
  for (int o : ops) { H::st.transitions++; auto flip = [&](char const *n) { Boolean b = false; bool k = w.world[n].getValue(b); w.set(n, Value(!(k && b))); };
    switch (o) { case 0: flip("go"); break; case 1: flip("fin"); break; case 2: flip("inv"); break; case 3: flip("ok"); break; case 4: w.set("ex", Value(true)); break; case 5: w.set("rep", B(false)); break; // while it is unknown a finished A neither repeats nor ends
      case 6: { auto v = w.works; w.works.clear(); for (auto *c : v) w.a->manager()->handleCommandAck(c, COMMAND_SUCCESS); break; }
      case 7: w.library("<Node NodeType='Empty'><NodeId>LuvLib" + to_string(++serial % 3) + "</NodeId><Comment>a &lt; b &amp;&amp; c</Comment></Node>"); break;
      case 8: w.plan("<Node NodeType='Empty'><NodeId>Other</NodeId>" + cond("Skip", lookNow("ok")) + "</Node>"); break;
      case 9: w.set("go", Value()); break; case 10: w.set("go", B(false)); w.set("rep", B(true)); w.a->runExec(); w.set("rep", Value()); break; case 11: w.set("out", Value(true)); break; }
    w.a->runExec(); } }
string seqText(vector<int> const &ops) { string t; for (int o : ops) t += string("  ") + OPS[o] + "\n"; return t; }
string code(vector<int> const &ops) { string s; for (int o : ops) s += char('a' + o); return s; }
void runLT(bool blocking, vector<int> const &ops) {
  string id = string(blocking ? "b" : "n") + code(ops), bad; H::cell("LT", id); H::st.executions++; std::unique_ptr<Quiet> q(new Quiet); string d;
  try { Fresh f(blocking); App w(attrs(blocking), blocking); if (!w.started) bad = "the interfaces were refused"; drive(w, ops); w.a.reset();
    auto &c = V::net.conns; H::st.evaluations += w.want.size(); if (!V::net.bad.empty()) bad = V::net.bad; else if (c.size() != 1) bad = to_string(c.size()) + " connections"; else bad = compare(c[0].data, w.want, false);
    if (bad.empty() && (c[0].host != "10.0.0.7" || c[0].port != 4911)) bad = "connected to " + c[0].host + ":" + to_string(c[0].port); if (bad.empty() && (c[0].open || !V::net.fds.empty())) bad = "the connection was not closed in the end";
    for (auto &x : w.run) d += x + " ";
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  q.reset(); H::distinct(d); if (!bad.empty()) H::violate("LT " + bad.substr(0, 60), string(blocking ? "blocking" : "not blocking") + ", after the plan was added\n" + seqText(ops) + bad + "\n" + g_out.substr(0, 400), id); else H::sample(seqText(ops)); }
void exploreLT() { int depth = H::args.thorough ? 6 : 5; uint64_t i = 0; vector<int> s; std::function<void()> go = [&] { if (H::full() || H::st.capped) return; if (H::mine(i++)) { if (H::timeUp()) { H::st.capped = true; return; } for (int b = 0; b < 2; ++b) if (!b || (int)s.size() < depth) runLT(b, s); } if ((int)s.size() < depth) for (int o = 0; o < NOPS; ++o) { if ((o == 4 || o == 5) && std::count(s.begin(), s.end(), o)) continue; s.push_back(o); go(); s.pop_back(); } }; go(); }

// ---- LV: texts
char const *ATOMS[] = {"a", " ", "<", ">", "&", "\"", "'", "\n", "\xc3\xa4", "]]>", "&lt;", "</Value>"};
int const NATOMS = 12;
void runLV(int where, vector<int> const &t) { // where: value, variable name, node name
  string x, id = to_string(where); for (int k : t) { x += ATOMS[k]; id += char('a' + k); } H::cell("LV", id); H::st.executions++; string bad; std::unique_ptr<Quiet> q(new Quiet);
  string var = where == 1 ? x : "v", node = where == 2 ? x : "N"; 
  try { Fresh f(false); App w(attrs(false), false); w.lookups("val"); w.set("val", where == 0 ? Value(x) : Value("w"));
    w.plan("<Node NodeType='Assignment'><NodeId>" + esc(node) + "</NodeId><VariableDeclarations>" + decl(esc(var), "String") + "</VariableDeclarations><NodeBody><Assignment><StringVariable>" + esc(var) + "</StringVariable><StringRHS>" + lookNow("val") + "</StringRHS></Assignment></NodeBody></Node>"); w.a->runExec();
    bool assigned = false; for (auto &r : w.run) assigned |= r == var + "=" + (where == 0 ? x : "w"); if (!assigned) bad = "the plan did not run"; 
    w.a.reset(); if (bad.empty()) bad = V::net.conns.size() != 1 ? "no connection" : compare(V::net.conns[0].data, w.want, false); H::st.evaluations += w.want.size();
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  q.reset(); H::distinct(x); static char const *const wn[] = {"the value", "the variable name", "the node name"}; if (!bad.empty()) H::violate("LV " + string(wn[where]) + " " + bad.substr(0, 40), string(wn[where]) + " is \"" + x + "\"\n" + bad + "\n" + g_out.substr(0, 400), id); else H::sample(string(wn[where]) + " is \"" + x + "\"\n"); }
void exploreLV() { uint64_t i = 0; for (int where = 0; where < 3; ++where) { int depth = (where ? 3 : 4) + H::args.thorough; vector<int> s; std::function<void()> go = [&] { if (H::full()) return;
  bool name = where > 0; if (name && !s.empty() && (strchr(" \n", *ATOMS[s.front()]) || strchr(" \n", *ATOMS[s.back()]))) goto deeper; // names do not begin or end with white space
  if (!(name && s.empty()) && H::mine(i++)) runLV(where, s); deeper: if ((int)s.size() < depth) for (int k = 0; k < NATOMS; ++k) { s.push_back(k); go(); s.pop_back(); } }; go(); } }

// ---- LF: faults
vector<int> const FOPS = {0, 7, 3, 6, 8, 1};
vector<string> const &plainRun() { static vector<string> r; if (r.empty()) { Quiet q; Fresh f(false); App w("-", false); drive(w, FOPS); w.a.reset(); r = w.run; } return r; }
int calls(bool blocking) { static int n[2]; if (!n[blocking]) { Quiet q; Fresh f(blocking); App w(attrs(blocking), blocking); drive(w, FOPS); w.a.reset(); n[blocking] = V::net.ops; } return n[blocking]; }
void runLF(bool blocking, std::map<int, char> const &faults) {
  string id = blocking ? "b" : "n", text, bad; bool leaves = false; for (auto &f : faults) { id += " " + to_string(f.first) + f.second; leaves |= f.second == 'x' || f.second == 'r';
    text += "  call " + to_string(f.first + 1) + " on the socket: " + (f.second == 'i' ? "interrupted by a signal" : f.second == '1' ? "takes one byte" : f.second == 'h' ? "takes half" : f.second == 'x' ? "the viewer has closed the connection" : "connection reset") + "\n"; }
  plainRun(); H::cell("LF", id); H::st.executions++; std::unique_ptr<Quiet> q(new Quiet);
  try { Fresh f(blocking); V::net.faults = faults; App w(attrs(blocking), blocking); drive(w, FOPS); w.a.reset(); H::st.transitions += V::net.ops; auto &c = V::net.conns;
    if (w.run != plainRun()) bad = "the execution differs from one without a viewer"; else if (c.empty()) bad = "no connection"; else if (!V::net.bad.empty() && !leaves) bad = V::net.bad; else if (c.size() > 1 && !leaves) bad = "connected again"; else bad = compare(c[0].data, w.want, c[0].gone);
    if (bad.empty() && !V::net.fds.empty()) bad = "the connection was not closed in the end"; H::distinct(c.empty() ? "" : to_string(c[0].data.size()) + (c[0].gone ? "g" : ""));
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); } catch (...) { bad = "an exception ended the execution"; }
  q.reset(); if (!bad.empty()) H::violate("LF " + bad.substr(0, 50), string(blocking ? "blocking\n" : "not blocking\n") + text + bad + "\n" + g_out.substr(0, 400), id); else H::sample(text); }
void exploreLF() { uint64_t i = 0; for (int b = 0; b < 2; ++b) { int n = calls(b); auto kinds = string("i1hxr");
  for (int k = 0; k < n; ++k) for (char f : kinds) { if (H::full()) return; if (H::mine(i++)) runLF(b, {{k, f}}); }
  for (int k = 0; k < n; ++k) for (int m = k + 1; m < n; ++m) { if (!H::args.thorough && m > k + 6) break; for (char f : string("i1h")) for (char g : kinds) { if (H::full()) return; if (H::mine(i++)) { if (H::timeUp()) { H::st.capped = true; return; } runLF(b, {{k, f}, {m, g}}); } } } } }

// ---- LC: configurations
void runLC(vector<int> const &c) { // host, port, blocking, ignore, fault, route
  static char const *const host[] = {"", "HostName=''", "HostName='10.1.2.3'", "HostName='nowhere'"}, *const hostIs[] = {"127.0.0.1", "127.0.0.1", "10.1.2.3", ""}; static char const *const port[] = {"", "Port='1'", "Port='65535'"}; static int const portIs[] = {49100, 1, 65535};
  static char const *const blk[] = {"", "Blocking='true'", "Blocking='false'"}, *const ign[] = {"", "IgnoreConnectFailure='true'", "IgnoreConnectFailure='false'"};
  string id; for (int x : c) id += to_string(x); H::cell("LC", id); H::st.executions++; string bad, text = string(host[c[0]]) + " " + port[c[1]] + " " + blk[c[2]] + " " + ign[c[3]] + (c[4] == 1 ? ", connection refused" : c[4] == 2 ? ", no socket" : "") + (c[5] ? ", made by makeLuvListener" : "");
  bool blocking = c[2] == 1, fails = c[0] == 3 || c[4], ok = !fails || c[3] != 2; std::unique_ptr<Quiet> q(new Quiet);
  try { plainRun(); Fresh f(blocking); V::net.refuse = c[4] == 1; V::net.nosock = c[4] == 2; LuvListener *ll = nullptr;
    App w(c[5] ? "-" : string(host[c[0]]) + " " + port[c[1]] + " " + blk[c[2]] + " " + ign[c[3]], blocking, [&](ExecApplication &a) { if (c[5]) a.configuration()->addExecListener(ll = makeLuvListener(c[0] == 2 ? "10.1.2.3" : c[0] == 3 ? "nowhere" : "localhost", portIs[c[1]], blocking)); });
    if (w.started != ok) bad = w.started ? "started although the viewer cannot be reached" : "refused to start"; 
    else if (ok) { if (ll && ll->isConnected() == fails) bad = "isConnected gives the opposite"; drive(w, FOPS); if (w.run != plainRun()) bad = "the execution differs from one without a viewer"; }
    w.a.reset(); auto &n = V::net.conns; if (bad.empty() && n.size() != (fails ? 0 : 1)) bad = to_string(n.size()) + " connections"; if (bad.empty() && !V::net.bad.empty()) bad = V::net.bad;
    if (bad.empty() && !fails) { if (n[0].host != hostIs[c[0]] || n[0].port != portIs[c[1]]) bad = "connected to " + n[0].host + ":" + to_string(n[0].port); else bad = compare(n[0].data, w.want, false); }
    if (bad.empty() && !V::net.fds.empty()) bad = "a socket is left open";
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); } catch (...) { bad = "an exception ended the execution"; }
  q.reset(); H::distinct(id); if (!bad.empty()) H::violate("LC " + bad.substr(0, 60), text + "\n" + bad + "\n" + g_out.substr(0, 400), id); else H::sample(text + "\n"); }
void exploreLC() { uint64_t i = 0; for (int h = 0; h < 4; ++h) for (int p = 0; p < 3; ++p) for (int b = 0; b < 3; ++b) for (int g = 0; g < 3; ++g) for (int f = 0; f < 3; ++f) for (int r = 0; r < 2; ++r) { if (r && (h < 1 || g || b == 0)) continue; if (H::full()) return; if (H::mine(i++)) runLC({h, p, b, g, f, r}); } }
vector<int> letters(string const &b, size_t from) { vector<int> v; for (size_t i = from; i < b.size(); ++i) if (b[i] >= 'a' && b[i] <= 'z') v.push_back(b[i] - 'a'); return v; }
}
int main(int argc, char **argv) {
  PlanError::doThrowExceptions(); Error::doThrowExceptions(); mallopt(M_PERTURB, 0x5a);
  return H::run(argc, argv, {{"LT", exploreLT, [](string const &b) { runLT(b[0] == 'b', letters(b, 1)); }}, {"LV", exploreLV, [](string const &b) { runLV(b[0] - '0', letters(b, 1)); }},
    {"LF", exploreLF, [](string const &b) { std::stringstream s(b.substr(1)); std::map<int, char> f; int k; char c; while (s >> k >> c) f[k] = c; runLF(b[0] == 'b', f); }},
    {"LC", exploreLC, [](string const &b) { vector<int> v; for (char c : b) if (c >= '0' && c <= '9') v.push_back(c - '0'); if (v.size() == 6) runLC(v); }}}); }
