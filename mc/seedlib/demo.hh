// Small driver for the PLEXIL executive: loads a plan, answers lookups from a table, records what the plan does.
#include "PlexilExec.hh"
#include "Dispatcher.hh"
#include "ExecListenerBase.hh"
#include "NodeImpl.hh"
#include "CommandNode.hh"
#include "NodeTransition.hh"
#include "Command.hh"
#include "ResourceArbiterInterface.hh"
#include "Update.hh"
#include "State.hh"
#include "StateCache.hh"
#include "LookupReceiver.hh"
#include "Value.hh"
#include "Expression.hh"
#include "parsePlan.hh"
#include "plan-utils.hh"
#include "pugixml.hpp"
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <cstdlib>
using namespace PLEXIL;
using std::string; using std::vector;
static string str(Value const &v) { std::ostringstream o; if (!v.isKnown()) return "UNKNOWN"; o << v; return o.str(); }
struct Demo : Dispatcher, ExecListenerBase {
  std::unique_ptr<PlexilExec> exec;
  std::map<string, Value> world;
  std::map<string, Command *> cmds; std::map<string, int> sent, aborted, refused;
  std::map<string, Update *> upds;
  std::map<string, NodeImpl *> nodes;
  vector<string> log; double t = 1; int steps = 0;
  Demo() : exec(makePlexilExec()) {
    g_exec = exec.get(); g_dispatcher = this;
    exec->setDispatcher(this); exec->setExecListener(this);
    StateCache::instance().incrementCycleCount();
  }
  ~Demo() { exec.reset(); g_exec = nullptr; g_dispatcher = nullptr; }
  void index(NodeImpl *n) { nodes[n->getNodeId()] = n; for (auto &c : n->getChildren()) index(c.get()); }
  NodeImpl *load(string const &body) {
    string text = "<PlexilPlan>" + body + "</PlexilPlan>";
    pugi::xml_document d;
    if (!d.load_string(text.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { std::cerr << "bad XML\n"; exit(9); }
    NodeImpl *n = nullptr; try { n = parsePlan(d.document_element()); } catch (std::exception const &e) { std::cerr << "plan rejected: " << e.what() << "\n"; exit(7); } index(n); exec->addPlan(n); return n;
  }
  void run() { for (int i = 0; i < 200 && exec->needsStep(); ++i) { StateCache::instance().incrementCycleCount(); exec->step(t += 1); } }
  void set(string const &n, Value const &v) { world[n] = v; StateCache::instance().lookupReturn(State(n), v); }
  void change(string const &n, Value const &v) { set(n, v); run(); }
  void handle(string const &c, CommandHandleValue h) { commandHandleReturn(cmds.at(c), h); }
  string state(string const &n) {
    std::ostringstream o; NodeImpl *i = nodes.at(n);
    o << nodeStateName(i->getState());
    if (i->getOutcome() != NO_OUTCOME) o << "/" << outcomeName(i->getOutcome());
    if (i->getFailureType() != NO_FAILURE) o << "/" << failureTypeName(i->getFailureType());
    return o.str();
  }
  string var(string const &n, string const &v) { Expression *e = nodes.at(n)->findLocalVariable(v.c_str()); return e ? str(e->toValue()) : "MISSING"; }
  void lookupNow(State const &s, LookupReceiver *r) override { auto it = world.find(s.name()); if (it == world.end()) r->setUnknown(); else r->update(it->second); }
  void setThresholds(const State &, Real, Real) override {}
  void setThresholds(const State &, Integer, Integer) override {}
  void clearThresholds(const State &) override {}
  void executeCommand(Command *c) override { log.push_back("CMD " + c->getName()); cmds[c->getName()] = c; ++sent[c->getName()]; }
  void reportCommandArbitrationFailure(Command *c) override { log.push_back("DENY " + c->getName()); cmds[c->getName()] = c; ++refused[c->getName()]; }
  void invokeAbort(Command *c) override { log.push_back("ABORT " + c->getName()); ++aborted[c->getName()]; }
  void executeUpdate(Update *u) override { log.push_back("UPDATE " + u->getNodeId()); upds[u->getNodeId()] = u; }
  void notifyOfTransitions(vector<NodeTransition> const &v) override { for (auto &x : v) log.push_back(x.node->getNodeId() + ":" + nodeStateName(x.newState)); if (log.size() > 20000) { std::cerr << "no end\n"; exit(8); } }
  void notifyOfAssignment(Expression const *, string const &n, Value const &v) override { log.push_back("ASSIGN " + n + "=" + str(v)); }
  void stepComplete(unsigned int) override {}
};
static int g_bad = 0;
static void expect(string const &what, string const &got, string const &want) {
  bool ok = got == want; if (!ok) ++g_bad;
  std::cout << (ok ? "ok   " : "FAIL ") << what << ": " << got; if (!ok) std::cout << " (should be " << want << ")"; std::cout << "\n";
}
static void expect(string const &what, int got, int want) { expect(what, std::to_string(got), std::to_string(want)); }
// XML shorthands
static string B(string const &n) { return "<LookupOnChange><Name><StringValue>" + n + "</StringValue></Name></LookupOnChange>"; }
static string NOW(string const &n) { return "<LookupNow><Name><StringValue>" + n + "</StringValue></Name></LookupNow>"; }
static string I(int v) { return "<IntegerValue>" + std::to_string(v) + "</IntegerValue>"; }
static string R(string const &v) { return "<RealValue>" + v + "</RealValue>"; }
static string IV(string const &v) { return "<IntegerVariable>" + v + "</IntegerVariable>"; }
static string T(string const &tag, string const &body) { return "<" + tag + ">" + body + "</" + tag + ">"; }
static string node(string const &type, string const &id, string const &body) { return "<Node NodeType=\"" + type + "\"><NodeId>" + id + "</NodeId>" + body + "</Node>"; }
static string list(string const &id, string const &pre, vector<string> const &kids) { string k; for (auto &s : kids) k += s; return node("NodeList", id, pre + T("NodeBody", T("NodeList", k))); }
static string empty(string const &id, string const &pre) { return node("Empty", id, pre); }
static string command(string const &id, string const &name, string const &pre, string const &res = "") { return node("Command", id, pre + T("NodeBody", T("Command", res + T("Name", T("StringValue", name))))); }
static string assignI(string const &id, string const &var, string const &rhs, string const &pre) { return node("Assignment", id, pre + T("NodeBody", T("Assignment", IV(var) + T("NumericRHS", rhs)))); }
static string declI(string const &v, string const &init) { return "<DeclareVariable><Name>" + v + "</Name><Type>Integer</Type>" + (init.empty() ? "" : "<InitialValue><IntegerValue>" + init + "</IntegerValue></InitialValue>") + "</DeclareVariable>"; }
