// Every schedule, up to a preemption bound, of small programs built from the real application classes.
#include "harness.hh"
#include "rt.hh"
#include "explore.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "InterfaceAdapter.hh"
#include "MessageAdapter.hh"
#include "Command.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerHub.hh"
#include "InterfaceManager.hh"
#include "LookupReceiver.hh"
#include "MessageQueueMap.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "QueueEntry.hh"
#include "SerializedInputQueue.hh"
#include "State.hh"
#include <malloc.h>
#include <memory>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "pugixml.hpp"
using namespace PLEXIL;
namespace {
// ---- the application under test ----
string cmd(string const &id, string const &start) { return "<Node NodeType='Command'><NodeId>" + id + "</NodeId>" + (start.empty() ? "" : "<StartCondition><LookupOnChange><Name><StringValue>" + start + "</StringValue></Name></LookupOnChange></StartCondition>") +
  "<NodeBody><Command><Name><StringValue>" + id + "</StringValue></Name></Command></NodeBody></Node>"; }
string list(string const &id, string const &kids) { return "<Node NodeType='NodeList'><NodeId>" + id + "</NodeId><NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>"; }
string plan(string const &n) { return "<PlexilPlan>" + n + "</PlexilPlan>"; }
struct TL : ExecListener { // records everything and notices being entered by two threads at once
  mutable int busy = 0; TL() : ExecListener() {}
  NOSAN int &b() const { return busy; }
  void in() const { if (b()++) R::fail("\n  a listener is called by two threads at once"); R::point(); }
  void out() const { R::point(); b()--; }
  void implementNotifyNodeTransition(NodeTransition const &t) const override { in(); lg("transition"); out(); }
  void implementNotifyAddPlan(pugi::xml_node const p) const override { in(); lg((string("plan ") + p.child("Node").child_value("NodeId")).c_str()); out(); }
  void implementNotifyAddLibrary(pugi::xml_node const p) const override { in(); lg("library"); out(); } };
struct World {
  std::unique_ptr<ExecApplication> a; bool ok = true;
  World(bool bkgnd = true, bool listener = false, std::function<void(ExecApplication &)> pre = nullptr) : a(makeExecApplication()) {
    if (!bkgnd) a->setRunExecInBkgndOnly(false);
    auto *c = a->configuration(); ExecApplication *ap = a.get();
    c->setDefaultLookupHandler([](State const &, LookupReceiver *r) { r->setUnknown(); });
    c->setDefaultCommandHandlerFunction([](Command *k, AdapterExecInterface *i) { lg(k->getName().c_str()); i->handleCommandAck(k, COMMAND_SUCCESS); });
    pugi::xml_document d; d.load_string("<Interfaces/>"); if (pre) pre(*a);
    if (!a->initialize(d.document_element())) R::fail("initialize");
    if (listener) a->listenerHub()->addListener(new TL());
    if (!a->startInterfaces()) R::fail("startInterfaces");
  }
  ~World() { a.reset(); }
  void run() { expect(a->run(), "run() failed"); }
  void add(string const &xml) { pugi::xml_document d; if (!d.load_string(plan(xml).c_str())) R::fail("xml"); lg("add"); expect(a->addPlan(&d), "addPlan refused " + xml); }
  void report(char const *x) { a->manager()->handleValueChange(State(x), Value(true)); }
  void notify() { a->manager()->notifyOfExternalEvent(); }
  void stop() { a->stop(); }
};
typedef std::unique_ptr<std::thread> Th;
template <class F> Th go(F f) { return Th(new std::thread(f)); }

// ---- C24 ----
// a client starts a plan, feeds it and stops
void s_plain(bool bk) { World w(bk); w.run(); w.add(list("R", cmd("A", "x") + cmd("B", "y"))); w.notify(); w.report("x"); w.notify(); R::idleRest(); times("A", 1, "after x was reported and everything came to rest"); times("B", 0, "before y was reported");
  w.report("y"); w.notify(); R::idleRest(); times("B", 1, "after y was reported and everything came to rest"); expect(w.a->allPlansFinished(), "the plan should have finished"); w.stop(); }
void s_plain1() { s_plain(true); } void s_plain0() { s_plain(false); }
// two threads report; nothing may be lost
void s_two(bool bk) { World w(bk); w.run(); w.add(list("R", cmd("A", "x") + cmd("B", "y"))); w.notify();
  Th t = go([&] { w.report("x"); w.notify(); }); w.report("y"); w.notify(); t->join(); R::idleRest();
  times("A", 1, "after x was reported and everything came to rest"); times("B", 1, "after y was reported and everything came to rest"); expect(w.a->allPlansFinished(), "the plan should have finished"); w.stop(); }
void s_two1() { s_two(true); } void s_two0() { s_two(false); }
// waiting for the queue to be processed
void s_mark(bool bk) { World w(bk); w.run(); w.add(list("R", cmd("A", "x") + cmd("B", "y"))); w.a->notifyAndWaitForCompletion();
  Th t = go([&] { w.report("x"); w.a->manager()->notifyAndWaitForCompletion(); times("A", 1, "when the wait for the queue returned"); });
  w.report("y"); w.a->manager()->notifyAndWaitForCompletion(); times("B", 1, "when the wait for the queue returned"); t->join(); expect(w.a->allPlansFinished(), "the plan should have finished"); w.stop(); }
void s_mark1() { s_mark(true); } void s_mark0() { s_mark(false); }
// one thread waits while another only notifies
void s_mark2() { World w; w.run(); w.add(list("R", cmd("A", "x") + cmd("B", "y")));
  Th t = go([&] { w.report("x"); w.notify(); }); w.report("y"); w.a->notifyAndWaitForCompletion(); times("B", 1, "when the wait for the queue returned"); t->join(); R::idleRest(); times("A", 1, "at rest"); w.stop(); }
// waiting for the plan to finish, the way universalExec does it
void s_fin(bool bk) { World w(bk); w.run(); w.add(cmd("A", "x")); w.a->notifyAndWaitForCompletion();
  Th t = go([&] { w.report("x"); w.notify(); }); w.a->waitForPlanFinished(); times("A", 1, "when the wait for the plan returned"); expect(w.a->allPlansFinished(), "the wait returned before the plan finished"); t->join(); w.stop(); }
void s_fin1() { s_fin(true); } void s_fin0() { s_fin(false); }
// ... for a second plan after the first has finished
void s_fin2() { World w; w.run(); w.add(cmd("A", "")); w.notify(); w.a->waitForPlanFinished(); times("A", 1, "when the wait for the plan returned");
  w.report("x"); w.notify(); w.add(cmd("B", "y")); w.notify(); w.report("y"); w.notify(); w.a->waitForPlanFinished(); times("B", 1, "when the wait for the second plan returned"); w.stop(); }
// two threads wait for the same plan
void s_fin3() { World w; w.run(); w.add(cmd("A", "x")); w.notify();
  Th t = go([&] { w.a->waitForPlanFinished(); times("A", 1, "when the wait for the plan returned"); }); w.report("x"); w.notify(); w.a->waitForPlanFinished(); times("A", 1, "when the wait for the plan returned"); t->join(); w.stop(); }
// suspend and resume
void s_susp(bool bk) { World w(bk); w.run(); w.add(list("R", cmd("A", "x") + cmd("B", "y"))); w.notify();
  Th t = go([&] { w.report("x"); w.notify(); }); expect(w.a->suspend(), "suspend refused"); expect(w.a->isSuspended(), "isSuspended"); t->join(); R::idleRest(); int n = count("A");
  w.report("y"); w.notify(); R::idleRest(); times("B", 0, "while suspended"); times("A", n, "while suspended"); expect(w.a->resume(), "resume refused"); expect(!w.a->isSuspended(), "isSuspended after resume"); R::idleRest(); times("A", 1, "after resuming"); times("B", 1, "after resuming"); w.stop(); }
void s_susp1() { s_susp(true); } void s_susp0() { s_susp(false); }
// one thread suspends and resumes while another reports
void s_susp2() { World w; w.run(); w.add(list("R", cmd("A", "x") + cmd("B", "y"))); w.notify();
  Th t = go([&] { w.report("x"); w.notify(); w.report("y"); w.notify(); }); w.a->suspend(); w.a->resume(); t->join(); R::idleRest(); times("A", 1, "after resuming"); times("B", 1, "after resuming"); w.stop(); }
// stop, from any state, while others use the application
void s_stop(bool bk, bool susp) { World w(bk); w.run(); w.add(cmd("A", "x")); w.notify(); if (susp) w.a->suspend();
  Th t = go([&] { w.report("x"); w.notify(); }); w.stop(); t->join(); expect(count("A") <= 1, "A twice"); }
void s_stop1() { s_stop(true, false); } void s_stop0() { s_stop(false, false); } void s_stop2() { s_stop(true, true); }
void s_stopw() { World w; w.run(); Th t = go([&] { w.a->waitForShutdown(); times("stopping", 1, "when the wait for the end returned"); }), u = go([&] { w.a->waitForShutdown(); times("stopping", 1, "when the wait for the end returned"); });
  R::idleRest(); lg("stopping"); w.stop(); t->join(); u->join(); }
// plans added by two threads
void s_add2() { World w; w.run(); Th t = go([&] { w.add(cmd("A", "x")); w.notify(); }); w.add(cmd("B", "x")); w.notify(); t->join(); w.report("x"); w.notify(); R::idleRest(); times("A", 1, "after x was reported"); times("B", 1, "after x was reported"); expect(w.a->allPlansFinished(), "both plans should have finished"); w.stop(); }
// a plan added while another runs, with a listener
void s_addl() { World w(true, true); w.run(); w.add(cmd("A", "")); w.notify(); w.add(cmd("B", "")); w.notify(); w.a->waitForPlanFinished(); R::idleRest(); times("A", 1, "at rest"); times("B", 1, "at rest");
  times("plan A", 1, "at rest"); times("plan B", 1, "at rest"); expect(index("plan A") < index("transition"), "the first transition was published before the plan was announced"); w.stop(); }
// a library is added while a plan runs
void s_lib() { World w; w.run(); w.add(cmd("A", "")); w.notify(); auto *d = new pugi::xml_document; d->load_string(plan("<Node NodeType='Empty'><NodeId>Lib</NodeId></Node>").c_str()); expect(w.a->addLibrary(d), "addLibrary refused");
  w.add("<Node NodeType='LibraryNodeCall'><NodeId>C</NodeId><NodeBody><LibraryNodeCall><NodeId>Lib</NodeId></LibraryNodeCall></NodeBody></Node>"); w.notify(); R::idleRest(); times("A", 1, "at rest"); expect(w.a->allPlansFinished(), "both plans should have finished"); w.stop(); }
// life cycle, one thread
void s_life() { std::unique_ptr<ExecApplication> a(makeExecApplication()); expect(!a->suspend(), "suspend before start"); expect(!a->resume(), "resume before start"); expect(!a->startInterfaces(), "startInterfaces before initialize"); a->stop();
  pugi::xml_document d; d.load_string("<Interfaces/>"); expect(a->initialize(d.document_element()), "initialize"); expect(a->startInterfaces(), "startInterfaces"); expect(a->startInterfaces(), "startInterfaces again"); { pugi::xml_document p; p.load_string(plan(cmd("A", "")).c_str()); expect(!a->addPlan(&p), "addPlan before run"); }
  expect(!a->allPlansFinished(), "allPlansFinished() before any plan"); expect(a->run(), "run"); R::idleRest(); expect(!a->allPlansFinished(), "allPlansFinished() though no plan has run"); expect(!a->isSuspended(), "suspended after run"); expect(a->resume(), "resume when not suspended"); expect(a->suspend() && a->suspend(), "suspend twice"); expect(a->isSuspended(), "not suspended"); expect(a->resume() && !a->isSuspended(), "resume"); a->stop(); a->stop(); a->waitForShutdown(); a->waitForShutdown(); }

// the interface answers from threads of its own
struct Box { std::mutex m; std::condition_variable c; vector<Command *> v; vector<Update *> u; vector<string> q; bool end = false;
  template <class T> void put(vector<T> &w, T x) { std::lock_guard<std::mutex> g(m); w.push_back(x); c.notify_one(); }
  template <class T> bool get(vector<T> &w, T &x) { std::unique_lock<std::mutex> g(m); c.wait(g, [&] { return end || !w.empty(); }); if (w.empty()) return false; x = w.front(); w.erase(w.begin()); return true; }
  void finish() { std::lock_guard<std::mutex> g(m); end = true; c.notify_all(); } };
string const DECL = "<VariableDeclarations><DeclareVariable><Name>v</Name><Type>Integer</Type></DeclareVariable></VariableDeclarations>";
string ret(string const &id) { return "<Node NodeType='Command'><NodeId>" + id + "</NodeId><NodeBody><Command><IntegerVariable>v</IntegerVariable><Name><StringValue>" + id + "</StringValue></Name></Command></NodeBody></Node>"; }
string const ON7 = "<Node NodeType='Command'><NodeId>B</NodeId><StartCondition><EQNumeric><IntegerVariable>v</IntegerVariable><IntegerValue>7</IntegerValue></EQNumeric></StartCondition><NodeBody><Command><Name><StringValue>B</StringValue></Name></Command></NodeBody></Node>";
string listD(string const &kids) { return "<Node NodeType='NodeList'><NodeId>R</NodeId>" + DECL + "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>"; }
void s_ack(bool bk) { Box b; World w(bk); auto *c = w.a->configuration(); c->registerCommandHandlerFunction("A", [&](Command *k, AdapterExecInterface *) { lg("A"); b.put(b.v, k); });
  Th t = go([&] { Command *k; while (b.get(b.v, k)) { w.a->manager()->handleCommandReturn(k, Value((Integer)7)); w.a->manager()->handleCommandAck(k, COMMAND_SUCCESS); w.notify(); } });
  w.run(); w.add(listD(ret("A") + ON7)); w.notify(); w.a->waitForPlanFinished(); times("A", 1, "when the plan finished"); times("B", 1, "when the plan finished"); w.stop(); b.finish(); t->join(); }
void s_ack1() { s_ack(true); } void s_ack0() { s_ack(false); }
// two commands answered by two threads
void s_ack2() { Box b; World w; auto *c = w.a->configuration(); for (char const *n : {"A", "C"}) c->registerCommandHandlerFunction(n, [&](Command *k, AdapterExecInterface *) { lg(k->getName().c_str()); b.put(b.v, k); });
  auto f = [&] { Command *k; while (b.get(b.v, k)) { w.a->manager()->handleCommandAck(k, COMMAND_SUCCESS); w.notify(); } }; Th t = go(f), u = go(f);
  w.run(); w.add(list("R", cmd("A", "") + cmd("C", ""))); w.notify(); w.a->waitForPlanFinished(); times("A", 1, "when the plan finished"); times("C", 1, "when the plan finished"); w.stop(); b.finish(); t->join(); u->join(); }
// an update answered by another thread
void s_upd() { Box b; World w; w.a->configuration()->registerPlannerUpdateHandler([&](Update *k, AdapterExecInterface *) { lg("U"); b.put(b.u, k); });
  Th t = go([&] { Update *k; while (b.get(b.u, k)) { w.a->manager()->handleUpdateAck(k, true); w.notify(); } });
  w.run(); w.add("<Node NodeType='Update'><NodeId>U</NodeId><NodeBody><Update><Pair><Name>x</Name><IntegerValue>1</IntegerValue></Pair></Update></NodeBody></Node>"); w.notify(); w.a->waitForPlanFinished(); times("U", 1, "when the plan finished"); w.stop(); b.finish(); t->join(); }
// a lookup answered later by another thread
void s_look() { Box b; World w; w.a->configuration()->registerLookupHandlerFunction("x", [&](State const &s, LookupReceiver *r) { r->setUnknown(); b.put(b.q, string(s.name())); });
  Th t = go([&] { string n; while (b.get(b.q, n)) { w.report(n.c_str()); w.notify(); } });
  w.run(); w.add(cmd("A", "x")); w.notify(); w.a->waitForPlanFinished(); times("A", 1, "when the plan finished"); w.stop(); b.finish(); t->join(); }
// an abort answered by another thread
void s_abort() { Box b; World w; w.a->configuration()->registerCommandHandlerFunction("A", [&](Command *k, AdapterExecInterface *i) { lg("A"); i->handleCommandAck(k, COMMAND_SENT_TO_SYSTEM); }, [&](Command *k, AdapterExecInterface *) { lg("abort"); b.put(b.v, k); });
  Th t = go([&] { Command *k; while (b.get(b.v, k)) { w.a->manager()->handleCommandAbortAck(k, true); w.notify(); } });
  w.run(); w.add("<Node NodeType='Command'><NodeId>A</NodeId><ExitCondition><LookupOnChange><Name><StringValue>x</StringValue></Name></LookupOnChange></ExitCondition><EndCondition><BooleanValue>false</BooleanValue></EndCondition><NodeBody><Command><Name><StringValue>A</StringValue></Name></Command></NodeBody></Node>");
  w.notify(); R::idleRest(); times("A", 1, "at rest"); w.report("x"); w.notify(); w.a->waitForPlanFinished(); times("abort", 1, "when the plan finished"); w.stop(); b.finish(); t->join(); }

// ---- C23 ----
struct Prod { int id; };
void queueScenario(int np, int per, bool marks) { // np producers, one consumer that recycles; main only joins
  SerializedInputQueue q; static char got[64][24]; static int ngot; ngot = 0; vector<Th> t; bool done = false;
  auto consume = [&](QueueEntry *e) { char b[24]; string s = "?"; if (e->type == Q_LOOKUP) { Integer v = -1; e->value.getValue(v); s = e->state->name() + "=" + std::to_string(v); } else if (e->type == Q_MARK) s = "mark" + std::to_string(e->sequence); lg(s.c_str()); q.release(e); };
  for (int p = 0; p < np; ++p) t.push_back(go([&q, p, per, marks] { for (int i = 0; i < per; ++i) { QueueEntry *e = q.allocate(); expect(e, "allocate"); if (marks && i == per - 1) e->initForMark(p * 10 + i); else e->initForLookup(State(string("p") + char('0' + p)), Value((Integer)i)); q.put(e); } }));
  int n = 0; for (int spin = 0; spin < 3; ++spin) { if (!q.isEmpty()) { QueueEntry *e = q.get(); expect(e, "get() of a queue that was not empty, with one reader"); consume(e); ++n; } else R::point(); }
  for (auto &x : t) x->join();
  while (QueueEntry *e = q.get()) { consume(e); ++n; }
  expect(q.isEmpty(), "isEmpty at the end"); expect(n == np * per, "got " + std::to_string(n) + " entries of " + std::to_string(np * per));
  for (int p = 0; p < np; ++p) { int last = -1; for (int i = 0; i < per; ++i) { string w = marks && i == per - 1 ? "mark" + std::to_string(p * 10 + i) : string("p") + char('0' + p) + "=" + std::to_string(i); times(w.c_str(), 1, "at the end"); expect(index(w.c_str()) > last, "order of one producer"); last = index(w.c_str()); } }
}
void q_2x2() { queueScenario(2, 2, false); } void q_2x2m() { queueScenario(2, 2, true); } void q_3x1() { queueScenario(3, 1, false); } void q_1x3() { queueScenario(1, 3, true); }
// the same through the interface: values of two producers, marks of both, one reader
void q_mgr() { World w; auto *m = w.a->manager(); unsigned s[2] = {0, 0}; 
  Th t = go([&] { m->handleValueChange(State("x"), Value((Integer)1)); s[1] = m->markQueue(); }); m->handleValueChange(State("x"), Value((Integer)2)); s[0] = m->markQueue(); t->join();
  expect(s[0] != s[1] && s[0] && s[1] && s[0] <= 2 && s[1] <= 2, "marks " + std::to_string(s[0]) + " and " + std::to_string(s[1])); m->processQueue(); }
// flush while a producer runs
void q_flush() { SerializedInputQueue q; auto put = [&](int i) { QueueEntry *e = q.allocate(); e->initForLookup(State("x"), Value((Integer)i)); q.put(e); };
  put(0); Th t = go([&] { put(1); put(2); }); q.flush(); t->join(); vector<int> got; while (QueueEntry *e = q.get()) { Integer v = -1; e->value.getValue(v); got.push_back(v); q.release(e); }
  vector<int> tail = {1, 2}; expect(got.size() <= 2 && std::equal(got.begin(), got.end(), tail.end() - got.size()), "what is left after a flush is not the end of what was put"); }

// ---- C28 ----
// the pairing of messages with the commands that wait for them, used by the exec thread and by the thread that receives
Command *C(int i) { static char c[16]; return reinterpret_cast<Command *>(c + i); } // never dereferenced
struct Iface : AdapterExecInterface { MessageQueueMap *q = nullptr; Command *again = nullptr; int got[8], n = 0; std::mutex m;
  Iface() { for (int &g : got) g = -1; }
  void handleValueChange(State const &, const Value &) override {} void handleValueChange(State const &, Value &&) override {} void handleValueChange(State &&, const Value &) override {} void handleValueChange(State &&, Value &&) override {}
  void handleCommandAck(Command *, CommandHandleValue) override {} void handleCommandAbortAck(Command *, bool) override {} void handleUpdateAck(Update *, bool) override {}
  void handleCommandReturn(Command *c, Value const &v) override { std::lock_guard<std::mutex> g(m); int i = (int) (reinterpret_cast<char *>(c) - reinterpret_cast<char *>(C(0))); Integer x = -2; v.getValue(x); expect(i >= 0 && i < 8 && got[i] == -1, "a command was given two messages"); got[i] = (int) x; ++n; }
  void handleCommandReturn(Command *c, Value &&v) override { Value const w(v); handleCommandReturn(c, w); }
  void notifyMessageReceived(Message *) override {} void notifyMessageQueueEmpty() override {} void notifyMessageAccepted(Message *, std::string const &) override {} void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {} bool handleAddLibrary(pugi::xml_document *) override { return false; }
  void notifyOfExternalEvent() override { Command *c; { std::lock_guard<std::mutex> g(m); c = again; again = nullptr; } if (c) q->addRecipient("m", c); lg("notify"); } // a plan may ask for the next message at once
  void notifyAndWaitForCompletion() override {} };
string pairs(Iface const &f) { string s; for (int i = 0; i < 8; ++i) s += std::to_string(f.got[i]) + " "; return s; }
void put(MessageQueueMap &q, int i) { q.addMessage("m", Value((Integer)i)); }
// commands of one thread, messages of another: first to first
void m_pair(int nc, int nm) { Iface f; MessageQueueMap q(f); f.q = &q; Th t = go([&] { for (int i = 0; i < nm; ++i) put(q, i); }); for (int i = 0; i < nc; ++i) q.addRecipient("m", C(i)); t->join();
  for (int i = 0; i < nc; ++i) expect(f.got[i] == (i < nm ? i : -1), "messages given to the commands in order: " + pairs(f)); times("notify", count("notify"), ""); expect(std::min(nc, nm) == 0 || count("notify") > 0, "nobody was told");
  for (int i = nm; i < nc; ++i) put(q, i); for (int i = nc; i < nm; ++i) q.addRecipient("m", C(i)); for (int i = 0; i < std::max(nc, nm); ++i) expect(f.got[i] == i, "afterwards: " + pairs(f)); }
void m_22() { m_pair(2, 2); } void m_12() { m_pair(1, 2); } void m_21() { m_pair(2, 1); } void m_33() { m_pair(3, 3); }
// a command withdraws while a message arrives: the message goes to it or to the next one, never to both, never lost
void m_with() { Iface f; MessageQueueMap q(f); f.q = &q; q.addRecipient("m", C(0)); q.addRecipient("m", C(1)); Th t = go([&] { put(q, 5); }); bool more = q.removeRecipient("m", C(0)); int a = f.got[0]; t->join();
  expect(a == f.got[0], "a command was given a message after it withdrew"); expect((f.got[0] == 5) != (f.got[1] == 5) && f.n == 1, "the message went to " + pairs(f)); expect(more, "another command still waits: " + pairs(f)); put(q, 6); expect(f.got[1] == (f.got[0] == 5 ? 6 : 5) , "the next message: " + pairs(f)); }
// two receiving threads, two names
void m_two() { Iface f; MessageQueueMap q(f); f.q = &q; Th t = go([&] { put(q, 1); q.addMessage("n", Value((Integer)2)); }), u = go([&] { q.addMessage("n", Value((Integer)3)); }); q.addRecipient("n", C(0)); q.addRecipient("m", C(1)); q.addRecipient("n", C(2)); t->join(); u->join();
  expect(f.n == 3 && f.got[1] == 1 && f.got[0] + f.got[2] == 5, "messages of two names: " + pairs(f)); }
// a plan that reacts to the message by asking for the next one
void m_again() { Iface f; MessageQueueMap q(f); f.q = &q; f.again = C(2); Th t = go([&] { put(q, 0); put(q, 1); put(q, 2); }); q.addRecipient("m", C(0)); q.addRecipient("m", C(1)); t->join(); expect(f.n == 3, "asked again: " + pairs(f)); }
void m_dup() { Iface f; MessageQueueMap q(f, false); f.q = &q; Th t = go([&] { put(q, 0); put(q, 1); }); q.addRecipient("m", C(0)); t->join(); q.addRecipient("m", C(1)); expect(f.got[0] == 0 ? f.got[1] == 1 : f.got[0] == 1 && f.got[1] == -1, "without duplicates: " + pairs(f)); }

// ---- messages: received by transports on their own threads, taken by a plan ----
void order(char const *x, char const *y) { expect(index(x) < index(y), string(x) + " should come before " + y); }
struct MWorld { MessageAdapter *ma = nullptr; World w;
  MWorld() : w(true, false, [this](ExecApplication &x) { pugi::xml_document d; d.load_string("<Adapter AdapterType='Message'/>"); InterfaceAdapter *i = AdapterFactory::createInstance(d.document_element(), *x.manager()); if (!i) R::fail("no message adapter"); ma = dynamic_cast<MessageAdapter *>(i); x.configuration()->addInterfaceAdapter(i); }) {
    auto *c = w.a->configuration(); for (char const *n : {"HaveMessage", "MessageText", "MessageSender", "PeekAtMessage"}) c->registerLookupHandlerFunction(n, [](State const &, LookupReceiver *) {});
    c->registerCommandHandlerFunction("Take", [](Command *k, AdapterExecInterface *i) { string s, t; auto const &v = k->getArgValues(); bool ok = v[0].getValue(s) && v[1].getValue(t); lg(ok ? ("take " + t + " " + s).c_str() : "take nothing"); i->handleCommandAck(k, COMMAND_SUCCESS); });
    w.run(); string look = "<Name><StringValue>", end = "</StringValue></Name>", arg = "<Arguments><StringVariable>r</StringVariable></Arguments>";
    w.add("<Node NodeType='NodeList'><NodeId>R</NodeId><RepeatCondition><BooleanValue>true</BooleanValue></RepeatCondition><VariableDeclarations><DeclareVariable><Name>r</Name><Type>String</Type></DeclareVariable></VariableDeclarations><NodeBody><NodeList>"
      "<Node NodeType='Command'><NodeId>Get</NodeId><StartCondition><LookupOnChange>" + look + "HaveMessage" + end + "</LookupOnChange></StartCondition><EndCondition><IsKnown><NodeCommandHandleVariable><NodeRef dir='self'/></NodeCommandHandleVariable></IsKnown></EndCondition><NodeBody><Command><StringVariable>r</StringVariable>" + look + "GetMessageHandle" + end + "</Command></NodeBody></Node>"
      "<Node NodeType='Command'><NodeId>Take</NodeId><StartCondition><Finished><NodeId>Get</NodeId></Finished></StartCondition><NodeBody><Command>" + look + "Take" + end + "<Arguments><LookupNow>" + look + "MessageText" + end + arg + "</LookupNow><LookupNow>" + look + "MessageSender" + end + arg + "</LookupNow></Arguments></Command></NodeBody></Node></NodeList></NodeBody></Node>"); w.notify(); }
  void recv(char const *who, char const *what) { ma->receiveMessage(who, State(what)); }
  void end(vector<std::pair<char const *, char const *>> const &ms) { R::idleRest(); for (auto &m : ms) times(("take " + string(m.first) + " " + m.second).c_str(), 1, "after all messages were received"); times("take nothing", 0, "though every message has a text"); w.stop(); } };
void w_one() { MWorld m; m.recv("a", "1"); m.end({{"a", "1"}}); }
void w_two() { MWorld m; m.recv("a", "1"); m.recv("a", "2"); m.end({{"a", "1"}, {"a", "2"}}); order("take a 1", "take a 2"); }
void w_thr() { MWorld m; Th t = go([&] { m.recv("b", "1"); }); m.recv("a", "1"); m.recv("a", "2"); t->join(); m.end({{"a", "1"}, {"a", "2"}, {"b", "1"}}); order("take a 1", "take a 2"); }
void w_rest() { MWorld m; m.recv("a", "1"); R::idleRest(); Th t = go([&] { m.recv("b", "1"); }); m.recv("a", "2"); t->join(); m.end({{"a", "1"}, {"a", "2"}, {"b", "1"}}); order("take a 1", "take a 2"); }

vector<Scenario> const SC = {
  {"w_one", w_one, 3, 5}, {"w_two", w_two, 3, 4}, {"w_thr", w_thr, 2, 3}, {"w_rest", w_rest, 2, 3},
  {"m_22", m_22, 6, 20}, {"m_12", m_12, 6, 20}, {"m_21", m_21, 6, 20}, {"m_33", m_33, 4, 10}, {"m_with", m_with, 6, 20}, {"m_two", m_two, 3, 5}, {"m_again", m_again, 5, 12}, {"m_dup", m_dup, 6, 20},
  {"q2x2", q_2x2, 5, 20}, {"q2x2m", q_2x2m, 5, 20}, {"q3x1", q_3x1, 4, 8}, {"q1x3", q_1x3, 9, 30}, {"qmgr", q_mgr, 5, 9}, {"qflush", q_flush, 9, 30},
  {"plain", s_plain1, 3, 5}, {"plainfg", s_plain0, 3, 4}, {"two", s_two1, 2, 3}, {"twofg", s_two0, 2, 3}, {"mark", s_mark1, 2, 3}, {"markfg", s_mark0, 2, 3}, {"mark2", s_mark2, 2, 3},
  {"fin", s_fin1, 3, 4}, {"finfg", s_fin0, 2, 3}, {"fin2", s_fin2, 3, 4}, {"fin3", s_fin3, 2, 3}, {"susp", s_susp1, 2, 3}, {"suspfg", s_susp0, 2, 3}, {"susp2", s_susp2, 2, 3},
  {"stop", s_stop1, 3, 4}, {"stopfg", s_stop0, 2, 3}, {"stopsusp", s_stop2, 2, 3}, {"stopwait", s_stopw, 3, 4}, {"add2", s_add2, 2, 3}, {"addlis", s_addl, 3, 4}, {"lib", s_lib, 3, 4}, {"ack", s_ack1, 2, 3}, {"ackfg", s_ack0, 2, 3}, {"ack2", s_ack2, 1, 2}, {"upd", s_upd, 2, 3}, {"look", s_look, 2, 3}, {"abort", s_abort, 2, 3}, {"life", s_life, 3, 5}};

char group(char const *n) { return n[0] == 'q' ? 'q' : n[0] == 'w' && n[1] == '_' ? 'w' : n[0] == 'm' && n[1] == '_' ? 'm' : 's'; }
void explore(char const *only) {
  prepare();
  for (auto &s : SC) if (string(only).size() == 1 ? only[0] == group(s.name) : s.name == string(only)) {
    if (one(s, {}) != R::OK) return; // warm up: one-time initialisations
    uint64_t e = H::st.executions; rec(s, {}, H::args.thorough ? s.thorough : s.quick, 0, H::hash(s.name)); if (g_dirty) { H::st.capped = true; return; }
    H::st.counters[string("schedules_") + s.name] += H::st.executions - e;
  }
}
void replay(string const &b) {
  prepare();
  std::istringstream in(b); string n, d; std::getline(in, n); std::getline(in, d); vector<uint8_t> p; for (char c : d) if (c >= '0' && c <= '9') p.push_back(c - '0');
  for (auto &s : SC) if (n == s.name) { if (one(s, {}) == R::OK) one(s, p); if (H::args.verbose) std::cout << all() << std::endl; }
}
}
int main(int argc, char **argv) {
  PlanError::doThrowExceptions();
  vector<H::Family> f = {{"S", [] { explore("s"); }, replay}, {"Q", [] { explore("q"); }, replay}, {"MQ", [] { explore("m"); }, replay}, {"MT", [] { explore("w"); }, replay}};
  for (auto &s : SC) f.push_back({s.name, [&s] { explore(s.name); }, replay});
  return H::run(argc, argv, f);
}
