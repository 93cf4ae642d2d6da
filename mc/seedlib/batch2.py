M = '#include "demo.hh"\nint main() {\n%s\n  return g_bad ? 1 : 0;\n}\n'
MI = '%s\n#include "demo.hh"\n%s\nint main() {\n%s\n  return g_bad ? 1 : 0;\n}\n'
BUGS = [
dict(id='update-stale-unknown', prop='C07', needs='an Update node executed again after one of its pair expressions has become unknown',
 breaks='the repeated update sends the value of the previous execution instead of unknown',
 edits=[('src/exec/UpdateNode.cc', '''      m_valuePairs[tmp->name] = tmp->expr->toValue();''', '''      Value current(tmp->expr->toValue());
      if (current.isKnown() || m_valuePairs.find(tmp->name) == m_valuePairs.end())
        m_valuePairs[tmp->name] = current;''')],
 demo=M % '''  Demo d; d.world["v"] = Value((Integer) 5);
  string u = node("Update", "u", T("RepeatCondition", "<BooleanValue>true</BooleanValue>") + T("NodeBody", T("Update", T("Pair", T("Name", "p") + NOW("v")))));
  d.load(list("root", "", {u})); d.run();
  expect("first", str(d.upds.at("u")->getPairs().find("p")->second), "5");
  d.set("v", Value()); d.upds.at("u")->acknowledge(true); d.run();
  expect("second", str(d.upds.at("u")->getPairs().find("p")->second), "UNKNOWN");'''),
dict(id='one-sided-thresholds', prop='C09', needs='two LookupOnChange of an integer state, the later with the smaller tolerance on both sides',
 breaks='the high threshold given to the interface stays the wider one, so a change the second lookup must see is not reported',
 edits=[('src/intfc/StateCacheEntry.cc', '''            if (newihi < ihi)
              ihi = newihi;''', '''            else if (newihi < ihi)
              ihi = newihi;''')],
 demo='''#include "demo.hh"
struct D : Demo { Integer hi = 0, lo = 0; void setThresholds(const State &, Integer h, Integer l) override { hi = h; lo = l; } void setThresholds(const State &, Real, Real) override {} };
int main() {
  D d; d.world["v"] = Value((Integer) 100);
  auto look = [](int tol) { return "<LookupOnChange><Name><StringValue>v</StringValue></Name><Tolerance>" + I(tol) + "</Tolerance></LookupOnChange>"; };
  auto n = [&](string const &id, int tol) { return empty(id, T("EndCondition", T("GT", look(tol) + I(1000)))); };
  d.load(list("root", "", {n("a", 10), n("b", 3)})); d.run();
  expect("high", d.hi, 103); expect("low", d.lo, 97);
  return g_bad ? 1 : 0;
}
'''),
dict(id='lookup-params', prop='C08', needs='an active LookupOnChange whose argument changes from one known value to another',
 breaks='the lookup keeps following the state with the old argument',
 edits=[('src/intfc/Lookup.cc', '''        if (oldKnown && newState != m_cachedState) {''', '''        if (oldKnown && (newState.name() != m_cachedState.name()
                         || newState.parameterCount() != m_cachedState.parameterCount())) {''')],
 demo='''#include "demo.hh"
struct D : Demo { void lookupNow(State const &s, LookupReceiver *r) override { if (s.name() == "s") { Integer i; if (s.parameter(0).getValue(i)) { r->update(Value((Integer) (i * 10))); return; } } Demo::lookupNow(s, r); } };
int main() {
  D d; d.world["k"] = Value((Integer) 1);
  string look = "<LookupOnChange><Name><StringValue>s</StringValue></Name><Arguments>" + B("k") + "</Arguments></LookupOnChange>";
  d.load(list("root", "", {empty("a", T("EndCondition", T("EQNumeric", look + I(20))))})); d.run();
  expect("a", d.state("a"), "EXECUTING");
  d.change("k", Value((Integer) 2));
  expect("a", d.state("a"), "FINISHED/SUCCESS");
  return g_bad ? 1 : 0;
}
'''),
dict(id='late-return', prop='C06', needs='a return value arriving after the command node has left execution',
 breaks='the variable of a command which is over is changed by a late return value',
 edits=[('src/intfc/CommandImpl.cc', '''    if (!m_active || !m_dest)
      return;''', '''    if (!m_dest)
      return; // nowhere to put it''')],
 demo=M % '''  Demo d;
  string c = node("Command", "c", T("EndCondition", "<EQInternal><NodeCommandHandleVariable><NodeRef dir=\\"self\\"/></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal>") +
    T("NodeBody", T("Command", IV("x") + T("Name", T("StringValue", "c")))));
  d.load(list("root", T("VariableDeclarations", declI("x", "1")) + T("EndCondition", "<BooleanValue>false</BooleanValue>"), {c})); d.run();
  d.handle("c", COMMAND_SUCCESS); d.run(); expect("c", d.state("c"), "FINISHED/SUCCESS");
  commandReturn(d.cmds.at("c"), Value((Integer) 7)); d.run();
  expect("x", d.var("root", "x"), "1");'''),
dict(id='first-timepoint', prop='C11', needs='a plan referring both to the end of one state of a node and to the start of the state which follows it',
 breaks='a transition which ends one referenced state and starts another sets only one of the two timepoints',
 edits=[('src/exec/NodeImpl.cc', '''      if ((tp->state() == m_state && tp->isEnd())
          || (tp->state() == newState && !tp->isEnd()))
        tp->setValue(tym);''', '''      if ((tp->state() == m_state && tp->isEnd())
          || (tp->state() == newState && !tp->isEnd())) {
        tp->setValue(tym);
        break; // found it
      }''')],
 demo=M % '''  Demo d; d.world["done"] = Value(false);
  auto tp = [](string const &s, string const &p) { return T("NodeTimepointValue", T("NodeId", "a") + T("NodeStateValue", s) + T("Timepoint", p)); };
  string a = empty("a", T("EndCondition", B("done")));
  string e = empty("e", T("EndCondition", T("IsKnown", tp("EXECUTING", "END"))));
  string f = empty("f", T("EndCondition", T("IsKnown", tp("ITERATION_ENDED", "START"))));
  string g = empty("g", T("EndCondition", T("EQNumeric", tp("EXECUTING", "END") + tp("ITERATION_ENDED", "START"))));
  d.load(list("root", "", {a, e, f, g})); d.run();
  expect("e", d.state("e"), "EXECUTING"); expect("f", d.state("f"), "EXECUTING");
  d.change("done", Value(true));
  expect("e", d.state("e"), "FINISHED/SUCCESS"); expect("f", d.state("f"), "FINISHED/SUCCESS"); expect("g", d.state("g"), "FINISHED/SUCCESS");'''),
dict(id='one-finished-plan', prop='C12', needs='two plans finishing in the same step',
 breaks='only one of the plans which finished in the step is deleted',
 edits=[('src/exec/PlexilExec.cc', '''      while (!m_finishedRootNodes.empty()) {
        Node *node''', '''      if (!m_finishedRootNodes.empty()) {
        Node *node''')],
 demo=M % '''  Demo d; d.world["go"] = Value(false);
  for (char c = 'a'; c < 'd'; ++c) d.load(empty(string(1, c), T("EndCondition", B("go"))));
  d.run(); expect("plans", (int) d.exec->getPlans().size(), 3);
  d.change("go", Value(true)); d.exec->deleteFinishedPlans();
  expect("plans", (int) d.exec->getPlans().size(), 0);'''),
dict(id='flush-tail', prop='C23', needs='putting an entry after flushing a queue that was not empty',
 breaks='the first entry put after a flush is lost',
 edits=[('src/app-framework/SerializedInputQueue.cc', '''    QueueEntry *temp;
    while ((temp = m_queueGet)) {
      m_queueGet = temp->next;
      // Can't call release() here because we already hold the mutex
      temp->reset();
      temp->next = m_freeList;
      m_freeList = temp;
    }
    m_queuePut = nullptr;''', '''    // Move the whole queue to the free list
    if (m_queuePut) {
      for (QueueEntry *temp = m_queueGet; temp != m_queuePut; temp = temp->next)
        temp->reset();
      m_queuePut->next = m_freeList;
      m_freeList = m_queueGet;
      m_queueGet = nullptr;
    }
    m_queuePut = nullptr;''')],
 demo='''#include "SerializedInputQueue.hh"
#include "QueueEntry.hh"
#include "demo.hh"
int main() {
  SerializedInputQueue q; Update *none = nullptr;
  auto mark = [&](unsigned n) { QueueEntry *e = q.allocate(); e->initForMark(n); q.put(e); };
  for (unsigned n = 1; n < 4; ++n) mark(n);
  q.flush(); expect("empty", q.isEmpty(), 1);
  mark(7); mark(8); string s; while (QueueEntry *e = q.get()) { s += std::to_string(e->sequence); q.release(e); }
  expect("entries", s, "78");
  // a used entry comes back clean
  QueueEntry *e = q.allocate(); State st("x"); e->initForLookup(st, Value((Integer) 5)); q.put(e); q.flush();
  QueueEntry *f = q.allocate(); expect("reset", f->value.isKnown(), 0); expect("no state", f->state == nullptr, 1);
  (void) none; return g_bad ? 1 : 0;
}
'''),
dict(id='unknown-string-size', prop='C20', needs='a String array with an unknown element which used to have a value',
 breaks='serialSize() of the array is not the number of bytes serialize() writes',
 edits=[('src/value/ArrayImpl.cc', """    for (size_t i = 0; i < siz; ++i)
      result += 3 + m_contents[i].size();
    return result;""", """    for (size_t i = 0; i < siz; ++i)
      result += 3 + (this->m_known[i] ? m_contents[i].size() : 0);
    return result;""")],
 demo=MI % ('#include "ArrayImpl.hh"', '', """  StringArray a(3, String("abc")); a.setElementUnknown(1);
  vector<char> buf(100, 'x'); char *e = a.serialize(buf.data());
  expect("bytes", (int) (e - buf.data()), (int) a.serialSize());""")),
dict(id='zero-product', prop='C14', needs='a product of three or more operands, zero so far and an unknown one later',
 breaks='the product is 0 instead of unknown',
 edits=[('src/expr/ArithmeticOperators.cc', """    NUM workingResult, temp;
    if (!args[0]->getValue(workingResult))
      return false;
    for (size_t i = 1; i < args.size(); ++i) {
      if (!args[i]->getValue(temp))""", """    NUM workingResult, temp;
    if (!args[0]->getValue(workingResult))
      return false;
    // Once the result is 0 it stays 0
    for (size_t i = 1; i < args.size() && workingResult != 0; ++i) {
      if (!args[i]->getValue(temp))""")],
 demo=M % """  Demo d; d.world["z"] = Value((Integer) 0); d.world["u"] = Value();
  d.load(list("root", T("EndCondition", "<BooleanValue>false</BooleanValue>") + T("VariableDeclarations", "<DeclareVariable><Name>x</Name><Type>Integer</Type><InitialValue><IntegerValue>3</IntegerValue></InitialValue></DeclareVariable><DeclareVariable><Name>u</Name><Type>Integer</Type></DeclareVariable>"),
    {assignI("a", "x", T("MUL", IV("x") + I(0) + IV("u")), "")})); d.run();
  expect("x", d.var("root", "x"), "UNKNOWN");"""),
dict(id='array-order', prop='C19', needs='two arrays with an unknown element at the same place, differing after it',
 breaks='the arrays are not ordered: neither is less than the other, though they differ',
 edits=[('src/value/ArrayImpl.cc', """      if (!aKnown)
        continue; // neither known""", """      if (!aKnown)
        break; // neither known""", 0)],
 demo=MI % ('#include "ArrayImpl.hh"', '', """  IntegerArray a(3, 1), b(3, 1); a.setElementUnknown(1); b.setElementUnknown(1); b.setElement(2, 5);
  expect("equal", a == b, 0); expect("less", (a < b) || (b < a), 1);""")),
dict(id='normalize-minus-one', prop='C22', needs='two negative times whose sum is exactly one second below a whole second',
 breaks='the sum is not normalised',
 edits=[('src/utils/timespec-utils.cc', 'else if (tspec.tv_nsec + ONE_BILLION <= 0) {', 'else if (tspec.tv_nsec <= -ONE_BILLION - 1) {')],
 demo=MI % ('#include "timespec-utils.hh"', '', """  struct timespec a = {0, -500000000}, b = {-2, -500000000}; struct timespec c = a + b;
  expect("sec", (int) c.tv_sec, -3); expect("nsec", (int) c.tv_nsec, 0);""")),
dict(id='alias-apart', prop='C31', needs='a library call with two aliases for one parameter and another alias between them',
 breaks='the malformed call is accepted',
 edits=[('src/xml-parser/parseLibraryCall.cc', """    for (xml_node sib = aliasXml.previous_sibling(); sib; sib = sib.previous_sibling()) {""", """    if (xml_node sib = aliasXml.previous_sibling()) {""")],
 demo=MI % ('#include "planLibrary.hh"', '', """  auto text = "<PlexilPlan><Node NodeType=\\"Empty\\"><NodeId>L</NodeId><Interface><In><DeclareVariable><Name>p</Name><Type>Integer</Type></DeclareVariable><DeclareVariable><Name>q</Name><Type>Integer</Type></DeclareVariable></In></Interface></Node></PlexilPlan>";
  auto lib = new pugi::xml_document; lib->load_string(text, pugi::parse_default | pugi::parse_ws_pcdata_single); loadLibraryDocument(lib);
  auto al = [](string const &n, int v) { return T("Alias", T("NodeParameter", n) + I(v)); };
  auto call = [&](string const &a) { return "<PlexilPlan>" + node("LibraryNodeCall", "c", T("NodeBody", T("LibraryNodeCall", T("NodeId", "L") + a))) + "</PlexilPlan>"; };
  auto accepted = [&](string const &x) { pugi::xml_document d; d.load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single); try { return parsePlan(d.document_element()) != nullptr; } catch (std::exception const &) { return false; } };
  expect("good", accepted(call(al("p", 1) + al("q", 2))), 1);
  expect("bad", accepted(call(al("p", 1) + al("q", 2) + al("p", 3))), 0);""")),
dict(id='handler-replaced', prop='C26', needs='a lookup handler registered for several names, one of which already has a handler',
 breaks='the name keeps its first handler instead of the one registered last',
 edits=[('src/app-framework/AdapterConfiguration.cc', """                 " (vector) " << name << " -> " << handler);
        m_lookupMap[name] = handler;""", """                 " (vector) " << name << " -> " << handler);
        m_lookupMap.emplace(name, ptr);""")],
 demo=MI % ('#include "ExecApplication.hh"\n#include "AdapterConfiguration.hh"\n#include "LookupHandler.hh"', """struct H : LookupHandler { int n = 0; void lookupNow(State const &, LookupReceiver *r) override { ++n; r->setUnknown(); } };
struct Rcv : LookupReceiver { void update(Value const &) override {} void setUnknown() override {} void update(Boolean) override {} void update(Integer) override {} void update(Real) override {} void update(String const &) override {} void update(char const *) override {} void update(Boolean const *, size_t) override {} void update(Integer const *, size_t) override {} void update(Real const *, size_t) override {} void update(String const *, size_t) override {} };""", """  std::unique_ptr<ExecApplication> a(makeExecApplication()); auto *c = a->configuration();
  auto h = std::make_shared<H>(), k = std::make_shared<H>(); c->registerLookupHandler(h, "x"); c->registerLookupHandler(k, vector<string>{"w", "x"});
  Rcv r; dynamic_cast<Dispatcher *>(c)->lookupNow(State("x"), &r);
  expect("first", h->n, 0); expect("last", k->n, 1);""")),
dict(id='second-listener', prop='C27', needs='two listeners and a step with assignments',
 breaks='only the first listener is told of assignments',
 edits=[('src/app-framework/ExecListenerHub.cc', """        listener->notifyOfAssignment(assign.dest, assign.destName, assign.value);
    }
    m_transitions.clear();
    m_assignments.clear();""", """        listener->notifyOfAssignment(assign.dest, assign.destName, assign.value);
      m_assignments.clear();
    }
    m_transitions.clear();""")],
 demo=MI % ('#include "ExecListenerHub.hh"\n#include "ExecListener.hh"', """struct L : ExecListener { mutable int n = 0; void implementNotifyAssignment(Expression const *, string const &, Value const &) const override { ++n; } };""", """  ExecListenerHub h; L *a = new L, *b = new L; h.addListener(a); h.addListener(b);
  h.notifyOfAssignment(nullptr, "x", Value((Integer) 1)); h.notifyOfAssignment(nullptr, "y", Value((Integer) 1)); h.stepComplete(1);
  expect("first", a->n, 2); expect("second", b->n, 2); h.stepComplete(2); expect("again", a->n + b->n, 4);""")),
dict(id='resume-quiet', prop='C24', needs='events arriving while the application is suspended, and none after it is resumed',
 breaks='events received during a suspension are not processed when the application resumes',
 edits=[('src/app-framework/ExecApplication.cc', """      // Resume the Exec
      m_suspended = false;
      notifyExec();
      return true;""", """      // Resume the Exec
      m_suspended = false;
      if (!m_manager)
        notifyExec();
      return true;""")],
 demo=MI % ('#include "ExecApplication.hh"\n#include "AdapterConfiguration.hh"\n#include "InterfaceManager.hh"\n#include "AdapterExecInterface.hh"\n#include <atomic>\n#include <thread>\n#include <chrono>', 'static std::atomic<int> g_sent{0};', """  std::unique_ptr<ExecApplication> a(makeExecApplication());
  a->configuration()->setDefaultCommandHandlerFunction([](Command *k, AdapterExecInterface *i) { ++g_sent; i->handleCommandAck(k, COMMAND_SUCCESS); });
  pugi::xml_document c; c.load_string("<Interfaces/>"); if (!a->initialize(c.document_element()) || !a->startInterfaces() || !a->run()) exit(5);
  std::this_thread::sleep_for(std::chrono::milliseconds(300)); a->suspend(); pugi::xml_document p; string x = "<PlexilPlan>" + command("n", "n", "") + "</PlexilPlan>"; p.load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
  a->addPlan(&p); a->notifyExec(); std::this_thread::sleep_for(std::chrono::milliseconds(300)); expect("while suspended", g_sent, 0);
  a->resume(); for (int i = 0; i < 100 && !g_sent; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50)); expect("after resuming", g_sent, 1); a->stop();""")),
dict(id='one-pair', prop='C28', needs='messages sent before anything waits for them, and several recipients at once', breaks='', edits=None, demo=''),
dict(id='port-minus', prop='C29', needs='a two-byte integer with the top bit set', breaks='a negative two-byte field is decoded as a positive number',
 edits=[('src/interfaces/UdpAdapter/udp-utils.hh', '  short int decode_short_int(', '  int decode_short_int('), ('src/interfaces/UdpAdapter/udp-utils.cc', '  short int decode_short_int(', '  int decode_short_int('), ('src/interfaces/UdpAdapter/udp-utils.cc', '    return (short int) ntohs(temp);', '    return ntohs(temp);')],
 demo=MI % ('#include "udp-utils.hh"', '', """  unsigned char b[8] = {}; encode_short_int(-2, b, 3);
  expect("value", (int) decode_short_int(b, 3), -2); encode_short_int(1234, b, 1); expect("value", (int) decode_short_int(b, 1), 1234);"""), sh=lambda t: t.replace('-I$S/xml-parser', '-I$S/interfaces/UdpAdapter -I$S/xml-parser').replace('-lPlexilUtils', '-lPlexilUtils -L$O/src/interfaces/UdpAdapter -Wl,-rpath,$O/src/interfaces/UdpAdapter -lUdpUtils')),
]
