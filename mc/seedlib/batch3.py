M = '#include "demo.hh"\nint main() {\n%s\n  return g_bad ? 1 : 0;\n}\n'
MI = '%s\n#include "demo.hh"\n%s\nint main() {\n%s\n  return g_bad ? 1 : 0;\n}\n'
APPH = '#include <unistd.h>\n#include <sys/socket.h>\n#include <netinet/in.h>\n#include <functional>\n#include "ExecApplication.hh"\n#include "AdapterConfiguration.hh"\n#include "AdapterFactory.hh"\n#include "InterfaceAdapter.hh"\n#include "InterfaceManager.hh"\n#include "AdapterExecInterface.hh"\n#include "MessageAdapter.hh"\n#include "planLibrary.hh"'
UDPSH = lambda t: t.replace('-I$S/xml-parser', '-I$S/interfaces/UdpAdapter -I$S/xml-parser').replace('"$D/demo.cc"', '"$D/demo.cc" $S/interfaces/UdpAdapter/UdpAdapter.cc $S/interfaces/UdpAdapter/UdpEventLoop.cc $S/interfaces/UdpAdapter/MessageQueueMap.cc $S/interfaces/UdpAdapter/udp-utils.cc')
APPD = '''struct A { std::unique_ptr<ExecApplication> a; vector<string> got; vector<Command *> work;
  A(string const &conf, std::function<void(A &)> pre = nullptr) : a(makeExecApplication()) {
    if (pre) pre(*this);
    pugi::xml_document c; c.load_string(conf.c_str()); if (!a->initialize(c.document_element())) exit(5);
    a->configuration()->registerCommandHandlerFunction("probe", [this](Command *k, AdapterExecInterface *i) { for (auto &v : k->getArgValues()) got.push_back(str(v)); i->handleCommandAck(k, COMMAND_SUCCESS); });
    a->configuration()->registerCommandHandlerFunction("work", [this](Command *k, AdapterExecInterface *) { work.push_back(k); }, [](Command *, AdapterExecInterface *) {});
    if (!a->startInterfaces()) exit(6); a->runExec(); }
  void plan(string const &b) { pugi::xml_document p; string x = "<PlexilPlan>" + b + "</PlexilPlan>"; if (!p.load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) exit(9); a->manager()->handleAddPlan(p.document_element()); a->runExec(); }
  string ask(string const &args) { static int n = 0; got.clear(); plan("<Node NodeType=\\"Command\\"><NodeId>ask" + std::to_string(++n) + "</NodeId><NodeBody><Command><Name><StringValue>probe</StringValue></Name><Arguments>" + args + "</Arguments></Command></NodeBody></Node>"); string s; for (auto &g : got) s += (s.empty() ? "" : ",") + g; return s; }
};
'''
BUGS = [
dict(id='alias-array', prop='C10', needs='an array passed to a library, which waits for a change of one of its elements',
 breaks='a library waiting for a change of an element of the array of its caller is never woken',
 edits=[('src/expr/ArrayReference.cc', '''    (opr)(m_array);
    (opr)(m_index);''', '''    // Only variables can change
    if (m_array->isAssignable())
      (opr)(m_array);
    (opr)(m_index);''', 0)],
 demo=MI % ('#include "planLibrary.hh"', '', '''  Demo d;
  auto *lib = new pugi::xml_document; string elt = "<ArrayElement><ArrayVariable>p</ArrayVariable><Index><IntegerValue>1</IntegerValue></Index></ArrayElement>";
  string l = "<PlexilPlan>" + node("Empty", "lib", T("Interface", T("In", "<DeclareArray><Name>p</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray>")) + T("EndCondition", T("EQNumeric", elt + I(7)))) + "</PlexilPlan>";
  lib->load_string(l.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single); if (!loadLibraryDocument(lib)) exit(4);
  d.world["go"] = Value(false);
  string set = node("Assignment", "set", T("StartCondition", B("go")) + T("NodeBody", T("Assignment", "<ArrayElement><Name>a</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement>" + T("NumericRHS", I(7)))));
  string call = node("LibraryNodeCall", "call", T("NodeBody", T("LibraryNodeCall", T("NodeId", "lib") + T("Alias", T("NodeParameter", "p") + "<ArrayVariable>a</ArrayVariable>"))));
  d.load(list("root", T("VariableDeclarations", "<DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray>"), {set, call})); d.run();
  expect("call", d.state("call"), "EXECUTING"); d.change("go", Value(true));
  expect("set", d.state("set"), "FINISHED/SUCCESS"); expect("call", d.state("call"), "FINISHED/SUCCESS");''')),
dict(id='nearly-equal', prop='C15', needs='two real numbers which are next to each other',
 breaks='two different real numbers are reported equal',
 edits=[('src/expr/Comparisons.cc', '''  template <>
  bool compareEqual<String>(''', '''  template <>
  bool compareEqual<Real>(Boolean &result, Expression const *argA, Expression const *argB)
  {
    Real tempA, tempB;
    if (!argA->getValue(tempA) || !argB->getValue(tempB))
      return false; // some value unknown
    // Forgive rounding in the last place
    result = (tempA == tempB) || std::fabs(tempA - tempB) <= 2.3e-16 * std::fabs(tempA);
    return true;
  }

  template <>
  bool compareEqual<String>('''), ('src/expr/Comparisons.cc', '#include "Function.hh"', '#include "Function.hh"\n\n#include <cmath>'),
  ('src/expr/Comparisons.cc', '    result = (tempA == tempB);\n    return true;\n  }\n\n  //\n  // Special cases\n  //', '    result = !(tempA != tempB);\n    return true;\n  }\n\n  //\n  // Special cases\n  //')],
 demo=M % '''  Demo d; d.world["v"] = Value(0.1);
  d.load(list("root", "", {empty("a", T("EndCondition", T("NENumeric", B("v") + R("0.10000000000000001")))), empty("b", T("EndCondition", T("EQNumeric", B("v") + R("0.30000000000000004"))))})); d.run();
  expect("a", d.state("a"), "EXECUTING"); expect("b", d.state("b"), "EXECUTING");
  d.change("v", Value(0.3)); expect("a", d.state("a"), "FINISHED/SUCCESS"); expect("b", d.state("b"), "EXECUTING");
  d.change("v", Value(0.1 + 0.2)); expect("b", d.state("b"), "FINISHED/SUCCESS");'''),
dict(id='same-operand', prop='C16', needs='an operation with the same variable as both of its operands, deactivated and activated again',
 breaks='the variable stays active, and is not initialised when it is activated again',
 edits=[('src/expr/Function.cc', '''  void FixedSizeFunction<2>::handleDeactivate()
  {
    exprs[0]->deactivate();
    exprs[1]->deactivate();''', '''  void FixedSizeFunction<2>::handleDeactivate()
  {
    exprs[0]->deactivate();
    if (exprs[1] != exprs[0])
      exprs[1]->deactivate();''')],
 demo=M % '''  Demo d; d.world["go"] = Value(false);
  string a = assignI("a", "x", I(5), T("StartCondition", T("EQNumeric", T("ADD", IV("x") + IV("x")) + I(2))));
  string l = node("NodeList", "l", T("VariableDeclarations", declI("x", "1")) + T("RepeatCondition", B("go")) + T("NodeBody", T("NodeList", a)));
  int before = 0, after = 0; d.load(list("root", T("EndCondition", "<BooleanValue>false</BooleanValue>"), {l})); d.world["go"] = Value(true);
  d.change("go", Value(true)); for (auto &s : d.log) before += s == "ASSIGN x=5"; d.set("go", Value(false)); d.run(); for (auto &s : d.log) after += s == "ASSIGN x=5";
  expect("finished", d.state("l"), "FINISHED/SUCCESS"); (void) after;'''),
dict(id='empty-concat', prop='C18', needs='three or more strings, all of them empty after having been something else',
 breaks='the concatenation keeps its former value',
 edits=[('src/expr/StringOperators.cc', '''    result.clear();
    result.reserve(len);
    for (size_t i = 0; i < nargs; ++i)''', '''    if (!len)
      return true; // nothing to append
    result.clear();
    result.reserve(len);
    for (size_t i = 0; i < nargs; ++i)''')],
 demo=M % '''  Demo d; d.world["s"] = Value("ab"); d.world["t"] = Value("c");
  string con = T("Concat", B("s") + B("t") + B("s"));
  d.load(list("root", "", {empty("a", T("EndCondition", T("EQString", con + T("StringValue", "")))), empty("b", T("EndCondition", T("EQString", con + T("StringValue", "c"))))})); d.run();
  expect("a", d.state("a"), "EXECUTING"); d.change("s", Value("")); expect("a", d.state("a"), "EXECUTING"); expect("b", d.state("b"), "FINISHED/SUCCESS");
  d.change("t", Value("")); expect("a", d.state("a"), "FINISHED/SUCCESS");'''),
dict(id='queue-tail', prop='C21', needs='removing an item by predicate from the end of a queue and adding another',
 breaks='the queue loses what is added after its last item was removed',
 edits=[('src/utils/LinkedQueue.hh', '''          result = cur;
          *(prevNextPtr) = cur->next();
          if (cur == m_tail)
            m_tail = prev;
          break;''', '''          result = cur;
          *(prevNextPtr) = cur->next();
          if (m_head == nullptr)
            m_tail = nullptr;
          break;''')],
 demo=MI % ('#include "LinkedQueue.hh"', 'struct It { int v; It *n = nullptr; It(int x) : v(x) {} It *next() const { return n; } It **nextPtr() { return &n; } };\nusing PLEXIL::LinkedQueue;', '''  LinkedQueue<It> q; It a(1), b(2), c(3), d(4); q.push(&a); q.push(&b); q.push(&c);
  expect("removed", q.remove_if([](It *x) { return x->v == 3; })->v, 3); q.push(&d);
  string s; while (It *x = q.front()) { s += std::to_string(x->v); q.pop(); } expect("items", s, "124"); expect("size", (int) q.size(), 0);''')),
dict(id='same-deadline', prop='C25', needs='a timer going off early, or a deadline set again after it has passed',
 breaks='a deadline which was set before is not set again, and the wake-up is lost',
 edits=[('src/app-framework/PosixTimebase.cc', '''      if (m_interval_usec) {
        debugMsg("PosixTimebase:setTimer", " tick mode, ignoring");''', '''      if (m_interval_usec || d == m_nextWakeup) {
        debugMsg("PosixTimebase:setTimer", " tick mode, or set already, ignoring");''')],
 demo=MI % ('#include "Timebase.hh"\n#include "TimebaseFactory.hh"\n#include <atomic>\n#include <thread>\n#include <chrono>\n#include <ctime>\nextern "C" void initTimebaseFactories();', 'static std::atomic<int> g_n{0};\nstatic double now() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec + t.tv_nsec / 1e9; }', '''  initTimebaseFactories(); pugi::xml_document x; x.load_string("<Timebase Type=\\"Posix\\"/>"); std::unique_ptr<Timebase> t(makeTimebase(x.document_element(), [] { ++g_n; }));
  t->start(); double d = now() + 0.2; t->setTimer(d); for (int i = 0; i < 100 && !g_n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50));
  expect("first", g_n, 1); t->setTimer(d); for (int i = 0; i < 40 && g_n < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50));
  expect("again, in the past", g_n, 2); t->stop();''')),
dict(id='second-label', prop='C28', needs='two datagrams of one message arriving within a second, before the parameters of the first are read',
 breaks='two messages get the same handle, and the parameters of the first are given for both',
 edits=[('src/interfaces/UdpAdapter/UdpAdapter.cc', '''      static int counter = 1;     // gensym counter
      std::ostringstream unique_id;
      unique_id << msgDef.name << ":msg_parameter:" << counter++;''', '''      std::ostringstream unique_id;
      unique_id << msgDef.name << ":msg_parameter:" << time(nullptr);''')],
 demo=MI % (APPH + '\n#include "udp-utils.hh"\n#include <functional>\n#include <thread>\n#include <chrono>\nextern "C" void initUdpAdapter();', APPD, '''  initUdpAdapter(); int port = 0; { int s = socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; bind(s, (sockaddr *) &a, sizeof a); socklen_t l = sizeof a; getsockname(s, (sockaddr *) &a, &l); port = ntohs(a.sin_port); close(s); }
  A w("<Interfaces><Adapter AdapterType=\\"UdpAdapter\\"><Message name=\\"m\\" local_port=\\"" + std::to_string(port) + "\\" peer_port=\\"" + std::to_string(port) + "\\" peer=\\"localhost\\"><Parameter type=\\"int\\" bytes=\\"4\\"/></Message></Adapter></Interfaces>");
  auto cmd = [](string const &id, string const &ret, string const &name, string const &args, string const &pre = "") { return node("Command", id, pre + T("NodeBody", T("Command", T("StringVariable", ret) + T("Name", T("StringValue", name)) + T("Arguments", args)))); };
  auto dv = [](string const &n) { return "<DeclareVariable><Name>" + n + "</Name><Type>String</Type></DeclareVariable>"; };
  auto dn = [](string const &n) { return "<EQInternal><NodeStateVariable><NodeRef dir=\\"sibling\\">" + n + "</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>"; };
  string probe = node("Command", "p", T("StartCondition", T("AND", dn("a") + dn("b"))) + T("NodeBody", T("Command", T("Name", T("StringValue", "probe")) + T("Arguments", T("StringVariable", "x") + T("StringVariable", "y")))));
  w.got.clear(); w.plan(list("root", T("VariableDeclarations", dv("x") + dv("y")), {cmd("a", "x", "ReceiveCommand", T("StringValue", "m"), T("EndCondition", T("IsKnown", T("StringVariable", "x")))), cmd("b", "y", "ReceiveCommand", T("StringValue", "m"), T("StartCondition", dn("a")) + T("EndCondition", T("IsKnown", T("StringVariable", "y")))), probe}));
  while (time(nullptr) == time(nullptr) && [] { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_nsec > 200000000; }()) std::this_thread::sleep_for(std::chrono::milliseconds(20));
  for (int i = 1; i < 3; ++i) { unsigned char b[4]; encode_int32_t(i, b, 0); send_message_connect("localhost", port, (char *) b, 4, false); }
  for (int i = 0; i < 60 && w.got.size() < 2; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); w.a->runExec(); }
  expect("handles", (int) w.got.size(), 2); if (w.got.size() == 2) expect("different", w.got[0] != w.got[1], 1); fflush(stdout); std::cout.flush(); _exit(g_bad ? 1 : 0);'''), sh=UDPSH),
dict(id='outcome-later', prop='C30', needs='asking for the outcome of a plan which is on its way out, before it has ended',
 breaks='the outcome of a plan made to exit is not reported until it has ended',
 edits=[('src/app-framework/Launcher.cc', '''        if (o != NO_OUTCOME) {
          // Report the outcome''', '''        if (o != NO_OUTCOME
            && (newState == ITERATION_ENDED_STATE || newState == FINISHED_STATE)) {
          // Report the outcome''')],
 demo=MI % (APPH + '\n#include <functional>', APPD, '''  A w("<Interfaces><Adapter AdapterType=\\"Launcher\\"/></Interfaces>");
  auto *lib = new pugi::xml_document; string l = "<PlexilPlan>" + command("lib", "work", "") + "</PlexilPlan>"; lib->load_string(l.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single); if (!loadLibraryDocument(lib)) exit(4);
  auto cmd = [](string const &id, string const &name, string const &args) { return node("Command", id, T("NodeBody", T("Command", T("Name", T("StringValue", name)) + T("Arguments", args)))); };
  auto q = [](string const &n) { return "<LookupNow><Name><StringValue>" + n + "</StringValue></Name><Arguments><StringValue>lib_1</StringValue></Arguments></LookupNow>"; };
  w.plan(cmd("s", "StartPlan", T("StringValue", "lib"))); w.a->runExec(); expect("started", (int) w.work.size(), 1);
  expect("running", w.ask(q("PlanState") + q("PlanOutcome") + q("PlanFailureType")), "EXECUTING,UNKNOWN,UNKNOWN");
  w.plan(cmd("e", "ExitPlan", T("StringValue", "lib_1"))); w.a->runExec();
  expect("leaving", w.ask(q("PlanState") + q("PlanOutcome") + q("PlanFailureType")), "FAILING,INTERRUPTED,EXITED"); std::cout.flush(); _exit(g_bad ? 1 : 0);''')),
dict(id='sender-stays', prop='C32', needs='a message without a sender at the head of the queue after one which had a sender',
 breaks='an anonymous message is reported to come from the sender of the message before it',
 edits=[('src/intfc/StateCache.cc', '''      ensureStateCacheEntry(s_peekAtMessageSender)->update(msg->sender);''', '''      if (!msg->sender.empty())
        ensureStateCacheEntry(s_peekAtMessageSender)->update(msg->sender);''')],
 demo=MI % (APPH + '\n#include <functional>', APPD, '''  MessageAdapter *ma = nullptr;
  A w("<Interfaces/>", [&ma](A &x) { pugi::xml_document d; d.load_string("<Adapter AdapterType=\\"Message\\"/>"); auto *i = AdapterFactory::createInstance(d.document_element(), *x.a->manager()); if (!i) exit(3); ma = dynamic_cast<MessageAdapter *>(i); x.a->configuration()->addInterfaceAdapter(i); });
  ma->receiveMessage("bob", State("one")); ma->receiveMessageAnonymously(State("two")); w.a->runExec();
  expect("first", w.ask(NOW("PeekAtMessage") + NOW("PeekAtMessageSender")), "one,bob");
  w.plan(command("g", "GetMessageHandle", "")); w.a->runExec(); string s = w.ask(NOW("PeekAtMessage") + NOW("PeekAtMessageSender")); std::cout << s << "\\n";
  expect("second", s == "two," || s == "two,UNKNOWN", 1); std::cout.flush(); _exit(g_bad ? 1 : 0);''')),
dict(id='first-return', prop='C33', needs='the same command in two nodes, the first of which ended without a return value',
 breaks='the value a script returns goes to a command which has ended, and never reaches the one which waits for it',
 edits=[('src/apps/TestExec/TestExternalInterface.cc', '''        m_executingCommands[command] = cmd;''', '''        m_executingCommands.insert(std::make_pair(command, cmd));''')], demo='',
 sh=lambda t: '''#!/bin/bash
# run in /repo after the build
W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
R=$(pwd); T=$(find "$R/_build" -name TestExec -type f -perm -u+x | head -1); [ -n "$T" ] || exit 3
cat > "$W/p.plx" <<'E'
<PlexilPlan><Node NodeType="NodeList"><NodeId>root</NodeId>
<VariableDeclarations><DeclareVariable><Name>x</Name><Type>Integer</Type></DeclareVariable><DeclareVariable><Name>y</Name><Type>Integer</Type></DeclareVariable></VariableDeclarations>
<NodeBody><NodeList>
<Node NodeType="Command"><NodeId>a</NodeId><NodeBody><Command><IntegerVariable>x</IntegerVariable><Name><StringValue>foo</StringValue></Name></Command></NodeBody></Node>
<Node NodeType="Command"><NodeId>b</NodeId><StartCondition><EQInternal><NodeStateVariable><NodeRef dir="sibling">a</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal></StartCondition>
<EndCondition><IsKnown><IntegerVariable>y</IntegerVariable></IsKnown></EndCondition><NodeBody><Command><IntegerVariable>y</IntegerVariable><Name><StringValue>foo</StringValue></Name></Command></NodeBody></Node>
<Node NodeType="Command"><NodeId>c</NodeId><StartCondition><EQInternal><NodeStateVariable><NodeRef dir="sibling">b</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal></StartCondition>
<NodeBody><Command><Name><StringValue>print</StringValue></Name><Arguments><StringValue>got:</StringValue><IntegerVariable>y</IntegerVariable></Arguments></Command></NodeBody></Node>
</NodeList></NodeBody></Node></PlexilPlan>
E
cat > "$W/s.psx" <<'E'
<PLEXILScript><Script>
<CommandAck name="foo" type="string"><Result>COMMAND_SUCCESS</Result></CommandAck>
<CommandAck name="foo" type="string"><Result>COMMAND_RCVD_BY_SYSTEM</Result></CommandAck>
<Command name="foo" type="int"><Result>42</Result></Command>
</Script></PLEXILScript>
E
: > "$W/Debug.cfg"
cd "$W" && timeout 60 "$T" -p p.plx -s s.psx -d Debug.cfg > out 2>&1; tail -5 out; grep -q 'got:42' out
'''),
]
