M = '#include "demo.hh"\nint main() {\n%s\n  return g_bad ? 1 : 0;\n}\n'
SIMH = '''#include "Agenda.hh"
#include "CommRelayBase.hh"
#include "CommandResponseManager.hh"
#include "PlexilSimResponseFactory.hh"
#include "ResponseMessage.hh"
#include "Simulator.hh"
#include "SimulatorScriptReader.hh"
#include "demo.hh"
#include <csignal>
#include <fstream>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <pthread.h>
static std::mutex g_m; static vector<string> g_out;
struct Relay : CommRelayBase { Relay() : CommRelayBase("r") {} void sendResponse(ResponseMessage const *m) override { std::lock_guard<std::mutex> g(g_m); g_out.push_back(m->getName() + "=" + str(m->getValue())); delete m; } };
static string out() { std::lock_guard<std::mutex> g(g_m); string s; for (auto &x : g_out) s += (s.empty() ? "" : " ") + x; return s; }
struct Sim { ResponseManagerMap *map = new ResponseManagerMap; Agenda *agenda = makeAgenda(); Relay relay; std::unique_ptr<Simulator> s; std::thread th;
  bool script(string const &t) { { std::ofstream o("script"); o << t; } std::unique_ptr<SimulatorScriptReader> r(makeScriptReader(map, agenda, makePlexilSimResponseFactory())); return r->readScript("script"); }
  void start() { s.reset(makeSimulator(&relay, map, agenda)); sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM); sigaddset(&m, SIGTERM); pthread_sigmask(SIG_BLOCK, &m, nullptr); th = std::thread([this] { s->simulatorTopLevel(); }); usleep(300000); }
  void stop() { pthread_kill(th.native_handle(), SIGTERM); th.join(); s.reset(); } };
int main() {
%s
  return g_bad ? 1 : 0;
}
'''
SIMSH = lambda t: t.replace('-I$S/xml-parser', '-I$S/apps/StandAloneSimulator -I$S/xml-parser').replace('"$D/demo.cc"', '"$D/demo.cc" ' + ' '.join('$S/apps/StandAloneSimulator/%s.cc' % x for x in ('Simulator', 'Agenda', 'CommandResponseManager', 'TimingService', 'LineInStream', 'ResponseFactory', 'PlexilSimResponseFactory', 'SimulatorScriptReader')))
ST = lambda n, s: '<EQInternal><NodeStateVariable><NodeRef dir=\\"sibling\\">' + n + '</NodeRef></NodeStateVariable><NodeStateValue>' + s + '</NodeStateValue></EQInternal>'
BUGS = [
dict(id='abort-later', prop='C02', needs='a command aborted by its exit condition, and a node that starts as soon as the command is failing',
 breaks='the step does not end when a command has to be aborted: nodes go on before the abort is sent',
 edits=[('src/exec/PlexilExec.cc', '''             && m_commandsToExecute.empty()
             && m_commandsToAbort.empty()
''', '''             && m_commandsToExecute.empty()
''')],
 demo=M % ('''  Demo d; d.world["x"] = Value(false);
  d.load(list("root", "", {command("c", "c", T("ExitCondition", B("x"))), command("d", "d", T("StartCondition", "%s"))})); d.run();
  expect("c", d.state("c"), "FINISHING"); d.log.clear(); d.change("x", Value(true));
  string s; for (auto &l : d.log) s += l + " ";
  expect("order", s, "c:FAILING ABORT c d:EXECUTING CMD d d:FINISHING ");''' % ST('c', 'FAILING'))),
dict(id='all-gone', prop='C17', needs='the only known element of an array set to unknown, and an element set again',
 breaks='the array as a whole becomes unknown, and elements assigned to it are lost',
 edits=[('src/expr/ArrayVariable.cc', '''      m_value->setElementUnknown(idx);
      publishChange();
    }
    // else unchanged
  }

  void ArrayVariableImpl<String>''', '''      m_value->setElementUnknown(idx);
      if (!m_value->anyElementsKnown())
        m_known = false; // nothing left in it
      publishChange();
    }
    // else unchanged
  }

  void ArrayVariableImpl<String>''')],
 demo=M % '''  Demo d; d.world["v"] = Value((Integer)7); d.world["n"] = Value((Integer)0);
  auto set = [](string const &id, int at) { return node("Assignment", id, T("StartCondition", T("EQNumeric", B("n") + I(at))) + T("NodeBody", T("Assignment", "<ArrayElement><Name>a</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement>" + T("NumericRHS", NOW("v"))))); };
  d.load(list("root", T("VariableDeclarations", "<DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray>"), {set("s1", 1), set("s2", 2), set("s3", 3), set("s4", 4)})); d.run();
  d.change("n", Value((Integer)1)); expect("set", d.var("root", "a"), "#(UNKNOWN 7 UNKNOWN)");
  d.world["v"] = Value(); d.set("v", Value()); d.change("n", Value((Integer)2)); expect("cleared", d.var("root", "a"), "#(UNKNOWN UNKNOWN UNKNOWN)");
  d.world["v"] = Value((Integer)9); d.set("v", Value((Integer)9)); d.change("n", Value((Integer)3)); expect("set again", d.var("root", "a"), "#(UNKNOWN 9 UNKNOWN)");'''),
dict(id='gap-index', prop='C34', needs='a command with a default response and one for a later call only',
 breaks='calls answered by the default are not counted, so that the response for a later call never comes',
 edits=[('src/apps/StandAloneSimulator/CommandResponseManager.cc', '''               " for " << m_Identifier << ": Using response for index " << m_Counter);
      respBase = iter->second.get();
    }''', '''               " for " << m_Identifier << ": Using response for index " << m_Counter);
      respBase = iter->second.get();
      ++m_Counter; // this one is used up
    }'''), ('src/apps/StandAloneSimulator/CommandResponseManager.cc', '''             " " << m_Identifier << ", count: " << m_Counter);
    ++m_Counter;
''', '''             " " << m_Identifier << ", count: " << m_Counter);
''')],
 sh=SIMSH, demo=SIMH % '''  Sim m; expect("script", m.script("Integer Command c\\nc 0 1 0\\n5\\nc 3 1 0\\n7\\n"), 1); m.start();
  for (int i = 1; i <= 4; ++i) { m.s->scheduleResponseForCommand("c", nullptr); usleep(100000); }
  expect("responses", out(), "c=5 c=5 c=7 c=5"); m.stop();'''),
dict(id='oldest-first', prop='C34', needs='a telemetry value which has been sent before, followed by another, and a lookup',
 breaks='a lookup is answered with the first telemetry value instead of the last',
 edits=[('src/apps/StandAloneSimulator/Simulator.cc', '''        m_LookupNowValueMap[resp->getName()] = resp->getValue();''', '''        m_LookupNowValueMap.emplace(resp->getName(), resp->getValue());''')],
 sh=SIMSH, demo=SIMH % '''  Sim m; expect("script", m.script("Integer Lookup x\\nx 0\\n1\\nx 1\\n2\\n"), 1); m.start();
  auto look = [&] { std::unique_ptr<ResponseMessage> r(m.s->getLookupNowResponse("x", nullptr)); return r ? str(r->getValue()) : string("none"); };
  expect("x", look(), "1"); usleep(1200000); expect("x", look(), "2"); m.stop();'''),
]
