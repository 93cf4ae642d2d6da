"""Which checker families decide which property."""
COMMON_ASSUMPTIONS = [
  'the code under test is compiled by gcc -O1 for x86-64 with the configuration of /opt/vp/build-cpp.sh (threads on)',
  'the exploration is exhaustive only within the stated alphabet and bounds of each family (see DESIGN.md)',
]
EXEC_RULE = ('each case is one complete history of environment events driven through the real PlexilExec in lock step with the reference model; '
             'distinct counts the different node transitions (family, node, states, outcome, failure) that were observed and agreed')
def exec_(fams, **k): return dict(bin='execmc', families=fams, **k)
EXPR_RULE = ('each case is one expression, made by the plan loader from XML, with one assignment of its operands (or one walk over all assignments and all '
             'single-operand changes), every way of reading it compared with an independent evaluation; distinct counts expression/result pairs')
def expr_(fams, **k): return dict(bin='exprmc', families=fams, **k)
def app_(fams, **k): return dict(bin='appmc', families=fams, **k)
def sched_(fams, **k): return dict(bin='schedmc', families=fams, variant='sched', **k)
def time_(fams, **k): return dict(bin='timemc', families=fams, variant='sched', **k)
def val_(fams, **k): return dict(bin='valmc', families=fams, **k)
def parse_(fams, **k): return dict(bin='parsemc', families=fams, **k)
def life_(fams, **k): return dict(bin='lifemc', families=fams, **k)
def test_(fams, **k): return dict(bin='testmc', families=fams, **k)
def sim_(fams, **k): return dict(bin='simmc', families=fams, variant='sched', **k)
def luv_(fams, **k): return dict(bin='luvmc', families=fams, **k)
def pst_(fams, **k): return dict(bin='pstmc', families=fams, **k)
def plc_(fams, **k): return dict(bin='plcmc', families=fams, **k)
def udp_(fams, **k): return dict(bin='udpmc', families=fams, **k)
LUV_RULE = 'each case is one history of a plan, one text, one configuration, or one placement of faults on the calls of the connection, run in a real application with the real listener and a viewer in memory; every message received is parsed as XML and compared with what a second listener saw; distinct counts executions, texts and stream lengths'
PLC_RULE = 'each case is one plan given to the real compiler (run again and again in a virtual machine per process; a mismatch is confirmed by running the program by itself), its exit status and its document compared with the document the plan was built together with, expressions by their values under all small assignments; up to 25 expressions share a plan and count as evaluations; distinct counts plans'
PST_RULE = 'each case is one script given to the real translator (run again and again in a virtual machine per process; a mismatch is confirmed by running the program by itself), its exit status and its XML compared with an independent translator; distinct counts scripts'
SIM_RULE = 'each case is one script (or two) read by the real script reader and compared with a model of the entries; or one sequence of commands, lookups and passing time on the real simulator under a virtual clock, every response sent compared with the instants the script allows; or one schedule of the timer thread and the calling thread, with a data race detector; distinct counts scripts and event orders'
TEST_RULE = 'each case is one run of the whole test executive (or universalExec) on one plan and script or command line; its output and its end are compared with a model of the script; distinct counts runs'
UDP_RULE = 'each case is one message definition with one list of values encoded, sent through the real adapter over a substituted network, and decoded; or one datagram, configuration or transport fault; or one sequence of commands, aborts and datagrams (or event loop operations), each command\'s answers compared with an abstract first-to-first pairing; or one schedule of receiving and waiting threads'
PARSE_RULE = 'each case is one plan document: every single change of a corpus of documents, every pair of nearby changes, and every document of a grammar of typed rules whose verdict is known; each is loaded by the real parser and either refused with an error or, if accepted, run through the real executive and read back without a crash or failed assertion; distinct counts documents'
VAL_RULE = 'each case is one value, pair or triple of an enumerated universe, compared with an independent model of the values; distinct counts values or pairs'
SCHED_RULE = 'each case is one complete schedule of the real application threads of a scenario, run by a scheduler that owns every synchronisation operation, up to a preemption bound (or, family QS, one sequence of queue operations); deadlocks, data races and the scenario\'s own assertions are judged; distinct counts the different event orders observed'
TIME_RULE = 'each case is one sequence of operations on a real time base (both kinds), or one plan set with advances, early wake-ups, suspensions and requests on the real application, on a virtual clock, or one schedule of the timer thread against the others; every wake-up and node start is compared with the instants a timed model allows; distinct counts the different event orders observed'
LOOK_RULE = 'each case is one sequence of activations, reports, handler answers, name, argument and tolerance changes and steps over a few lookups made by the loader; after each operation every lookup\'s readings, its listener, the queries made and the thresholds in force are compared with an abstract state cache; distinct counts sequences'
LAUNCH_RULE = 'each case is one sequence of StartPlan, ExitPlan and endings of plans, one pair of parameter values, or one argument list, run by plans on a real application; command handles, return values, the arguments the started plans used and the status lookups are compared with a model after each operation; distinct counts sequences, pairs or lists'
MSG_RULE = 'each case is one sequence of receptions, accepted and released messages, with every message lookup read after each step and compared with an abstract queue and table of handles; or one argument list; or one schedule of receiving threads against the executive, with a data race detector; distinct counts sequences, argument lists and event orders'
JOBS = {
  'C01': dict(jobs=[exec_('F1')], rule=EXEC_RULE),
  'C02': dict(jobs=[exec_('F2single,F2double,F2nest,F2ring')], rule=EXEC_RULE),
  'C03': dict(jobs=[exec_('F3,F3index,F3chain')], rule=EXEC_RULE),
  'C04': dict(jobs=[exec_('F4,F4nest,F4queue,F4global')], rule=EXEC_RULE),
  'C05': dict(jobs=[exec_('F5')], rule=EXEC_RULE),
  'C06': dict(jobs=[exec_('F6,F6cross')], rule=EXEC_RULE),
  'C07': dict(jobs=[exec_('F7,F7two')], rule=EXEC_RULE),
  'C08': dict(jobs=[expr_('LK'), expr_('LK', variant='asan', thorough_only=True)], rule=LOOK_RULE),
  'C09': dict(jobs=[expr_('LT'), expr_('LT', variant='asan', thorough_only=True)], rule=LOOK_RULE),
  'C10': dict(jobs=[exec_('F8,F8two,F8arr,F8typ')], rule=EXEC_RULE),
  'C11': dict(jobs=[exec_('F9,F9vars')], rule=EXEC_RULE),
  'C12': dict(jobs=[exec_('F10,F10three'), exec_('F10', variant='asan')], rule=EXEC_RULE),
  'C13': dict(jobs=[expr_('L1,L2')], rule=EXPR_RULE),
  'C14': dict(jobs=[expr_('A')], rule=EXPR_RULE),
  'C15': dict(jobs=[expr_('Q')], rule=EXPR_RULE),
  'C16': dict(jobs=[expr_('EN')], rule='breadth-first search over the model states (activation counts, listeners, variable values) of every pair of expressions sharing variables; each transition is replayed on a fresh plan and every reading and notification compared'),
  'C17': dict(jobs=[expr_('EV')], rule='every sequence of array and element operations up to the depth, on a fresh plan, with eight observing expressions compared after each operation'),
  'C19': dict(jobs=[val_('VE,VS')], rule=VAL_RULE),
  'C20': dict(jobs=[val_('SE,PP'), val_('SE', variant='asan', thorough_only=True)], rule=VAL_RULE),
  'C21': dict(jobs=[val_('CT'), val_('CT', variant='asan', thorough_only=True)], rule='every sequence of enabled operations up to the depth over a small element set, and every operation from every abstract state of a larger one, on the real container in lock step with the abstract one'),
  'C22': dict(jobs=[val_('TM')], rule=VAL_RULE),
  'C26': dict(jobs=[app_('HD'), app_('HD', variant='asan', thorough_only=True)], rule='each case is one sequence of registrations around one initialisation of a real application; after every registration each kind of request is made for six names and compared with an override map; distinct counts request/outcome pairs'),
  'C27': dict(jobs=[app_('CS,LF,LS'), life_('LA'), app_('CS,LF', variant='asan', thorough_only=True)], rule='each case is one listener hub with configured listeners fed one sequence of events, each listener\'s record compared with the events its filter accepts (or one list text split); distinct counts filter/record pairs'),
  'C23': dict(technique='exhaustive schedule exploration of the real code (controlled scheduler) and exhaustive operation sequences', note='Every schedule of the real queue up to the preemption bound is executed, with a vector-clock data race detector; plus every operation sequence up to the depth.',
              jobs=[app_('QS'), sched_('Q')], rule=SCHED_RULE),
  'C24': dict(technique='exhaustive schedule exploration of the real code (controlled scheduler, preemption bounded)', note='Every schedule of the scenarios up to the preemption bound is executed on the real application, with deadlock, lost-wakeup and data race detection.',
              jobs=[sched_('S')], rule=SCHED_RULE),
  'C25': dict(technique='exhaustive operation sequences under a virtual clock and exhaustive schedule exploration of the real code', note='The real time bases and the real application run on a virtual clock; every operation sequence up to the depth and every schedule up to the preemption bound is executed.',
              jobs=[time_('TB,TA,TS')], rule=TIME_RULE),
  'C28': dict(jobs=[udp_('UR,UL', variant='asan'), sched_('MQ'), udp_('UR,UL', thorough_only=True)], technique='exhaustive operation sequences and exhaustive schedule exploration of the real code', rule=UDP_RULE),
  'C29': dict(jobs=[udp_('UE,UW,UX,UC,UT', variant='asan')], technique='exhaustive enumeration of inputs and fault points on the real code', rule=UDP_RULE),
  'C30': dict(jobs=[life_('LN,LP,LE'), life_('LN,LP', variant='asan', thorough_only=True)], rule=LAUNCH_RULE),
  'C32': dict(jobs=[life_('MS,MA'), sched_('MT'), life_('MS,MA', variant='asan', thorough_only=True)], technique='exhaustive operation sequences and exhaustive schedule exploration of the real code', rule=MSG_RULE),
  'C33': dict(jobs=[test_('TV,TP,TA,TU,TD,TX,TC,TH,TS,TR,TW,TE,UR,UW')], rule=TEST_RULE),
  'C34': dict(jobs=[sim_('SP,ST,SS')], technique='exhaustive operation sequences and exhaustive schedule exploration of the real code', rule=SIM_RULE),
  'C35': dict(jobs=[luv_('LT,LV,LF'), luv_('LC,LF', variant='asan'), luv_('LV', variant='asan', thorough_only=True)], technique='exhaustive operation sequences and fault placements on the real code', rule=LUV_RULE),
  'C36': dict(jobs=[pst_('PG,PS,PL,PX')], technique='bounded exhaustive enumeration of scripts run on the real translator in lock step with a reference translator', rule=PST_RULE),
  'C37': dict(jobs=[plc_('CA,CE,CL,CN,CS,CR,CT,CV,CX')], technique='bounded exhaustive enumeration of plans built side by side with their expected documents and compiled by the real compiler', rule=PLC_RULE),
  'C31': dict(jobs=[parse_('MU,RU', variant='asan'), parse_('MU2')], rule=PARSE_RULE),
  'C18': dict(jobs=[expr_('K')], rule=EXPR_RULE),
}
NOT_APPLICABLE = {}
