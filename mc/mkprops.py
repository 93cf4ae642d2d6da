#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept here as readable source)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','Every node follows its type\'s documented state-transition diagram',
 'Whatever the values (true, false, unknown) of its own and its ancestors\' skip, start, pre, exit, invariant, end, post and repeat conditions, a node of each type (list, empty, command, assignment, update, library call) makes exactly the transition, and records exactly the outcome and failure type, that the published PLEXIL state diagrams prescribe for that type and state. When several conditions enable different transitions at once, the documented precedence decides.',
 ['inputs','histories'],'all combinations of three-valued conditions relevant in each state, for every node type, reached along every bounded history of condition changes, acknowledgements and aborts',
 'The exec regression plans walk one scripted path per plan; the module tests sample a few transitions per state. The decision table has thousands of (state, condition valuation) rows per type.',
 ['src/exec/NodeImpl.cc','src/exec/ListNode.cc','src/exec/CommandNode.cc','src/exec/AssignmentNode.cc','src/exec/UpdateNode.cc','src/exec/LibraryCallNode.cc'],
 [('per-state destination functions','src/exec/NodeImpl.cc getDestStateFrom*'),('type specific overrides','src/exec/{Command,Assignment,Update,List,LibraryCall}Node.cc')],
 ['execution listener transition reports','plan node state/outcome/failure variables'])
p('C02','Plan execution is the synchronous PLEXIL semantics, with no missed transition',
 'For every plan and every sequence of environment events, the sequence of transition sets, assignments and dispatched actions is the one prescribed by the PLEXIL micro/macro step semantics: in each micro step all nodes whose enabled transitions follow from the state at its start move together, and a step ends only when nothing more can move until outside input or a pending side effect is performed. In particular no enabled transition is ever missed or delayed, none happens spuriously, and nodes that do not depend on each other may be listed in any order without changing the result.',
 ['programs','histories'],'all plans of a bounded grammar of node trees whose conditions refer to other nodes, variables and lookups, and all bounded sequences of environment events for each',
 'The tests run a few dozen hand-written plans with one script each; missed wake-ups depend on which conditions happen to be active and change in which order.',
 ['src/exec/PlexilExec.cc','src/exec/NodeImpl.cc','src/exec/ListNode.cc','src/exec/NodeOperators.cc','src/expr/Notifier.cc','src/utils/LinkedQueue.hh'],
 [('candidate queue and quiescence loop','src/exec/PlexilExec.cc step()'),('condition change notification','src/exec/NodeImpl.cc notifyChanged, condition activation')],
 ['execution listener','planner requests seen by a dispatcher'])
p('C03','Assignments are simultaneous, conflict-free and undone when they fail',
 'At most one assignment to a given variable is in progress at a time; competing assignments are admitted by priority, the others wait and are not lost. An assignment takes the value its right-hand side has when the node starts executing, the variable (or array element) changes only at the end of that step, and if the node is aborted before it finishes the variable gets back exactly the value, including unknown, that it had before.',
 ['programs','histories'],'all bounded sets of competing assignment nodes with all priority orders, start/exit/invariant/end timings and variable types',
 'Conflict handling depends on which nodes become eligible in the same step and in what order; the regression plans contain two or three fixed conflicts.',
 ['src/exec/AssignmentNode.cc','src/exec/Assignment.cc','src/exec/PlexilExec.cc','src/expr/UserVariable.cc','src/expr/ArrayVariable.cc','src/expr/ArrayReference.cc'],
 [('variable reservation','src/exec/PlexilExec.cc resolveResourceConflicts'),('execute / retract','src/exec/Assignment.cc')],
 ['variable values and assignment notifications','node states'])
p('C04','Mutexes exclude, are never leaked, and waiting nodes are admitted in order',
 'No two nodes that both use a mutex are ever executing it at the same time: a mutex is held by at most one node from the moment it starts executing until it leaves execution, however it leaves (normal end, failure, exit, parent failure). A node is admitted only when every mutex and variable it needs is free, the best-priority earliest waiter first, and a waiting node whose mutexes are free and which still wants to start is not left waiting forever.',
 ['programs','histories'],'all bounded sets of nodes with overlapping mutex sets and priorities, under every bounded sequence of starts, ends, exits, invariant failures and withdrawn start conditions',
 'Lost wake-ups and leaked locks need a particular multi-step order of waiters; the tests have a handful of fixed mutex plans.',
 ['src/exec/Mutex.cc','src/exec/PlexilExec.cc','src/exec/NodeImpl.cc'],
 [('acquire/release and waiter re-check','src/exec/PlexilExec.cc resourceCheckEligible, resolveResourceConflicts'),('release on leaving execution','src/exec/NodeImpl.cc transitionFrom*/transitionToFinished')],
 ['node transitions reported to the listener'])
p('C05','Command resource arbitration never oversubscribes and rejects only when needed',
 'Of the commands competing in a step, those accepted are exactly the ones obtained by considering them in priority order (ties in request order) and admitting each whose needs, including those of subordinate resources in the hierarchy, still fit within the capacity given both earlier admissions and commands still holding resources; all others are reported as denied. Resources are returned when the command node finishes (or at command termination where the plan says so), renewable amounts never exceed capacity, and the books balance after any history.',
 ['inputs','histories'],'all bounded sequences of command batches with enumerated resource lists, bounds, priorities, hierarchy files, release options, and releases',
 'The arbiter test loads a few hierarchy files and checks parsing; admission decisions over histories of allocate/release are unbounded.',
 ['src/intfc/ResourceArbiterInterface.cc','src/intfc/CommandImpl.cc','src/exec/PlexilExec.cc'],
 [('arbitration','src/intfc/ResourceArbiterInterface.cc arbitrateCommands'),('release','src/intfc/CommandImpl.cc')],
 ['which commands are executed and which reported denied'])
p('C06','Command nodes honour the handle, return-value and abort protocol',
 'A started command is sent to its handler exactly once with the argument values in force when the node started; its handle value and return value become visible to the plan as reported; and the node finishes only when its handle is known and its end condition (or a failure-type handle) says so. A command is aborted exactly once, when its node fails or is exited while executing, and the node then waits for the abort acknowledgement; late or repeated reports for a command that is not active have no effect.',
 ['histories','fault_sequences'],'all bounded interleavings of node events with handle reports, return values and abort acknowledgements, including late, duplicate and missing ones',
 'The scripted tests answer each command once in the expected order.',
 ['src/exec/CommandNode.cc','src/intfc/CommandImpl.cc','src/intfc/CommandHandleVariable.cc','src/exec/PlexilExec.cc'],
 [('command life cycle','src/intfc/CommandImpl.cc activate, execute, abort'),('node actions','src/exec/CommandNode.cc')],
 ['dispatcher calls','command handle variable','destination variable'])
p('C07','Update nodes send their pairs once and wait for acknowledgement',
 'An update node sends exactly one update, holding each named value as evaluated when the node started, and completes (or, if failing, finishes failing) only after that update is acknowledged. An acknowledgement for an inactive update has no effect.',
 ['histories','fault_sequences'],'all bounded interleavings of update acknowledgements with node condition changes and repeats',
 'Tests acknowledge immediately.',
 ['src/exec/UpdateNode.cc','src/exec/UpdateImpl.hh','src/exec/PlexilExec.cc'],
 [('update life cycle','src/exec/UpdateNode.cc'),('acknowledge','src/exec/UpdateImpl.hh')],['dispatcher calls','node transitions'])
p('C08','Lookups always show the newest reported value of the right state',
 'While a lookup is active, its value is the most recent value reported for exactly the state (name and argument values) it currently denotes, following changes of the name or arguments; a state never reported, or reported unknown, is unknown. A lookup whose state has no value for the current step is queried from its handler at most once per step, and values of other states never leak in.',
 ['histories'],'all bounded sequences of activate, deactivate, argument change, value report (typed and unknown), step advance over several lookups and states',
 'Unit tests drive one lookup through one fixed sequence.',
 ['src/intfc/Lookup.cc','src/intfc/StateCacheEntry.cc','src/intfc/StateCache.cc','src/intfc/CachedValueImpl.cc'],
 [('state cache','src/intfc/StateCache.cc'),('lookup registration','src/intfc/Lookup.cc')],['lookup expression value','dispatcher lookupNow requests'])
p('C09','Change lookups report exactly the changes beyond their tolerance',
 'A change lookup with tolerance keeps showing its last reported value until the value reported for the state differs from it by at least the tolerance, then shows the new one; with no tolerance it shows every change, and a change between known and unknown is always shown. The thresholds given to the interface enclose exactly the values that no active change lookup with a known tolerance of that state would notice, and they are withdrawn when no active lookup needs them.',
 ['histories'],'all bounded sequences of activation, deactivation, tolerance change and value reports over several lookups of a state, for integer and real values',
 'Unit tests use one lookup, one tolerance and a monotone ramp.',
 ['src/intfc/Lookup.cc','src/intfc/CachedValueImpl.cc','src/intfc/StateCacheEntry.cc'],
 [('threshold cache','src/intfc/Lookup.cc ThresholdCache'),('interface thresholds','src/intfc/StateCacheEntry.cc updateThresholds')],['lookup expression value','dispatcher threshold requests'])
p('C10','Library calls see only their aliases and behave like the inlined plan',
 'A call to a library node executes the library\'s plan with each parameter bound to the caller\'s expression: reads give the caller\'s current value, writes through an in-out parameter change the caller\'s variable, and in-parameters cannot be written. Repeated and multiple calls are independent of each other.',
 ['programs','histories'],'all bounded caller/library pairs over parameter kinds, defaults and nesting, under all bounded event sequences, compared with the inlined plan',
 'Tests contain a few library plans with one run each.',
 ['src/exec/LibraryCallNode.cc','src/exec/NodeVariableMap.cc','src/xml-parser/parseLibraryCall.cc','src/expr/Alias.cc'],
 [('alias map','src/exec/LibraryCallNode.cc'),('parameter binding','src/xml-parser/parseLibraryCall.cc')],['node transitions','variable values'])
p('C11','Node state, outcome, failure and timepoint variables tell the truth',
 'At every step the state, outcome and failure-type variables of a node, as read by plan conditions and as printed, agree with the transitions reported to listeners; a state\'s start and end timepoints give the times of that node\'s most recent entry to and exit from that state in the current activation, unknown before they happened. Outcome and failure are unknown from the moment the node is reset.',
 ['programs','histories'],'all bounded plans with node-variable and timepoint references and all event sequences, with a distinct time per step',
 'Tests look at final states only.',
 ['src/exec/NodeTimepointValue.cc','src/exec/NodeVariables.cc','src/exec/NodeImpl.cc'],
 [('transition logging','src/exec/NodeImpl.cc logTransition'),('timepoints','src/exec/NodeTimepointValue.cc')],['values of node variables','listener reports'])
p('C12','Finished plans are removed completely and leave nothing behind',
 'When the root node of a plan reaches its final state the plan is removed after the step, whatever its children were doing when it ended; afterwards no lookup, mutex, resource or event of that plan influences other plans and no memory of it is used or leaked. Several plans may be added, run concurrently, and finish in any order.',
 ['programs','histories'],'all bounded plans crossed with all moments and ways of ending, several plans in sequence and concurrently',
 'Tests end the process after one plan.',
 ['src/exec/PlexilExec.cc','src/exec/NodeImpl.cc','src/intfc/StateCache.cc'],
 [('plan deletion','src/exec/PlexilExec.cc deleteFinishedPlans'),('cleanup','src/exec/NodeImpl.cc cleanUpNodeBody')],['process memory (AddressSanitizer)','interface subscriptions','node transitions of other plans'])
p('C13','Logical operators implement three-valued (Kleene) logic for any operand count',
 'NOT, AND, OR, XOR and known-ness tests over any number of operands, each true, false or unknown, give the value of three-valued Kleene logic, whichever operand changes and in whatever order. AND is false if any operand is false and OR is true if any is true, even when others are unknown.',
 ['inputs','histories'],'all operand counts up to the bound, all valuations in {true,false,unknown}, all single-change orders',
 'Unit tests enumerate two operands; plans use more.',
 ['src/expr/BooleanOperators.cc','src/expr/Function.cc'],
 [('operators','src/expr/BooleanOperators.cc')],['expression values'])
p('C14','Arithmetic and conversion give the exact result or unknown, never a crash',
 'Every numeric operator (add, subtract, multiply, divide, modulo, min, max, abs, sqrt, rounding and conversion to integer, integer to real) returns the mathematically specified result for in-range operands of any operand count and mix of integer and real, and unknown when an operand is unknown or the result is undefined or does not fit; Real arithmetic follows IEEE-754, where a non-finite result may be given as such or as unknown, and an Integer sum or product one of whose intermediate results does not fit may be unknown. No operand values terminate the process.',
 ['inputs'],'all tuples over a boundary-rich operand set per type, for every operator and arity up to the bound',
 'Unit tests try a few ordinary operands.',
 ['src/expr/ArithmeticOperators.cc','src/expr/ConversionOperators.cc','src/expr/OperatorImpl.cc'],
 [('operators','src/expr/ArithmeticOperators.cc')],['expression values'])
p('C15','Comparisons agree with mathematical order across types and unknowns',
 'Equality and ordering comparisons of any two expressions give the mathematical answer for known operands, comparing integers with reals by value, and unknown if an ordering operand is unknown; equality with an unknown operand is unknown. Comparison of node states, outcomes, failures and command handles is by identity.',
 ['inputs'],'all pairs over a boundary-rich value set for every comparison operator and type combination',
 'Unit tests try a few pairs per type.',
 ['src/expr/Comparisons.cc'],[('operators','src/expr/Comparisons.cc')],['expression values'])
p('C16','Every change that can affect a condition wakes it, in any sharing pattern',
 'An active expression notifies its listeners after any change of a subexpression that can change its value, and its value always equals evaluating the formula on current operand values. Activation and deactivation nest correctly however expressions and listeners are shared, and a variable is re-initialised exactly when it goes from inactive to active.',
 ['histories','programs'],'all operation sequences (activate, deactivate, add/remove listener, set, set unknown) up to the bound over small expression graphs with sharing',
 'Unit tests wire one listener to one expression.',
 ['src/expr/Notifier.cc','src/expr/Propagator.cc','src/expr/Function.cc','src/expr/UserVariable.cc','src/expr/Alias.cc','src/expr/CachedFunction.cc','src/expr/SimpleBooleanVariable.cc'],
 [('activation counting','src/expr/Notifier.cc'),('propagation','src/expr/Propagator.cc')],['expression values','listener callbacks'])
p('C17','Array variables and element references behave like arrays of optional values',
 'An array variable of a given size holds per-element known or unknown values; setting, clearing, copying, saving and restoring the whole or one element affects exactly that, in-range only, and whole-array values are independent copies. An element reference denotes the element selected by the current index value; it is unknown when the index is unknown, and reading it with a negative or too large index is an error or unknown, never a value or a stray memory access.',
 ['histories'],'all operation sequences up to the bound over arrays of each type, sizes 0 to 3 and indices including out of range',
 'Unit tests apply one scripted sequence per type.',
 ['src/expr/ArrayVariable.cc','src/expr/ArrayReference.cc','src/value/ArrayImpl.cc'],
 [('array variable','src/expr/ArrayVariable.cc'),('element reference','src/expr/ArrayReference.cc')],['expression values','listener callbacks'])
p('C18','Array and string operators compute their documented results',
 'Array size, maximum size, all-elements-known and any-element-known, and string concatenation and length return the documented value for every array and operand list, including empty and partly unknown ones, and unknown where an operand is unknown.',
 ['inputs'],'all small arrays of each element type with all known/unknown patterns; all operand tuples over a small string alphabet',
 'Unit tests check one or two arrays.',
 ['src/expr/ArrayOperators.cc','src/expr/StringOperators.cc'],[('operators','src/expr/ArrayOperators.cc, src/expr/StringOperators.cc')],['expression values'])
p('C19','Value, array and state equality and ordering are lawful',
 'Equality of values (real NaN aside) is an equivalence relation with unknowns of one type equal, integers and reals equal by value, and arrays equal exactly when of the same type and size with equal elements (contents of unknown elements do not matter); ordering is a strict weak order consistent with equality for values used as keys. Two states are equal exactly when name and all parameters are, so state keyed tables never merge or lose entries.',
 ['inputs'],'all pairs and triples over an enumerated universe of values of every type and of states',
 'Tests check individual pairs; laws quantify over all pairs and triples.',
 ['src/value/Value.cc','src/value/ArrayImpl.cc','src/value/Array.cc','src/intfc/State.cc'],
 [('value comparison','src/value/Value.cc'),('state comparison','src/intfc/State.cc')],['comparison operators','maps keyed by state'])
p('C20','Values and states survive serialisation, and printing/parsing round trips',
 'Deserialising the serialised form of any value of a plan data type, array or state yields an equal object (an unknown value comes back unknown, without its type) and writes and consumes exactly the announced number of bytes; values without a serial form say so. Printing a value and parsing it as its type yields the same value (reals to the 15 digits printed); malformed or out-of-range literals are rejected with an error.',
 ['inputs'],'all values in an enumerated universe covering each type, boundary sizes and unknowns; all short strings over a literal alphabet for parsing',
 'Tests round-trip one or two values per type.',
 ['src/value/Value.cc','src/value/ArrayImpl.cc','src/value/PlexilTypeTraits.hh','src/value/ValueType.cc','src/intfc/State.cc'],
 [('serialisation','src/value/*.cc serialize/deserialize'),('parsing','src/value/PlexilTypeTraits.hh, ValueType.cc')],['public functions of the value library'])
p('C21','The container classes behave as their abstract queues, maps and sets',
 'After any sequence of operations the intrusive queues, priority queue, simple maps and small set contain exactly the elements that the corresponding abstract container would, in the specified order, with correct size, front and iteration; priority queues are stable among equals.',
 ['histories'],'all operation sequences up to the bound over a small element universe',
 'Tests run one scripted sequence.',
 ['src/utils/LinkedQueue.hh','src/utils/SimpleMap.hh','src/utils/SimpleSet.hh'],[('containers','src/utils')],['container contents'])
p('C22','Time value arithmetic is normalised and exact',
 'Adding, subtracting, comparing and converting second/sub-second time values gives the mathematically exact, normalised result for any sign combination, and comparison agrees with the real-valued order. Round trips between representations lose no more than their resolution.',
 ['inputs'],'all pairs over a boundary grid of seconds and sub-second parts, including negative and carry cases',
 'Tests check a few positive values.',
 ['src/utils/timespec-utils.hh','src/utils/timeval-utils.hh'],[('arithmetic','src/utils/timespec-utils.cc, src/utils/timeval-utils.cc')],['function results'])
p('C23','The input queue delivers every event once, in order, under any interleaving',
 'Under any interleaving of threads adding events and marks with the executive reading them, every event is delivered exactly once, events of one producer in its order, marks in sequence order with none lost, and nothing deadlocks. The delivered content equals what was submitted, including recycled entries.',
 ['schedules'],'all interleavings of two producers and one consumer over bounded operation lists, at lock granularity; all single-thread operation sequences up to a bound',
 'A stress test samples schedules.',
 ['src/app-framework/SerializedInputQueue.cc','src/app-framework/SimpleInputQueue.cc','src/intfc/QueueEntry.cc'],
 [('locking','src/app-framework/SerializedInputQueue.cc')],['dequeued entries'])
p('C24','The application loop never deadlocks, stalls on, or loses work',
 'Under every interleaving of the executive thread with threads that add plans, report values, notify, suspend, resume, stop and shut down, the application never deadlocks, an event or plan delivered while the application is running and not suspended is eventually processed without further prodding, waits return when, and only when, their condition holds and the executive has reacted to what was waited for, listeners are told of a plan before anything that plan does and are never called by two threads at once, no unsynchronised conflicting accesses to shared data occur, and life-cycle calls succeed or fail according to the documented state machine.',
 ['schedules'],'all thread interleavings of small client scripts at synchronisation-operation granularity up to a preemption bound',
 'Tests run the threaded application under whatever schedule the OS picks.',
 ['src/app-framework/ExecApplication.cc','src/app-framework/InterfaceManager.cc','src/app-framework/SerializedInputQueue.cc','src/utils/ThreadSemaphore.cc'],
 [('worker loop','src/app-framework/ExecApplication.cc'),('queue processing','src/app-framework/InterfaceManager.cc processQueue')],['application state','plan progress','thread termination'])
p('C25','Timed wake-ups are delivered no earlier than asked and are never lost',
 'For every sequence of deadline settings and clock advances, a time base delivers a wake-up once the clock reaches the deadline wanted, not before, and a deadline already in the past is delivered at once; in tick mode it wakes once per tick. Stopping or destroying the time base cancels pending wake-ups (none is delivered afterwards), and restarting works. A plan waiting for an instant by a lookup of time proceeds at that instant (at the latest within the tolerance it asked for), neither earlier nor never, also when the timer goes off early, the application is suspended and resumed, other nodes wait for other instants, or the timer goes off while other threads act.',
 ['histories','fault_sequences'],'all bounded sequences of set-deadline, tick mode, clock advance, timer expiry, stop and start under a simulated clock; all small timed plans with all bounded sequences of advances, early wake-ups, suspensions and requests; all schedules of the timer thread against the others up to a preemption bound',
 'Tests would need real time; existing ones check nothing of this.',
 ['src/app-framework/Timebase.cc','src/app-framework/PosixTimebase.cc','src/app-framework/ItimerTimebase.cc','src/app-framework/TimeAdapter.cc'],
 [('timer programming','src/app-framework/PosixTimebase.cc, ItimerTimebase.cc')],['wake-up callbacks','timer system calls'])
p('C26','Commands and lookups reach the registered handler, else the right default',
 'Each command, lookup and planner update is delivered to the handler registered for exactly that name, otherwise to the default handler of its kind; without either, a command and its abort are acknowledged as successful, a lookup gets no value, and an update is acknowledged. The latest registration for a name overrides earlier ones, from code and from the configuration (adapters register in the order they are listed), and affects no other name or kind. A handler that raises an interface error makes its command report an interface error, its abort fail and its lookup unknown; a command refused by arbitration is reported denied.',
 ['histories','configurations'],'all bounded sequences of registrations (by name, default, per interface) followed by every request kind',
 'Tests register one handler.',
 ['src/app-framework/AdapterConfiguration.cc','src/app-framework/InterfaceManager.cc','src/app-framework/CommandHandler.hh','src/app-framework/LookupHandler.hh'],
 [('handler maps','src/app-framework/AdapterConfiguration.cc')],['handler invocations'])
p('C27','Listeners see every event their filter accepts, once and in order',
 'Every node transition, assignment and plan or library addition is reported exactly once, in order of occurrence within its kind, at the latest when its step completes, to every registered listener whose filter accepts it and to no other. A node state filter passes exactly the transitions from or to a listed state (States), or from or to a state not listed (IgnoredStates), however the list is spaced. Adding more listeners never changes what others see.',
 ['histories','configurations'],'all subsets of states as States and IgnoredStates, in four list layouts, against all pairs of states; all event sequences up to a bound against all combinations of up to three filtered listeners; all comma separated lists up to a bound',
 'No test exercises the filters.',
 ['src/app-framework/ExecListenerHub.cc','src/app-framework/ExecListener.cc','src/app-framework/ListenerFilters.cc'],
 [('broadcast','src/app-framework/ExecListenerHub.cc'),('filters','src/app-framework/ListenerFilters.cc'),('configuration lists','src/app-framework/InterfaceSchema.cc')],['listener callbacks'])
p('C28','Every UDP message reaches exactly one waiting command, with its own parameters',
 'Messages received over UDP are paired first to first with the commands waiting for them: every complete datagram satisfies exactly one ReceiveCommand, the parameters read through its handle are those of that datagram, commands which failed or were aborted receive nothing, incomplete datagrams are ignored, and no message is lost, duplicated or given twice whatever the order of commands, aborts and datagrams and whichever threads they come from. Listeners may be opened, closed and stopped in any order without leaking sockets, crashing or closing what is not theirs.',
 ['schedule','history','inputs'],'all sequences of commands, aborts and datagrams up to the depth; all event loop operation sequences; all interleavings of receiving and waiting threads up to the preemption bound',
 'The only test sends one message to itself.',
 ['src/interfaces/UdpAdapter/UdpAdapter.cc','src/interfaces/UdpAdapter/MessageQueueMap.cc','src/interfaces/UdpAdapter/UdpEventLoop.cc'],[('pairing','src/interfaces/UdpAdapter/MessageQueueMap.cc'),('event loop','src/interfaces/UdpAdapter/UdpEventLoop.cc')],['command returns','open sockets'])
p('C29','UDP message encoding round-trips within the buffer, big-endian',
 'Encoding any list of values into a message of any field layout and decoding it gives the values back; encoded bytes are in network order at the specified offsets, and neither direction reads or writes outside the message buffer. Arguments that do not fit their field are refused, datagrams that are too short are ignored, a message is acknowledged as sent exactly when it was, and every socket opened is closed.',
 ['inputs'],'all field layouts up to the bound crossed with boundary values',
 'The test encodes one message.',
 ['src/interfaces/UdpAdapter/udp-utils.cc','src/interfaces/UdpAdapter/UdpAdapter.cc'],[('encoding','src/interfaces/UdpAdapter/udp-utils.cc')],['buffer contents'])
p('C30','Plans started by a plan run with exactly the values given, and report truly',
 'StartPlan runs the named library plan once, with exactly the parameter values given (any type, any value a literal can express) and its own defaults for the others, and returns a name no other running plan has. PlanState, PlanOutcome and PlanFailureType of a name are unknown until that plan has entered such a state, and then those of its last transition. ExitPlan makes exactly the named plan exit. A malformed or impossible request is reported COMMAND_FAILED, starts nothing and leaves other plans alone.',
 ['history','inputs'],'all sequences of starts, exits, endings and repeats of plans up to a depth; all pairs of parameter values of a boundary universe; all argument lists up to a length',
 'No test runs the launcher.',
 ['src/app-framework/Launcher.cc','src/interfaces/Launcher/README','src/xml-parser/parseLibraryCall.cc'],
 [('wrapper plans','src/app-framework/Launcher.cc'),('reports','src/app-framework/Launcher.cc')],['command handles','command return values','arguments of commands of the started plan','lookups'])
p('C31','The plan loader rejects malformed plans and never crashes on them',
 'Any XML document given as a plan or library either yields a runnable plan or is rejected with a reported error; no document crashes the loader, corrupts memory, or leaves it unable to load a valid plan next. Rules that the loader enforces, such as references to undeclared names, wrong operand types, duplicate declarations and missing required elements, are enforced wherever the construct appears.',
 ['inputs','programs'],'all single and pairwise structural mutations (delete, duplicate, rename, retype, swap an element or its text) of a corpus of plans that together use every construct',
 'Parser tests hold a fixed list of malformed inputs.',
 ['src/xml-parser/parsePlan.cc','src/xml-parser/parseNode.cc','src/xml-parser/ExpressionFactory.cc','src/xml-parser/planLibrary.cc'],
 [('checking pass','src/xml-parser/parseNode.cc'),('construction pass','src/xml-parser/*.cc')],['parse result or exception'])
p('C32','Every message received from another agent is given to plans once, in order',
 'Messages received by the message adapter are queued and handed to plans first to first: each GetMessageHandle takes the oldest message (unknown if there is none) and returns a handle no other message has. HaveMessage and the Peek lookups always describe the queue, from the start. The text, sender, arrival, parameter count and parameters looked up through a handle are those of its message until the handle is released, and unknown afterwards, also for lookups that are being watched. Wrong arguments of the message commands are refused. No message is lost, duplicated or reordered, whichever threads receive messages.',
 ['schedule','history','inputs'],'all sequences of receptions, accepts, releases and watches up to a depth; all argument lists up to a length; all interleavings of receiving threads and the executive up to the preemption bound',
 'No test uses messages.',
 ['src/app-framework/MessageAdapter.cc','src/app-framework/Messaging.md','src/app-framework/InterfaceManager.cc','src/intfc/StateCache.cc'],
 [('queue of messages','src/app-framework/MessageAdapter.cc'),('handles','src/intfc/StateCache.cc')],['lookups','command handles and return values'])
p('C33','Test executive: scripts are played as written; command lines end truthfully',
 'A script run by the test executive gives the plan exactly the states, command acknowledgements, results, abort and update acknowledgements and plans it lists, in order, with every value and parameter of every type as written, unknown included; events grouped as Simultaneous take effect together, every other one before the next. A script element that answers nothing the plan has asked, or is malformed, is reported and what follows is not played. The print commands write exactly their arguments. A command line that is wrong, or names a plan, script or library that is missing, malformed or refused, ends with an error code and runs nothing; any other runs the plan to its end and exits with 0. The same holds for the command line of universalExec, which runs with a default configuration when it has none.',
 ['history','inputs'],'all sequences of script events up to a depth with every grouping; all values, arrays and parameters of a boundary universe in every position; all combinations of good and faulty files and options',
 'The regression scripts only show that certain plans finish.',
 ['src/apps/TestExec/TestExternalInterface.cc','src/apps/TestExec/exec-test-runner.cc','src/universal-exec/UniversalExec.cc','src/exec/plan-utils.cc','schema/plexil-script.rnc'],
 [('script player','src/apps/TestExec/TestExternalInterface.cc'),('command line','src/apps/TestExec/exec-test-runner.cc')],['standard output','exit code'])
p('C34','Stand-alone simulator: each scripted answer is sent once, in order, at its time',
 'A simulator script read by the stand-alone simulator yields exactly the telemetry and command responses it lists, with their times, occurrences and values of the declared type (real numbers in scripts of the old kinds); comments and blank lines change nothing, several scripts add up, the first response for an occurrence counts; an undeclared or doubly declared name is refused. While the simulator runs, each telemetry value is sent at its time after the start, and the n-th call of a command is answered once, its delay after the call, by the response for that occurrence or else the default, or not at all if there is neither or the script says no response. Nothing is sent early, twice or without cause, responses go out in the order of their times (of scheduling when equal), and a lookup is answered by the value sent last. This holds whatever the clock reads and whichever thread the commands and lookups come from.',
 ['schedule','history','inputs'],'all scripts of an alphabet of entries up to a length; all sequences of commands, lookups and passing time up to a depth on a virtual clock; all interleavings of the timer thread and the thread of the calls up to the preemption bound',
 'No test runs the simulator.',
 ['src/apps/StandAloneSimulator/Simulator.cc','src/apps/StandAloneSimulator/Agenda.cc','src/apps/StandAloneSimulator/TimingService.cc','src/apps/StandAloneSimulator/CommandResponseManager.cc','src/apps/StandAloneSimulator/SimulatorScriptReader.cc','src/apps/StandAloneSimulator/LineInStream.cc','src/apps/StandAloneSimulator/README.md'],
 [('timed responses','src/apps/StandAloneSimulator/Simulator.cc'),('script reader','src/apps/StandAloneSimulator/SimulatorScriptReader.cc')],['responses given to the communication relay','time of each response'])
p('C35','Plan viewer: the stream tells the execution truthfully and cannot disturb it',
 'A plan viewer connected to the viewer listener receives, one well-formed XML message after the other and each ended by the end-of-message character: every plan and library as added, preceded by the plan information; every node transition with the new state, outcome, failure type, the value of every condition and the path of the node; and every assignment with its name and value - nothing else, in the order in which they happen, whatever characters names and values contain. A blocking viewer acknowledges each message before the next is sent; a viewer which does not block is never waited for. Whether the viewer is there, is refused, closes its connection or breaks at any point, and whether calls on the connection are interrupted or take only part of a message, the execution is the same as without a viewer, and a viewer that stays gets the whole stream. Host, port, blocking and the treatment of a failed connection follow the configuration.',
 ['history','fault','inputs'],'all sequences of events on a plan with every kind of message up to a depth; all texts of special characters up to a length in values and names; every single fault and pair of faults at the calls on the connection; all combinations of configuration attributes',
 'No test runs the viewer listener.',
 ['src/interfaces/LuvListener/LuvListener.cc','src/interfaces/LuvListener/LuvFormat.cc','src/interfaces/Sockets/Socket.cpp','src/interfaces/Sockets/ClientSocket.cpp','viewers/pv/src/gov/nasa/luv/LuvSocketServer.java'],
 [('message format','src/interfaces/LuvListener/LuvFormat.cc'),('connection','src/interfaces/LuvListener/LuvListener.cc')],['bytes received by the viewer','node transitions'])
p('C36','Plexilscript: each script is translated into exactly what it says, or refused',
 'The Plexilscript translator turns every script into one well-formed XML document with the initial state and the script, and in them, in the order and grouping written, one element for each statement of the kind written: states, update acknowledgements, commands, aborts, function calls, acknowledgements (the short forms standing for the command handle they name), delays and simultaneous groups, each with its name and type, every parameter with its type and value and every result, in order; text between quotation marks comes through character by character whatever it contains, and <unknown> as the unknown value. White space and comments between the words change nothing. A script which breaks the grammar anywhere - a word missing, doubled, misplaced or misspelt, a bracket or quotation mark not closed, text after the end - is refused with a message and a failing exit status; no part of it is dropped or made up in silence.',
 ['inputs'],'all statements of each kind with all pairs of parameters and results of a universe of values and types; all sequences of statements up to a length in every kind of group; all placements of white space and comments; all edits of a token or character and pairs of nearby edits of a corpus of scripts, all token sequences up to a length',
 'Only the scripts of the regression tests are translated, and nothing compares the result.',
 ['compilers/plexilscript/antlr/plexilscript.g','compilers/plexilscript/java/plexilscript/CommandAST.java','compilers/plexilscript/java/plexilscript/PlexilScriptParse.java','schema/plexil-script.rnc'],
 [('grammar','compilers/plexilscript/antlr/plexilscript.g'),('XML output','compilers/plexilscript/java/plexilscript/CommandAST.java')],['standard output','error output','exit status'])
p('C37','PLEXIL compiler: each plan becomes exactly the document it says, or is refused',
 'The PLEXIL compiler turns every plan into a document with the same meaning: each declaration, node, attribute, condition, statement (if, while, do, for, Wait, SynchronousCommand, OnCommand, OnMessage, Update, LibraryCall, Sequence, Try, Concurrence and the other blocks), command, resource and lookup of the source stands in it, of the kind written, in the order and nesting written, with its name, type, arguments and values, and nothing else does. Every expression in the document has the value of the one written, whatever the spelling, brackets, precedence and associativity, for every value of its variables, and simplifications change no value and no type. Literals in every notation keep their value; strings keep their characters. A plan with a syntax error or a character that belongs to no word, one whose expression, argument, alias or initial value does not fit its type, that calls something with too few or too many arguments, or that refers to a variable, node or mutex which is not declared, is refused with a message and a failing exit status, and no part of it is dropped in silence; the compiler never ends with an internal error and a success status.',
 ['inputs'],'all expressions of two operators (up to three) over typed leaves in every spelling and bracketing; all literal notations; all pairs of attributes and declarations on every kind of block and action; all statements within statements; all forms of references; all nestings of declarations of one name; all declarations of parameters with all lists of arguments; all pairs of operand types of every operator; all edits of one word of a plan that uses every construct',
 'The compiler tests compile some 200 plans and compare documents; they are not run by the build, and no test looks at the values of the expressions or at the refusal of faulty plans beyond a dozen.',
 ['compilers/plexil/antlr/Plexil.g','compilers/plexil/antlr/PlexilTreeTransforms.g','compilers/plexil/java/plexil/Compiler.java','compilers/plexil/java/plexil/BlockNode.java','compilers/plexil/java/plexil/LiteralNode.java','compilers/plexil/java/plexil/ArithmeticOperatorNode.java','schema/extended-plexil.rnc'],
 [('grammar','compilers/plexil/antlr/Plexil.g'),('simplification of expressions','compilers/plexil/antlr/PlexilTreeTransforms.g'),('literals','compilers/plexil/java/plexil/LiteralNode.java'),('blocks and attributes','compilers/plexil/java/plexil/BlockNode.java')],['document written with --epx-only','messages','exit status'])
with open(sys.argv[1] if len(sys.argv)>1 else '/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
