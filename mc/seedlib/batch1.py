M = '#include "demo.hh"\nint main() {\n%s\n  return g_bad ? 1 : 0;\n}\n'
BUGS = [
dict(id='nested-exit', prop='C01', needs='a list with its own ExitCondition, two levels below a list whose ExitCondition becomes true while a grandchild executes',
 breaks='a node no longer leaves execution when the ExitCondition of its grandparent becomes true, if its parent has an ExitCondition too',
 edits=[('src/exec/ListNode.cc', '''        if (getAncestorExitCondition()) {
          m_conditions[ancestorExitIdx] =
            makeFunction(BooleanOr::instance(),
                         getExitCondition(),
                         getAncestorExitCondition(),
                         false,
                         false);
          m_garbageConditions[ancestorExitIdx] = true;
        }
        else 
          m_conditions[ancestorExitIdx] = getExitCondition();''', '''        // Own condition is the one the children need to watch
        m_conditions[ancestorExitIdx] = getExitCondition();''')],
 demo=M % '''  Demo d; d.world["a"] = Value(false); d.world["b"] = Value(false);
  string leaf = empty("leaf", T("EndCondition", "<BooleanValue>false</BooleanValue>"));
  string mid = list("mid", T("ExitCondition", B("b")), {leaf});
  d.load(list("root", T("ExitCondition", B("a")), {mid})); d.run();
  expect("leaf before", d.state("leaf"), "EXECUTING");
  d.change("a", Value(true));
  expect("leaf", d.state("leaf"), "FINISHED/INTERRUPTED/PARENT_EXITED");
  expect("mid", d.state("mid"), "FINISHED/INTERRUPTED/PARENT_EXITED");
  expect("root", d.state("root"), "FINISHED/INTERRUPTED/EXITED");'''),
dict(id='two-mutexes', prop='C04', needs='a node using two mutexes, the first held by another node and the second free',
 breaks='such a node starts although the first mutex is held: two users of one mutex execute together',
 edits=[('src/exec/NodeImpl.cc', '''        success = m->acquire(this);
        if (!success) {''', '''        success = m->acquire(this);
        if (!success && m == m_usingMutexes->back()) {''')],
 demo=M % '''  Demo d; d.world["go"] = Value(false); d.world["done"] = Value(false);
  string decl = T("VariableDeclarations", "<DeclareMutex><Name>m</Name></DeclareMutex><DeclareMutex><Name>n</Name></DeclareMutex>");
  string a = empty("a", "<UsingMutex><Name>m</Name></UsingMutex>" + T("EndCondition", B("done")));
  string b = empty("b", "<UsingMutex><Name>m</Name><Name>n</Name></UsingMutex>" + T("StartCondition", B("go")) + T("EndCondition", B("done")));
  d.load(list("root", decl, {a, b})); d.run();
  expect("a", d.state("a"), "EXECUTING"); expect("b", d.state("b"), "WAITING");
  d.change("go", Value(true));
  expect("a", d.state("a"), "EXECUTING"); expect("b", d.state("b"), "WAITING");'''),
dict(id='stale-resources', prop='C05', needs='a command node whose resource name is a variable expression, executed again after it changed',
 breaks='a repeated command reserves the resources of its first execution',
 edits=[('src/intfc/CommandImpl.cc', '''      m_resourcesFixed = false;
      for (ResourceSpec &res : *m_resourceList)
        res.activate();''', '''      for (ResourceSpec &res : *m_resourceList)
        res.activate();'''), ('src/intfc/CommandImpl.cc', '''          res.deactivate();
        m_resourcesFixed = false;''', '''          res.deactivate();''')],
 demo=M % '''  Demo d; d.world["r"] = Value(String("a")); d.world["go"] = Value(false);
  auto res = [](string const &n) { return T("ResourceList", "<Resource>" + T("ResourceName", n) + T("ResourcePriority", I(1)) + "</Resource>"); };
  string known = "<IsKnown><NodeCommandHandleVariable><NodeRef dir=\\"self\\"/></NodeCommandHandleVariable></IsKnown>";
  string c = command("c", "c", T("RepeatCondition", "<BooleanValue>true</BooleanValue>") + T("EndCondition", known), res(B("r")));
  string o = command("o", "o", T("StartCondition", B("go")), res(T("StringValue", "b")));
  d.load(list("root", "", {c, o})); d.run(); expect("c sent", d.sent["c"], 1);
  d.set("r", Value(String("b"))); d.handle("c", COMMAND_SUCCESS); d.run(); expect("c sent", d.sent["c"], 2);
  d.change("go", Value(true));
  expect("o sent", d.sent["o"], 0); expect("o refused", d.refused["o"], 1);'''),
dict(id='and-unknown-first', prop='C13', needs='an AND of three or more operands with an unknown operand before a false one',
 breaks='the AND is unknown instead of false',
 edits=[('src/expr/BooleanOperators.cc', '''          // Any known and false -> result known and false
          result = false;
          return true;''', '''          // Any known and false -> result false
          result = false;
          return allKnown;''')],
 demo=M % '''  Demo d; d.world["a"] = Value(); d.world["b"] = Value(false); d.world["c"] = Value(true);
  d.load(empty("n", T("StartCondition", T("NOT", T("AND", B("c") + B("a") + B("b"))))));
  d.run(); expect("n", d.state("n"), "FINISHED/SUCCESS");'''),
dict(id='restore-string', prop='C03', needs='an assignment to a String variable (known before), undone in the step after it was performed, and a condition on that variable',
 breaks='when a String assignment is undone nothing that depends on the variable is told, so a node waiting for the old value stays waiting',
 edits=[('src/expr/UserVariable.cc', '''   bool changed = (m_known != m_savedKnown) || (m_value != m_savedValue);''', '''   bool changed = (m_known != m_savedKnown);''', 1)],
 demo=M % '''  Demo d; d.world["x"] = Value(false);
  string decl = T("VariableDeclarations", "<DeclareVariable><Name>s</Name><Type>String</Type><InitialValue><StringValue>old</StringValue></InitialValue></DeclareVariable>");
  string sv = "<StringVariable>s</StringVariable>";
  string as = node("Assignment", "as", T("ExitCondition", B("x")) + T("EndCondition", "<BooleanValue>false</BooleanValue>") + T("NodeBody", T("Assignment", sv + T("StringRHS", T("StringValue", "new")))));
  string w = empty("w", T("StartCondition", T("AND", T("EQString", sv + T("StringValue", "old")) + B("go"))));
  d.world["go"] = Value(false);
  d.load(list("root", decl, {as, w})); d.run(); expect("as", d.state("as"), "EXECUTING"); expect("s", d.var("root", "s"), "new");
  d.change("go", Value(true)); expect("w", d.state("w"), "WAITING");
  d.change("x", Value(true)); expect("as", d.state("as"), "FINISHED/INTERRUPTED/EXITED");
  expect("w", d.state("w"), "FINISHED/SUCCESS");'''),
]
