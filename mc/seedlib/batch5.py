M = '#include "demo.hh"\nint main() {\n%s\n  return g_bad ? 1 : 0;\n}\n'
LUVSH = lambda t: t.replace('-I$S/xml-parser', '-I$S/interfaces/LuvListener -I$S/xml-parser').replace('"$D/demo.cc"', '"$D/demo.cc" $S/interfaces/LuvListener/LuvFormat.cc')
LUVH = '''#include "demo.hh"
#include "LuvFormat.hh"
struct Viewed : Demo { vector<string> seen;
  void notifyOfTransitions(vector<NodeTransition> const &v) override { Demo::notifyOfTransitions(v); for (auto &x : v) { std::ostringstream s; LuvFormat::formatTransition(s, x); seen.push_back(s.str()); } }
  string last(string const &tag) { size_t a = seen.back().find("<" + tag + ">"); return a == string::npos ? "none" : seen.back().substr(a + tag.size() + 2, seen.back().find("<", a + 1) - a - tag.size() - 2); } };
int main() {
%s
  return g_bad ? 1 : 0;
}
'''
PSTSH = lambda t: '''#!/bin/bash
# run in /repo after the build: exit 0 if the translation of the scripts beside this one is as expected
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
java -cp "$R/_build/java/plexilscript/jars/plexilscript.jar:$R/jars/antlr.jar" plexilscript.PlexilScriptParse < "$D/script.pst" > "$W/out" || exit 1
tr -d ' \\n' < "$W/out" > "$W/a"; tr -d ' \\n' < "$D/expected.xml" > "$W/b"; cmp "$W/a" "$W/b" && echo ok
'''
BUGS = [
dict(id='quiet-exit', prop='C35', needs='a node which is interrupted by its exit condition or by that of its parent',
 breaks='the viewer is told the failure type only of nodes which failed, not of those which were interrupted',
 edits=[('src/interfaces/LuvListener/LuvFormat.cc', '''    // add failure type
    if (trans.node->getFailureType() != NO_FAILURE)
      simpleTextElement''', '''    // add failure type
    if (trans.node->getOutcome() == FAILURE_OUTCOME)
      simpleTextElement''')],
 sh=LUVSH, demo=LUVH % '''  Viewed d; d.world["x"] = Value(false);
  d.load(command("c", "c", T("ExitCondition", B("x")))); d.run(); d.change("x", Value(true));
  d.handle("c", COMMAND_SUCCESS); commandAbortAcknowledge(d.cmds.at("c"), true); d.run();
  expect("outcome", d.last("NodeOutcome"), "INTERRUPTED"); expect("failure", d.last("NodeFailureType"), "EXITED");'''),
dict(id='repeated-results', prop='C36', needs='an array result in which a value other than the first occurs twice',
 breaks='equal results of a scripted command or state are translated only once',
 edits=[('compilers/plexilscript/antlr/plexilscript.g', '''                (COMMA v = value { ast.add (v); })* RPAREN))''', '''                (COMMA v = value { if (!ast.contains (v)) ast.add (v); })* RPAREN))''')],
 sh=PSTSH, files={'script.pst': 'script { command c () = (1, 2, 1) : int-array; }\n', 'expected.xml': '<PLEXILScript><Script><Command name="c" type="int-array"><Result>1</Result><Result>2</Result><Result>1</Result></Command></Script></PLEXILScript>'}, demo=''),
dict(id='empty-group', prop='C36', needs='a simultaneous group with nothing in it',
 breaks='an empty group is left out of the translated script, so that everything after it comes one step early',
 edits=[('compilers/plexilscript/java/plexilscript/SimultaneousAST.java', '''	System.out.printf ("    <Simultaneous>\\n");
''', '''	if (es.isEmpty ())
	    return;
	System.out.printf ("    <Simultaneous>\\n");
''')],
 sh=PSTSH, files={'script.pst': 'script { simultaneous { } delay; }\n', 'expected.xml': '<PLEXILScript><Script><Simultaneous></Simultaneous><Delay/></Script></PLEXILScript>'}, demo=''),
]
