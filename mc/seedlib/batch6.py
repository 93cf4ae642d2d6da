import os
STUB = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../java/stub/plexil/xml/SaxonTransformer.java')).read()
PLCSH = lambda t: '''#!/bin/bash
# run in /repo after the build: builds the PLEXIL compiler (without its last pass) in a scratch folder; exit 0 if the plan beside this one is compiled as expected
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
J="$R/jars/antlr-3.5.3-complete-no-st3.jar"; mkdir "$W/g" "$W/gen" "$W/cls"; cp "$R"/compilers/plexil/antlr/*.g "$W/g"; cp "$D/plan.ple" "$W/plan.ple"
java -cp "$J" org.antlr.Tool -fo "$W/gen" "$W/g/Plexil.g" "$W/g/PlexilTreeTransforms.g" > "$W/log" 2>&1 || exit 3
find "$R/compilers/plexil/java" -name '*.java' ! -name SaxonTransformer.java > "$W/files"
javac -encoding UTF-8 -nowarn -cp "$J" -d "$W/cls" @"$W/files" "$D/SaxonTransformer.java" "$W"/gen/*.java > "$W/log" 2>&1 || exit 3
cd "$W"; java -cp "$W/cls:$J" plexil.Compiler -e -o plan.epx plan.ple || { echo refused; exit 1; }
sed -e 's/ *\\(LineNo\\|ColNo\\|FileName\\)="[^"]*"//g' plan.epx | tr -d ' \\n' > a; tr -d ' \\n' < "$D/expected.xml" > b; cmp a b && echo ok
'''
def F(plan, exp): return {'plan.ple': plan, 'expected.xml': exp, 'SaxonTransformer.java': STUB}
HEAD = '<?xml version="1.0" encoding="UTF-8" standalone="no"?>'
BUGS = [
dict(id='right-minus', prop='C37', needs='a subtraction whose right operand is a subtraction in brackets',
 breaks='a - (b - c) is compiled into a - b - c',
 edits=[('compilers/plexil/antlr/PlexilTreeTransforms.g', '''    |   ^(MINUS ^(MINUS args+=. (args+=.)+) (args+=.)+ ) -> ^(MINUS $args+)
''', '''    |   ^(MINUS args+=. ^(MINUS args+=. (args+=.)+) ) -> ^(MINUS $args+)
''')],
 sh=PLCSH, files=F('{ Integer x, y; x = x - (y - 2); }\n', '<?xmlversion="1.0"encoding="UTF-8"standalone="no"?><PlexilPlan><NodeNodeType="Assignment"><NodeIdgenerated="1">ASSIGNMENT__0</NodeId><VariableDeclarations><DeclareVariable><Name>x</Name><Type>Integer</Type></DeclareVariable><DeclareVariable><Name>y</Name><Type>Integer</Type></DeclareVariable></VariableDeclarations><NodeBody><Assignment><IntegerVariable>x</IntegerVariable><NumericRHS><SUB><IntegerVariable>x</IntegerVariable><SUB><IntegerVariable>y</IntegerVariable><IntegerValue>2</IntegerValue></SUB></SUB></NumericRHS></Assignment></NodeBody></Node></PlexilPlan>\n'), demo=''),
dict(id='far-node', prop='C37', needs='a reference to a node which is a child of an ancestor two or more levels up',
 breaks='plans that refer to nodes further away than those around the parent are refused',
 edits=[('compilers/plexil/java/plexil/NodeContext.java', '''        while (parent != null) {
            if (parent.isLocalNodeId(name))
                return true;
            parent = parent.getParentContext();
        }
        return false;''', '''        if (parent == null)
            return false;
        return parent.isLocalNodeId(name)
            || isAncestorNodeId(name);''')],
 sh=PLCSH, files=F('Root: { Integer x; A: { B: { C: { Start NodeFinished(Z); x = 1; } x = 2; } x = 3; } Z: { } }\n', '<?xmlversion="1.0"encoding="UTF-8"standalone="no"?><PlexilPlan><Sequence><NodeId>Root</NodeId><VariableDeclarations><DeclareVariable><Name>x</Name><Type>Integer</Type></DeclareVariable></VariableDeclarations><Sequence><NodeId>A</NodeId><Sequence><NodeId>B</NodeId><NodeNodeType="Assignment"><NodeId>C</NodeId><StartCondition><Finished><NodeId>Z</NodeId></Finished></StartCondition><NodeBody><Assignment><IntegerVariable>x</IntegerVariable><NumericRHS><IntegerValue>1</IntegerValue></NumericRHS></Assignment></NodeBody></Node><NodeNodeType="Assignment"><NodeIdgenerated="1">ASSIGNMENT__0</NodeId><NodeBody><Assignment><IntegerVariable>x</IntegerVariable><NumericRHS><IntegerValue>2</IntegerValue></NumericRHS></Assignment></NodeBody></Node></Sequence><NodeNodeType="Assignment"><NodeIdgenerated="1">ASSIGNMENT__1</NodeId><NodeBody><Assignment><IntegerVariable>x</IntegerVariable><NumericRHS><IntegerValue>3</IntegerValue></NumericRHS></Assignment></NodeBody></Node></Sequence><NodeNodeType="Empty"><NodeId>Z</NodeId></Node></Sequence></PlexilPlan>\n'), demo=''),
dict(id='outer-type', prop='C37', needs='a variable that hides one of another type and a name further out',
 breaks='a variable takes its type from the outermost declaration of its name',
 edits=[('compilers/plexil/java/plexil/NodeContext.java', '''        VariableName vn = m_parentContext.findLocalVariable(name);
        if (vn != null)
            return vn;
        else
            return m_parentContext.findInheritedVariable(name);''', '''        VariableName vn = m_parentContext.findInheritedVariable(name);
        if (vn != null)
            return vn;
        else
            return m_parentContext.findLocalVariable(name);''')],
 sh=PLCSH, files=F('Root: { Integer k; A: { Real k; B: { Boolean b; b = isKnown(k); k = 1.5; } k = 2.5; } k = 1; }\n', '<?xmlversion="1.0"encoding="UTF-8"standalone="no"?><PlexilPlan><Sequence><NodeId>Root</NodeId><VariableDeclarations><DeclareVariable><Name>k</Name><Type>Integer</Type></DeclareVariable></VariableDeclarations><Sequence><NodeId>A</NodeId><VariableDeclarations><DeclareVariable><Name>k</Name><Type>Real</Type></DeclareVariable></VariableDeclarations><Sequence><NodeId>B</NodeId><VariableDeclarations><DeclareVariable><Name>b</Name><Type>Boolean</Type></DeclareVariable></VariableDeclarations><NodeNodeType="Assignment"><NodeIdgenerated="1">ASSIGNMENT__0</NodeId><NodeBody><Assignment><BooleanVariable>b</BooleanVariable><BooleanRHS><IsKnown><RealVariable>k</RealVariable></IsKnown></BooleanRHS></Assignment></NodeBody></Node><NodeNodeType="Assignment"><NodeIdgenerated="1">ASSIGNMENT__1</NodeId><NodeBody><Assignment><RealVariable>k</RealVariable><NumericRHS><RealValue>1.5</RealValue></NumericRHS></Assignment></NodeBody></Node></Sequence><NodeNodeType="Assignment"><NodeIdgenerated="1">ASSIGNMENT__2</NodeId><NodeBody><Assignment><RealVariable>k</RealVariable><NumericRHS><RealValue>2.5</RealValue></NumericRHS></Assignment></NodeBody></Node></Sequence><NodeNodeType="Assignment"><NodeIdgenerated="1">ASSIGNMENT__3</NodeId><NodeBody><Assignment><IntegerVariable>k</IntegerVariable><NumericRHS><IntegerValue>1</IntegerValue></NumericRHS></Assignment></NodeBody></Node></Sequence></PlexilPlan>\n'), demo=''),
]
