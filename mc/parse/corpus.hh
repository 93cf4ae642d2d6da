// Documents that together use every construct of the plan language.
#pragma once
#include <string>
#include <vector>
struct Doc { char const *name; std::vector<char const *> libs; char const *plan; };
#define NM(x) "<Name><StringValue>" x "</StringValue></Name>"
#define LOC(x) "<LookupOnChange>" NM(x) "</LookupOnChange>"
#define DV(n, t, i) "<DeclareVariable><Name>" n "</Name><Type>" t "</Type>" i "</DeclareVariable>"
#define INIT(x) "<InitialValue>" x "</InitialValue>"
#define EMPTY(n, c) "<Node NodeType='Empty'><NodeId>" n "</NodeId>" c "</Node>"
#define LISTB(x) "<NodeBody><NodeList>" x "</NodeList></NodeBody>"
static std::vector<Doc> const CORPUS = {
  {"conditions", {}, "<PlexilPlan FileName='c.ple'><Node NodeType='NodeList' LineNo='3' ColNo='4'><NodeId>Root</NodeId><Comment>text</Comment>"
    "<VariableDeclarations>" DV("b", "Boolean", INIT("<BooleanValue>true</BooleanValue>")) DV("n", "Integer", "") "</VariableDeclarations>"
    "<StartCondition><BooleanVariable>b</BooleanVariable></StartCondition><SkipCondition><NOT><IsKnown><IntegerVariable>n</IntegerVariable></IsKnown></NOT></SkipCondition>"
    "<PreCondition><BooleanValue>true</BooleanValue></PreCondition><InvariantCondition><OR><BooleanVariable>b</BooleanVariable><XOR><BooleanValue>0</BooleanValue><BooleanVariable>b</BooleanVariable></XOR></OR></InvariantCondition>"
    "<ExitCondition><AND><BooleanVariable>b</BooleanVariable><BooleanValue>false</BooleanValue></AND></ExitCondition><PostCondition><Finished><NodeRef dir='child'>A</NodeRef></Finished></PostCondition>"
    "<EndCondition><AND><Finished><NodeId>A</NodeId></Finished><Skipped><NodeId>B</NodeId></Skipped></AND></EndCondition><RepeatCondition><BooleanValue>false</BooleanValue></RepeatCondition>"
    LISTB("<Node NodeType='Assignment'><NodeId>A</NodeId><Priority>7</Priority><StartCondition><Executing><NodeRef dir='parent'/></Executing></StartCondition><NodeBody><Assignment><IntegerVariable>n</IntegerVariable><NumericRHS><IntegerValue>3</IntegerValue></NumericRHS></Assignment></NodeBody></Node>"
      EMPTY("B", "<SkipCondition><Succeeded><NodeRef dir='sibling'>A</NodeRef></Succeeded></SkipCondition><EndCondition><IterationEnded><NodeRef dir='self'/></IterationEnded></EndCondition>")) "</Node></PlexilPlan>"},
  {"operators", {}, "<PlexilPlan><Node NodeType='NodeList'><NodeId>Ops</NodeId><VariableDeclarations>"
    DV("i", "Integer", INIT("<IntegerValue>-5</IntegerValue>")) DV("r", "Real", INIT("<RealValue>2.5e0</RealValue>")) DV("s", "String", INIT("<StringValue>ab</StringValue>"))
    "<DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray></VariableDeclarations>"
    LISTB("<Node NodeType='Assignment'><NodeId>X</NodeId><NodeBody><Assignment><RealVariable>r</RealVariable><NumericRHS><MAX><ADD><IntegerVariable>i</IntegerVariable><SUB><IntegerVariable>i</IntegerVariable></SUB><RealValue>1.5</RealValue></ADD><MUL><RealVariable>r</RealVariable><DIV><IntegerVariable>i</IntegerVariable><IntegerValue>2</IntegerValue></DIV></MUL><MIN><ABS><IntegerVariable>i</IntegerVariable></ABS><SQRT><RealVariable>r</RealVariable></SQRT></MIN></MAX></NumericRHS></Assignment></NodeBody></Node>"
      "<Node NodeType='Assignment'><NodeId>Y</NodeId><StartCondition><AND><GE><IntegerVariable>i</IntegerVariable><RealVariable>r</RealVariable></GE><NENumeric><RealVariable>r</RealVariable><IntegerValue>0</IntegerValue></NENumeric><EQString><StringVariable>s</StringVariable><StringValue>ab</StringValue></EQString></AND></StartCondition>"
      "<EndCondition><LT><STRLEN><StringVariable>s</StringVariable></STRLEN><ArraySize><ArrayVariable>a</ArrayVariable></ArraySize></LT></EndCondition>"
      "<NodeBody><Assignment><RealVariable>r</RealVariable><NumericRHS><MOD><TRUNC><RealVariable>r</RealVariable></TRUNC><REAL_TO_INT><ROUND><RealVariable>r</RealVariable></ROUND></REAL_TO_INT></MOD></NumericRHS></Assignment></NodeBody></Node>"
      "<Node NodeType='Assignment'><NodeId>Z</NodeId><NodeBody><Assignment><StringVariable>s</StringVariable><StringRHS><Concat><StringVariable>s</StringVariable><StringValue/></Concat></StringRHS></Assignment></NodeBody></Node>") "</Node></PlexilPlan>"},
  {"arrays", {}, "<PlexilPlan><Node NodeType='NodeList'><NodeId>Arr</NodeId><VariableDeclarations>"
    "<DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>3</MaxSize>" INIT("<ArrayValue Type='Integer'><IntegerValue>1</IntegerValue><IntegerValue>2</IntegerValue></ArrayValue>") "</DeclareArray>"
    "<DeclareArray><Name>c</Name><Type>Real</Type><MaxSize>2</MaxSize>" INIT("<ArrayValue Type='Real'><RealValue>1.5</RealValue></ArrayValue>") "</DeclareArray>"
    "<DeclareArray><Name>d</Name><Type>String</Type><MaxSize>1</MaxSize></DeclareArray><DeclareArray><Name>e</Name><Type>Boolean</Type>" INIT("<ArrayValue Type='Boolean'><BooleanValue>true</BooleanValue></ArrayValue>") "</DeclareArray>"
    DV("i", "Integer", INIT("<IntegerValue>1</IntegerValue>")) "</VariableDeclarations>"
    LISTB("<Node NodeType='Assignment'><NodeId>X</NodeId><NodeBody><Assignment><ArrayElement><Name>a</Name><Index><IntegerVariable>i</IntegerVariable></Index></ArrayElement><NumericRHS><ArrayElement><ArrayVariable>a</ArrayVariable><Index><IntegerValue>0</IntegerValue></Index></ArrayElement></NumericRHS></Assignment></NodeBody></Node>"
      "<Node NodeType='Assignment'><NodeId>Y</NodeId><StartCondition><EQArray><ArrayVariable>a</ArrayVariable><ArrayValue Type='Integer'/></EQArray></StartCondition><NodeBody><Assignment><ArrayVariable>c</ArrayVariable><ArrayRHS><ArrayValue Type='Real'><RealValue>0</RealValue></ArrayValue></ArrayRHS></Assignment></NodeBody></Node>"
      "<Node NodeType='Assignment'><NodeId>W</NodeId><StartCondition><GT><ArrayMaxSize><ArrayVariable>a</ArrayVariable></ArrayMaxSize><IntegerValue>0</IntegerValue></GT></StartCondition><EndCondition><ALL_KNOWN><ArrayVariable>e</ArrayVariable></ALL_KNOWN></EndCondition><SkipCondition><ANY_KNOWN><ArrayVariable>d</ArrayVariable></ANY_KNOWN></SkipCondition><NodeBody><Assignment><ArrayElement><Name>e</Name><Index><ADD><IntegerVariable>i</IntegerVariable><IntegerValue>-1</IntegerValue></ADD></Index></ArrayElement><BooleanRHS><NEArray><ArrayVariable>a</ArrayVariable><ArrayVariable>a</ArrayVariable></NEArray></BooleanRHS></Assignment></NodeBody></Node>") "</Node></PlexilPlan>"},
  {"command", {}, "<PlexilPlan><GlobalDeclarations><CommandDeclaration><Name>go</Name><Return><Name>_</Name><Type>Integer</Type></Return><Parameter><Name>p</Name><Type>Real</Type></Parameter><Parameter><Type>Integer</Type><MaxSize>3</MaxSize></Parameter></CommandDeclaration>"
    "<CommandDeclaration><Name>any</Name><Parameter><Type>Any</Type></Parameter><AnyParameters/></CommandDeclaration></GlobalDeclarations>"
    "<Node NodeType='NodeList'><NodeId>Cmd</NodeId><VariableDeclarations>" DV("i", "Integer", "") DV("s", "String", INIT("<StringValue>any</StringValue>")) "<DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>2</MaxSize></DeclareArray></VariableDeclarations>"
    LISTB("<Node NodeType='Command'><NodeId>X</NodeId><EndCondition><EQInternal><NodeCommandHandleVariable><NodeRef dir='self'/></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal></EndCondition><NodeBody><Command><ResourceList><Resource><ResourceName><StringValue>r1</StringValue></ResourceName><ResourcePriority><IntegerValue>2</IntegerValue></ResourcePriority><ResourceUpperBound><RealValue>0.5</RealValue></ResourceUpperBound><ResourceReleaseAtTermination><BooleanValue>true</BooleanValue></ResourceReleaseAtTermination></Resource>"
        "<Resource><ResourceName><StringVariable>s</StringVariable></ResourceName><ResourcePriority><IntegerValue>1</IntegerValue></ResourcePriority></Resource></ResourceList><IntegerVariable>i</IntegerVariable>" NM("go") "<Arguments><RealValue>1</RealValue><ArrayVariable>a</ArrayVariable></Arguments></Command></NodeBody></Node>"
      "<Node NodeType='Command'><NodeId>Y</NodeId><NodeBody><Command><Name><StringVariable>s</StringVariable></Name><Arguments><IntegerVariable>i</IntegerVariable></Arguments></Command></NodeBody></Node>"
      "<Node NodeType='Command'><NodeId>Z</NodeId><NodeBody><Command><ArrayElement><Name>a</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>" NM("go") "<Arguments><IntegerVariable>i</IntegerVariable><ArrayVariable>a</ArrayVariable></Arguments></Command></NodeBody></Node>"
      "<Node NodeType='Command'><NodeId>V</NodeId><NodeBody><Command>" NM("any") "<Arguments><StringValue/><StringVariable>s</StringVariable></Arguments></Command></NodeBody></Node>") "</Node></PlexilPlan>"},
  {"lookups", {}, "<PlexilPlan><GlobalDeclarations><StateDeclaration><Name>x</Name><Return><Name>_</Name><Type>Real</Type></Return></StateDeclaration><StateDeclaration><Name>at</Name><Return><Type>Boolean</Type></Return><Parameter><Name>w</Name><Type>String</Type></Parameter></StateDeclaration>"
    "<StateDeclaration><Name>ar</Name><Return><Type>Integer</Type><MaxSize>2</MaxSize></Return><AnyParameters/></StateDeclaration></GlobalDeclarations>"
    "<Node NodeType='NodeList'><NodeId>Look</NodeId><VariableDeclarations>" DV("r", "Real", INIT("<RealValue>2</RealValue>")) DV("s", "String", "") "</VariableDeclarations>"
    "<StartCondition><GT><LookupOnChange>" NM("x") "<Tolerance><RealValue>0.5</RealValue></Tolerance></LookupOnChange><RealValue>1.0</RealValue></GT></StartCondition>"
    "<EndCondition><OR><LookupOnChange>" NM("at") "<Arguments><StringVariable>s</StringVariable></Arguments></LookupOnChange><LookupNow>" NM("at") "<Arguments><StringValue>home</StringValue></Arguments></LookupNow><LookupOnChange>" NM("undeclared") "<Tolerance><RealVariable>r</RealVariable></Tolerance><Arguments><IntegerValue>1</IntegerValue></Arguments></LookupOnChange></OR></EndCondition>"
    LISTB("<Node NodeType='Assignment'><NodeId>X</NodeId><StartCondition><EQNumeric><LookupOnChange><Name><StringVariable>s</StringVariable></Name></LookupOnChange><ArrayElement><LookupNow>" NM("ar") "<Arguments><IntegerValue>1</IntegerValue></Arguments></LookupNow><Index><IntegerValue>0</IntegerValue></Index></ArrayElement></EQNumeric></StartCondition><NodeBody><Assignment><RealVariable>r</RealVariable><NumericRHS><LookupNow>" NM("x") "</LookupNow></NumericRHS></Assignment></NodeBody></Node>"
      "<Node NodeType='Assignment'><NodeId>Y</NodeId><NodeBody><Assignment><StringVariable>s</StringVariable><LookupRHS><LookupNow>" NM("any") "</LookupNow></LookupRHS></Assignment></NodeBody></Node>") "</Node></PlexilPlan>"},
  {"nodevars", {}, "<PlexilPlan><Node NodeType='NodeList'><NodeId>NV</NodeId><VariableDeclarations>" DV("r", "Real", "") DV("d", "Date", "") DV("u", "Duration", INIT("<RealValue>60</RealValue>")) "</VariableDeclarations>"
    "<EndCondition><AND><EQInternal><NodeStateVariable><NodeRef dir='child'>A</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal><NEInternal><NodeOutcomeVariable><NodeId>A</NodeId></NodeOutcomeVariable><NodeOutcomeValue>SUCCESS</NodeOutcomeValue></NEInternal>"
    "<EQInternal><NodeFailureVariable><NodeId>A</NodeId></NodeFailureVariable><NodeFailureValue>PARENT_EXITED</NodeFailureValue></EQInternal><LE><NodeTimepointValue><NodeId>A</NodeId><NodeStateValue>EXECUTING</NodeStateValue><Timepoint>START</Timepoint></NodeTimepointValue><RealVariable>r</RealVariable></LE><NoChildFailed><NodeRef dir='self'/></NoChildFailed></AND></EndCondition>"
    LISTB(EMPTY("A", "<StartCondition><OR><Waiting><NodeId>A</NodeId></Waiting><Inactive><NodeId>NV</NodeId></Inactive><Failed><NodeRef dir='sibling'>B</NodeRef></Failed><PostconditionFailed><NodeId>B</NodeId></PostconditionFailed></OR></StartCondition>")
      "<Node NodeType='Assignment'><NodeId>B</NodeId><NodeBody><Assignment><RealVariable>r</RealVariable><NumericRHS><RealValue>4</RealValue></NumericRHS></Assignment></NodeBody></Node>") "</Node></PlexilPlan>"},
  {"updates", {}, "<PlexilPlan><GlobalDeclarations><DeclareMutex><Name>g</Name></DeclareMutex></GlobalDeclarations><Node NodeType='NodeList'><NodeId>Up</NodeId><VariableDeclarations>" DV("i", "Integer", INIT("<IntegerValue>1</IntegerValue>")) "<DeclareMutex><Name>m</Name></DeclareMutex></VariableDeclarations>"
    LISTB("<Node NodeType='Update'><NodeId>X</NodeId><UsingMutex><Name>m</Name><Name>g</Name></UsingMutex><NodeBody><Update><Pair><Name>p</Name><IntegerVariable>i</IntegerVariable></Pair><Pair><Name>q</Name><StringValue>z</StringValue></Pair></Update></NodeBody></Node>"
      EMPTY("Y", "<UsingMutex><Name>g</Name></UsingMutex><Assume/><Desire/><Expect/>") "<Node NodeType='Update'><NodeId>Z</NodeId><NodeBody><Update/></NodeBody></Node>") "</Node></PlexilPlan>"},
  {"interfaces", {}, "<PlexilPlan><Node NodeType='NodeList'><NodeId>If</NodeId><VariableDeclarations>" DV("i", "Integer", INIT("<IntegerValue>1</IntegerValue>")) DV("j", "Integer", "") "<DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>2</MaxSize></DeclareArray></VariableDeclarations>"
    LISTB("<Node NodeType='NodeList'><NodeId>K</NodeId><Interface><In>" DV("i", "Integer", "") "<DeclareArray><Name>a</Name><Type>Integer</Type></DeclareArray>" DV("dflt", "Real", INIT("<RealValue>1</RealValue>")) "</In><InOut>" DV("j", "Integer", "") DV("own", "String", INIT("<StringValue>o</StringValue>")) "</InOut></Interface><VariableDeclarations>" DV("l", "Integer", INIT("<IntegerVariable>i</IntegerVariable>")) "</VariableDeclarations>"
      LISTB("<Node NodeType='Assignment'><NodeId>S</NodeId><NodeBody><Assignment><IntegerVariable>j</IntegerVariable><NumericRHS><ADD><IntegerVariable>i</IntegerVariable><IntegerVariable>l</IntegerVariable></ADD></NumericRHS></Assignment></NodeBody></Node>"
        "<Node NodeType='Assignment'><NodeId>T</NodeId><NodeBody><Assignment><StringVariable>own</StringVariable><StringRHS><StringValue>w</StringValue></StringRHS></Assignment></NodeBody></Node>") "</Node>") "</Node></PlexilPlan>"},
  {"library", {"<PlexilPlan><GlobalDeclarations><CommandDeclaration><Name>lc</Name></CommandDeclaration></GlobalDeclarations><Node NodeType='NodeList'><NodeId>Lib</NodeId><Interface><In>" DV("p", "Integer", "") DV("q", "String", INIT("<StringValue>d</StringValue>")) "</In><InOut>" DV("o", "Integer", "") "</InOut></Interface>"
      LISTB("<Node NodeType='Assignment'><NodeId>S</NodeId><NodeBody><Assignment><IntegerVariable>o</IntegerVariable><NumericRHS><IntegerVariable>p</IntegerVariable></NumericRHS></Assignment></NodeBody></Node><Node NodeType='Command'><NodeId>C</NodeId><NodeBody><Command>" NM("lc") "</Command></NodeBody></Node>") "</Node></PlexilPlan>"},
    "<PlexilPlan><GlobalDeclarations><LibraryNodeDeclaration><Name>Lib</Name><Interface><In>" DV("p", "Integer", "") DV("q", "String", "") "</In><InOut>" DV("o", "Integer", "") "</InOut></Interface></LibraryNodeDeclaration></GlobalDeclarations><Node NodeType='NodeList'><NodeId>Call</NodeId><VariableDeclarations>" DV("v", "Integer", INIT("<IntegerValue>2</IntegerValue>")) "</VariableDeclarations>"
    LISTB("<Node NodeType='LibraryNodeCall'><NodeId>L1</NodeId><EndCondition><Finished><NodeId>Lib</NodeId></Finished></EndCondition><NodeBody><LibraryNodeCall><NodeId>Lib</NodeId><Alias><NodeParameter>p</NodeParameter><IntegerValue>4</IntegerValue></Alias><Alias><NodeParameter>o</NodeParameter><IntegerVariable>v</IntegerVariable></Alias></LibraryNodeCall></NodeBody></Node>"
      "<Node NodeType='LibraryNodeCall'><NodeId>L2</NodeId><StartCondition><Finished><NodeId>L1</NodeId></Finished></StartCondition><NodeBody><LibraryNodeCall><NodeId>Lib</NodeId><Alias><NodeParameter>p</NodeParameter><ADD><IntegerVariable>v</IntegerVariable><IntegerValue>1</IntegerValue></ADD></Alias><Alias><NodeParameter>q</NodeParameter><StringValue/></Alias><Alias><NodeParameter>o</NodeParameter><IntegerVariable>v</IntegerVariable></Alias></LibraryNodeCall></NodeBody></Node>") "</Node></PlexilPlan>"},
};
