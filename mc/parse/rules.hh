// Documents of known standing: every kind of expression in every place that takes one, every reference
// to a declaration from every place it can or cannot be seen from, and every element left out or given twice.
#pragma once
namespace rules {
static string plan(string const &globals, string const &node) { return "<PlexilPlan>" + (globals.empty() ? "" : "<GlobalDeclarations>" + globals + "</GlobalDeclarations>") + node + "</PlexilPlan>"; }
static string lst(string const &id, string const &pre, string const &kids) { return "<Node NodeType='NodeList'><NodeId>" + id + "</NodeId>" + pre + "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>"; }
static string emp(string const &id, string const &pre) { return "<Node NodeType='Empty'><NodeId>" + id + "</NodeId>" + pre + "</Node>"; }
static string asg(string const &id, string const &pre, string const &lhs, string const &rhs) { return "<Node NodeType='Assignment'><NodeId>" + id + "</NodeId>" + pre + "<NodeBody><Assignment>" + lhs + rhs + "</Assignment></NodeBody></Node>"; }
static string cmd(string const &id, string const &pre, string const &body) { return "<Node NodeType='Command'><NodeId>" + id + "</NodeId>" + pre + "<NodeBody><Command>" + body + "</Command></NodeBody></Node>"; }
static string upd(string const &id, string const &pre, string const &body) { return "<Node NodeType='Update'><NodeId>" + id + "</NodeId>" + pre + "<NodeBody><Update>" + body + "</Update></NodeBody></Node>"; }
static string call(string const &id, string const &pre, string const &lib, string const &aliases) { return "<Node NodeType='LibraryNodeCall'><NodeId>" + id + "</NodeId>" + pre + "<NodeBody><LibraryNodeCall><NodeId>" + lib + "</NodeId>" + aliases + "</LibraryNodeCall></NodeBody></Node>"; }
static string vars(string const &d) { return "<VariableDeclarations>" + d + "</VariableDeclarations>"; }
static string dv(string const &n, string const &t, string const &init = "") { return "<DeclareVariable><Name>" + n + "</Name><Type>" + t + "</Type>" + (init.empty() ? "" : "<InitialValue>" + init + "</InitialValue>") + "</DeclareVariable>"; }
static string da(string const &n, string const &t, string const &size = "3", string const &init = "") { return "<DeclareArray><Name>" + n + "</Name><Type>" + t + "</Type>" + (size.empty() ? "" : "<MaxSize>" + size + "</MaxSize>") + (init.empty() ? "" : "<InitialValue>" + init + "</InitialValue>") + "</DeclareArray>"; }
static string tag(string const &t, string const &x) { return "<" + t + ">" + x + "</" + t + ">"; }
static string name(string const &n) { return tag("Name", tag("StringValue", n)); }
static string look(string const &n, string const &rest = "") { return "<LookupNow>" + name(n) + rest + "</LookupNow>"; }
static string sdecl(string const &n, string const &ret, string const &params = "") { return "<StateDeclaration><Name>" + n + "</Name>" + (ret.empty() ? "" : "<Return><Name>_</Name><Type>" + ret + "</Type></Return>") + params + "</StateDeclaration>"; }
static string cdecl_(string const &n, string const &ret, string const &params = "") { return "<CommandDeclaration><Name>" + n + "</Name>" + (ret.empty() ? "" : "<Return><Name>_</Name><Type>" + ret + "</Type></Return>") + params + "</CommandDeclaration>"; }
static string param(string const &t) { return "<Parameter><Name>p</Name><Type>" + t + "</Type></Parameter>"; }
static string arr(string const &a, string const &i) { return "<ArrayElement><Name>" + a + "</Name><Index>" + i + "</Index></ArrayElement>"; }
// Types as the plan language has them.  U: cannot be told before the plan runs.
enum Ty { B, I, R, S, AB, AI, AR, AS, U, ST, OU, FA, HA, NTY };
static char const *const TN[] = {"Boolean", "Integer", "Real", "String", "Boolean array", "Integer array", "Real array", "String array", "undeclared", "node state", "node outcome", "node failure", "command handle"};
struct Ex { Ty t; string x; };
static string const ROOTVARS = vars(dv("b", "Boolean", "<BooleanValue>true</BooleanValue>") + dv("i", "Integer", "<IntegerValue>1</IntegerValue>") + dv("r", "Real", "<RealValue>1.5</RealValue>") + dv("s", "String", "<StringValue>go</StringValue>") + da("ba", "Boolean") + da("ia", "Integer") + da("ra", "Real") + da("sa", "String"));
static string const GLOBALS = sdecl("lB", "Boolean") + sdecl("lI", "Integer") + sdecl("lR", "Real") + sdecl("lS", "String");
static string const iv = "<IntegerVariable>i</IntegerVariable>", bv = "<BooleanVariable>b</BooleanVariable>", rv = "<RealVariable>r</RealVariable>", sv = "<StringVariable>s</StringVariable>", av = "<ArrayVariable>ia</ArrayVariable>", i0 = "<IntegerValue>0</IntegerValue>", root = "<NodeId>Root</NodeId>";
static vector<Ex> const &exprs() {
  static vector<Ex> v = {
    {B, "<BooleanValue>true</BooleanValue>"}, {B, bv}, {B, arr("ba", i0)}, {B, tag("NOT", bv)}, {B, look("lB")}, {B, tag("IsKnown", iv)}, {B, tag("GT", iv + rv)}, {B, tag("EQString", sv + sv)}, {B, tag("EQInternal", tag("NodeStateVariable", root) + "<NodeStateValue>WAITING</NodeStateValue>")}, {B, tag("Finished", root)}, {B, tag("ALL_KNOWN", av)}, {B, tag("XOR", bv + bv)},
    {I, "<IntegerValue>0</IntegerValue>"}, {I, iv}, {I, arr("ia", i0)}, {I, tag("ADD", iv + iv)}, {I, look("lI")}, {I, tag("ArraySize", av)}, {I, tag("STRLEN", sv)}, {I, tag("MOD", iv + iv)}, {I, tag("REAL_TO_INT", rv)}, {I, tag("ABS", iv)},
    {R, "<RealValue>1.5</RealValue>"}, {R, rv}, {R, arr("ra", i0)}, {R, tag("MUL", iv + rv)}, {R, look("lR")}, {R, tag("SQRT", rv)},
    {S, "<StringValue>q</StringValue>"}, {S, sv}, {S, arr("sa", i0)}, {S, tag("Concat", sv + sv)}, {S, look("lS")},
    {AB, "<ArrayVariable>ba</ArrayVariable>"}, {AI, av}, {AR, "<ArrayVariable>ra</ArrayVariable>"}, {AS, "<ArrayVariable>sa</ArrayVariable>"}, {AI, "<ArrayValue Type='Integer'><IntegerValue>3</IntegerValue></ArrayValue>"}, {AS, "<ArrayValue Type='String'><StringValue>w</StringValue></ArrayValue>"}, {AB, "<ArrayValue Type='Boolean'><BooleanValue>true</BooleanValue></ArrayValue>"}, {AR, "<ArrayValue Type='Real'><RealValue>1</RealValue></ArrayValue>"},
    {U, look("nobody")},
    {ST, tag("NodeStateVariable", root)}, {ST, "<NodeStateValue>WAITING</NodeStateValue>"}, {OU, tag("NodeOutcomeVariable", root)}, {OU, "<NodeOutcomeValue>SUCCESS</NodeOutcomeValue>"}, {FA, tag("NodeFailureVariable", root)}, {FA, "<NodeFailureValue>EXITED</NodeFailureValue>"}, {HA, "<NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue>"}};
  return v;
}
struct Place { string what; unsigned takes; std::function<string(string const &)> doc; vector<string> libs; unsigned open = 0; };
static constexpr unsigned bit(Ty t) { return 1u << t; }
static unsigned const ALL = (1u << NTY) - 1, INTERNAL = bit(ST) | bit(OU) | bit(FA) | bit(HA), NUM = bit(I) | bit(R) | bit(U), ARRS = bit(AB) | bit(AI) | bit(AR) | bit(AS) | bit(U), VALS = ALL;
static string withRoot(string const &kids, string const &pre = "", string const &globals = "") { return plan(GLOBALS + globals, lst("Root", ROOTVARS + pre, kids)); }
static string exprIn(string const &e) { return withRoot(emp("E", tag("StartCondition", e))); }
static vector<Place> placesOf() {
  vector<Place> p;
  for (string c : {"StartCondition", "SkipCondition", "PreCondition", "InvariantCondition", "EndCondition", "ExitCondition", "PostCondition", "RepeatCondition"}) {
    p.push_back({c + " of a list", bit(B) | bit(U), [c](string const &x) { return withRoot("", tag(c, x)); }, {}});
    p.push_back({c + " of a leaf", bit(B) | bit(U), [c](string const &x) { return withRoot(emp("E", tag(c, x))); }, {}});
    p.push_back({c + " of an assignment", bit(B) | bit(U), [c](string const &x) { return withRoot(asg("E", tag(c, x), iv, tag("NumericRHS", i0))); }, {}});
    p.push_back({c + " of a command", bit(B) | bit(U), [c](string const &x) { return withRoot(cmd("E", tag(c, x), name("go"))); }, {}});
    p.push_back({c + " of an update", bit(B) | bit(U), [c](string const &x) { return withRoot(upd("E", tag(c, x), "")); }, {}});
  }
  auto rhs = [&](string what, string lhs, string tg, unsigned takes) { p.push_back({"value assigned to " + what, takes, [=](string const &x) { return withRoot(asg("E", "", lhs, tag(tg, x))); }, {}}); };
  rhs("a Boolean", bv, "BooleanRHS", bit(B) | bit(U)); rhs("an Integer", iv, "NumericRHS", bit(I) | bit(U)); rhs("a Real", rv, "NumericRHS", NUM); rhs("a String", sv, "StringRHS", bit(S) | bit(U));
  rhs("a Boolean element", arr("ba", i0), "BooleanRHS", bit(B) | bit(U)); rhs("an Integer element", arr("ia", i0), "NumericRHS", bit(I) | bit(U)); rhs("a Real element", arr("ra", i0), "NumericRHS", NUM); rhs("a String element", arr("sa", i0), "StringRHS", bit(S) | bit(U));
  rhs("a Boolean array", "<ArrayVariable>ba</ArrayVariable>", "ArrayRHS", bit(AB) | bit(U)); rhs("an Integer array", av, "ArrayRHS", bit(AI) | bit(U)); rhs("a Real array", "<ArrayVariable>ra</ArrayVariable>", "ArrayRHS", bit(AR) | bit(U)); rhs("a String array", "<ArrayVariable>sa</ArrayVariable>", "ArrayRHS", bit(AS) | bit(U));
  p.push_back({"index of a read element", bit(I) | bit(U), [](string const &x) { return exprIn(arr("ba", x)); }, {}});
  p.push_back({"index of a written element", bit(I) | bit(U), [](string const &x) { return withRoot(asg("E", "", arr("ia", x), tag("NumericRHS", i0))); }, {}});
  p.push_back({"array of an element", (ARRS), [](string const &x) { return withRoot(asg("E", "", "<StringVariable>s</StringVariable>", tag("StringRHS", look("l", tag("Arguments", "<ArrayElement>" + x + "<Index>" + i0 + "</Index></ArrayElement>"))))); }, {}});
  auto op = [&](string what, unsigned takes, std::function<string(string const &)> f) { p.push_back({"operand of " + what, takes, [f](string const &x) { return withRoot(emp("E", tag("StartCondition", tag("IsKnown", f(x))))); }, {}}); };
  for (string o : {"AND", "OR", "XOR"}) { op(o + " (first)", bit(B) | bit(U), [o](string const &x) { return tag(o, x + bv); }); op(o + " (second)", bit(B) | bit(U), [o](string const &x) { return tag(o, bv + x); }); op(o + " (third)", bit(B) | bit(U), [o](string const &x) { return tag(o, bv + bv + x); }); op(o + " (only)", bit(B) | bit(U), [o](string const &x) { return tag(o, x); }); }
  op("NOT", bit(B) | bit(U), [](string const &x) { return tag("NOT", x); });
  for (string o : {"ADD", "SUB", "MUL", "MAX", "MIN"}) { op(o + " (first)", NUM, [o](string const &x) { return tag(o, x + rv); }); op(o + " (second)", NUM, [o](string const &x) { return tag(o, iv + x); }); op(o + " (third)", NUM, [o](string const &x) { return tag(o, iv + iv + x); }); }
  for (string o : {"DIV", "MOD"}) { op(o + " (first)", NUM, [o](string const &x) { return tag(o, x + rv); }); op(o + " (second)", NUM, [o](string const &x) { return tag(o, iv + x); }); }
  for (string o : {"ABS", "SQRT", "CEIL", "FLOOR", "ROUND", "TRUNC"}) op(o, NUM, [o](string const &x) { return tag(o, x); });
  op("REAL_TO_INT", NUM, [](string const &x) { return tag("REAL_TO_INT", x); });
  for (string o : {"LT", "LE", "GT", "GE"}) { op(o + " with a number (first)", NUM, [o](string const &x) { return tag(o, x + rv); }); op(o + " with a number (second)", NUM, [o](string const &x) { return tag(o, iv + x); }); op(o + " with a string", bit(S) | bit(U), [o](string const &x) { return tag(o, x + sv); }); }
  for (string o : {"EQ", "NE"}) {
    op(o + "Numeric", NUM, [o](string const &x) { return tag(o + "Numeric", x + iv); }); op(o + "Numeric (second)", NUM, [o](string const &x) { return tag(o + "Numeric", rv + x); });
    op(o + "String", bit(S) | bit(U), [o](string const &x) { return tag(o + "String", x + sv); }); op(o + "String (second)", bit(S) | bit(U), [o](string const &x) { return tag(o + "String", sv + x); }); op(o + "Boolean", bit(B) | bit(U), [o](string const &x) { return tag(o + "Boolean", x + bv); }); op(o + "Boolean (second)", bit(B) | bit(U), [o](string const &x) { return tag(o + "Boolean", bv + x); });
    op(o + "Array", bit(AI) | bit(U), [o](string const &x) { return tag(o + "Array", x + av); }); op(o + "Internal with a state", bit(ST), [o](string const &x) { return tag(o + "Internal", x + "<NodeStateValue>WAITING</NodeStateValue>"); }); op(o + "Internal with an outcome", bit(OU), [o](string const &x) { return tag(o + "Internal", tag("NodeOutcomeVariable", root) + x); });
    op(o + "Internal with a failure", bit(FA), [o](string const &x) { return tag(o + "Internal", tag("NodeFailureVariable", root) + x); }); op(o + "Internal with a handle", bit(HA), [o](string const &x) { return tag(o + "Internal", "<NodeCommandHandleValue>COMMAND_DENIED</NodeCommandHandleValue>" + x); });
  }
  op("Concat (first)", bit(S) | bit(U), [](string const &x) { return tag("Concat", x + sv); }); op("Concat (third)", bit(S) | bit(U), [](string const &x) { return tag("Concat", sv + sv + x); }); op("STRLEN", bit(S) | bit(U), [](string const &x) { return tag("STRLEN", x); });
  for (string o : {"ArraySize", "ArrayMaxSize", "ALL_KNOWN", "ANY_KNOWN"}) op(o, ARRS, [o](string const &x) { return tag(o, x); });
  p.push_back({"operand of IsKnown", ALL, [](string const &x) { return exprIn(tag("IsKnown", x)); }, {}, INTERNAL});
  // names, arguments, tolerances
  p.push_back({"command name", bit(S) | bit(U), [](string const &x) { return withRoot(cmd("E", "", tag("Name", x))); }, {}});
  p.push_back({"lookup name", bit(S) | bit(U), [](string const &x) { return exprIn("<LookupNow>" + tag("Name", x) + "</LookupNow>"); }, {}});
  p.push_back({"watched lookup name", bit(S) | bit(U), [](string const &x) { return exprIn("<LookupOnChange>" + tag("Name", x) + "</LookupOnChange>"); }, {}});
  p.push_back({"tolerance", NUM, [](string const &x) { return exprIn("<IsKnown><LookupOnChange>" + name("q") + tag("Tolerance", x) + "</LookupOnChange></IsKnown>"); }, {}});
  p.push_back({"argument of an undeclared command", VALS, [](string const &x) { return withRoot(cmd("E", "", name("go") + tag("Arguments", i0 + x))); }, {}, INTERNAL});
  p.push_back({"argument of an undeclared lookup", VALS, [](string const &x) { return exprIn(look("q", tag("Arguments", x))); }, {}, INTERNAL});
  p.push_back({"value of an update", VALS, [](string const &x) { return withRoot(upd("E", "", "<Pair><Name>p</Name>" + x + "</Pair>")); }, {}, INTERNAL});
  for (int k = 0; k < 4; ++k) {
    string t = TN[k]; unsigned takes = k == 0 ? bit(B) | bit(U) : k == 1 ? bit(I) | bit(U) : k == 2 ? NUM : bit(S) | bit(U);
    p.push_back({"argument of a command declared " + t, takes, [t](string const &x) { return withRoot(cmd("E", "", name("go") + tag("Arguments", x)), "", cdecl_("go", "", param(t))); }, {}});
    p.push_back({"second argument of a command declared " + t, takes, [t](string const &x) { return withRoot(cmd("E", "", name("go") + tag("Arguments", i0 + x)), "", cdecl_("go", "", param("Integer") + param(t))); }, {}});
    p.push_back({"argument of a lookup declared " + t, takes, [t](string const &x) { return withRoot(emp("E", tag("StartCondition", look("q", tag("Arguments", x)))), "", sdecl("q", "Boolean", param(t))); }, {}});
    string lib = plan("", emp("Lib", "<Interface>" + tag("In", dv("p", t)) + "</Interface>"));
    p.push_back({"value for a library parameter declared " + t, takes, [](string const &x) { return withRoot(call("E", "", "Lib", "<Alias><NodeParameter>p</NodeParameter>" + x + "</Alias>")); }, {lib}, bit(U) | (k == 2 ? bit(I) : 0)});
  }
  p.push_back({"resource name", bit(S) | bit(U), [](string const &x) { return withRoot(cmd("E", "", "<ResourceList><Resource><ResourceName>" + x + "</ResourceName><ResourcePriority>" + i0 + "</ResourcePriority></Resource></ResourceList>" + name("go"))); }, {}});
  p.push_back({"resource priority", bit(I) | bit(U), [](string const &x) { return withRoot(cmd("E", "", "<ResourceList><Resource><ResourceName>" + sv + "</ResourceName><ResourcePriority>" + x + "</ResourcePriority></Resource></ResourceList>" + name("go"))); }, {}});
  p.push_back({"resource upper bound", NUM, [](string const &x) { return withRoot(cmd("E", "", "<ResourceList><Resource><ResourceName>" + sv + "</ResourceName><ResourcePriority>" + i0 + "</ResourcePriority><ResourceUpperBound>" + x + "</ResourceUpperBound></Resource></ResourceList>" + name("go"))); }, {}});
  p.push_back({"resource release at termination", bit(B) | bit(U), [](string const &x) { return withRoot(cmd("E", "", "<ResourceList><Resource><ResourceName>" + sv + "</ResourceName><ResourcePriority>" + i0 + "</ResourcePriority><ResourceReleaseAtTermination>" + x + "</ResourceReleaseAtTermination></Resource></ResourceList>" + name("go"))); }, {}});
  return p;
}
static void expectRule(string const &rule, string const &detail, vector<string> const &libs, string const &doc, bool accept) {
  H::cell("RU", pack(libs, doc)); Out o = judge("rule case: " + rule + ": " + detail, libs, doc); ++H::st.evaluations; ++H::st.counters[accept ? "rule cases to accept" : "rule cases to reject"];
  if (o.r == BAD || (o.r == ACCEPT && o.libs) == accept) return;   // a library that was refused leaves its predecessor in place
  H::violate((accept ? "refused: " : "accepted: ") + rule, detail + "\n" + (accept ? "refused with: " + o.why : "accepted, and should not be"), string("EXPECT\t") + (accept ? "1" : "0") + "\n" + pack(libs, doc));
}
static void typed(uint64_t &c) {
  for (auto &p : placesOf()) for (auto &e : exprs()) {
    if (p.open >> e.t & 1) continue; if (!H::mine(c++)) continue; if (H::full()) return;
    expectRule(string(TN[e.t]) + " expression as " + p.what, e.x, p.libs, p.doc(e.x), p.takes >> e.t & 1);
  }
}

// A reference from every place to a variable declared in every position.
struct Ref { string what; std::function<string(string const &)> node; };   // builds the node "N" given the name of an Integer variable
static string eqv(string const &v) { return tag("EQNumeric", tag("IntegerVariable", v) + i0); }
static vector<Ref> refs(bool read) {
  vector<Ref> r;
  if (read) {
    for (string c : {"StartCondition", "SkipCondition", "PreCondition", "InvariantCondition", "EndCondition", "ExitCondition", "PostCondition", "RepeatCondition"}) r.push_back({c, [c](string const &v) { return emp("N", "@" + tag(c, eqv(v))); }});
    r.push_back({"assigned value", [](string const &v) { return asg("N", "@" + vars(dv("own", "Integer")), "<IntegerVariable>own</IntegerVariable>", tag("NumericRHS", tag("IntegerVariable", v))); }});
    r.push_back({"index", [](string const &v) { return asg("N", vars("@@" + da("owna", "Integer")), arr("owna", tag("IntegerVariable", v)), tag("NumericRHS", i0)); }});
    r.push_back({"command argument", [](string const &v) { return cmd("N", "@", name("go") + tag("Arguments", tag("IntegerVariable", v))); }});
    r.push_back({"resource priority", [](string const &v) { return cmd("N", "@", "<ResourceList><Resource><ResourceName><StringValue>z</StringValue></ResourceName><ResourcePriority>" + tag("IntegerVariable", v) + "</ResourcePriority></Resource></ResourceList>" + name("go")); }});
    r.push_back({"update value", [](string const &v) { return upd("N", "@", "<Pair><Name>p</Name>" + tag("IntegerVariable", v) + "</Pair>"); }});
    r.push_back({"lookup argument", [](string const &v) { return emp("N", "@" + tag("StartCondition", look("q", tag("Arguments", tag("IntegerVariable", v))))); }});
    r.push_back({"tolerance", [](string const &v) { return emp("N", "@" + tag("StartCondition", "<LookupOnChange>" + name("q") + tag("Tolerance", tag("IntegerVariable", v)) + "</LookupOnChange>")); }});
    r.push_back({"library parameter", [](string const &v) { return call("N", "@", "LibI", "<Alias><NodeParameter>p</NodeParameter>" + tag("IntegerVariable", v) + "</Alias>"); }});
    r.push_back({"interface", [](string const &v) { return emp("N", "@<Interface>" + tag("In", dv(v, "Integer")) + "</Interface>"); }});
  }
  r.push_back({"assigned variable", [](string const &v) { return asg("N", "@", tag("IntegerVariable", v), tag("NumericRHS", i0)); }});
  r.push_back({"command result", [](string const &v) { return cmd("N", "@", tag("IntegerVariable", v) + name("go")); }});
  r.push_back({"library result parameter", [](string const &v) { return call("N", "@", "LibO", "<Alias><NodeParameter>o</NodeParameter>" + tag("IntegerVariable", v) + "</Alias>"); }});
  r.push_back({"in-out interface", [](string const &v) { return emp("N", "@<Interface>" + tag("InOut", dv(v, "Integer")) + "</Interface>"); }});
  return r;
}
static string const LIBI = plan("", emp("LibI", "<Interface>" + tag("In", dv("p", "Integer")) + "</Interface>")), LIBO = plan("", emp("LibO", "<Interface>" + tag("InOut", dv("o", "Integer")) + "</Interface>"));
static string own(string n, string const &decls) {   // declarations go where the node says
  size_t k = n.find("@@"); if (k != string::npos) return n.replace(k, 2, decls);
  k = n.find('@'); bool has = n.find("<VariableDeclarations>") != string::npos;
  if (decls.empty()) return n.replace(k, 1, "");
  if (!has) return n.replace(k, 1, vars(decls));
  n.replace(k, 1, ""); k = n.find("<VariableDeclarations>"); return n.insert(k + 22, decls);
}
static void scope(uint64_t &c) {
  string const D = dv("v", "Integer", i0);
  auto one = [&](string const &rule, string const &d, string const &doc, bool ok, vector<string> more = {}) { if (!H::mine(c++) || H::full()) return; vector<string> l{LIBI, LIBO}; for (auto &x : more) l.push_back(x); expectRule(rule, d, l, doc, ok); };
  for (auto &f : refs(true)) {
    bool iface = f.what.find("interface") != string::npos; string n = f.node("v"), plain = own(n, ""); string w = f.what + " naming a variable ";
    one(w + "of its own node", "", plan("", lst("Root", "", own(n, D))), !iface);
    one(w + "of the parent", "", plan("", lst("Root", vars(D), plain)), true);
    one(w + "of the grandparent", "", plan("", lst("Root", vars(D), lst("Mid", "", plain))), true);
    one(w + "of two ancestors", "", plan("", lst("Root", vars(D), lst("Mid", vars(D), plain))), true);
    one(w + "nobody declares", "", plan("", lst("Root", "", plain)), false);
    one(w + "nobody declares (root)", "", plan("", plain), false);
    one(w + "of a sibling", "", plan("", lst("Root", "", emp("Sib", vars(D)) + plain)), false);
    one(w + "of an uncle", "", plan("", lst("Root", "", emp("Unc", vars(D)) + lst("Mid", "", plain))), false);
    one(w + "of another type", "", plan("", lst("Root", vars(dv("v", "String", "<StringValue>x</StringValue>")), plain)), false);
    one(w + "of another type, hiding one of the right type", "", plan("", lst("Root", vars(D), lst("Mid", vars(dv("v", "Boolean", "<BooleanValue>true</BooleanValue>")), plain))), false);
    one(w + "that is an array", "", plan("", lst("Root", vars(da("v", "Integer")), plain)), false);
    one(w + "that is a mutex", "", plan("", lst("Root", vars("<DeclareMutex><Name>v</Name></DeclareMutex>"), plain)), false);
    // in a library: what the caller has is out of sight
    string lib = plan("", lst("LibX", "", plain));
    one(w + "of the caller of its library", "", plan("", lst("Root", vars(D), call("Call", vars(D), "LibX", ""))), false, {lib});
    string lib2 = plan("", lst("LibX", vars(D), plain));
    one(w + "of its library", "", plan("", lst("Root", "", call("Call", "", "LibX", ""))), true, {lib2});
  }
  // interface variables
  for (auto &f : refs(true)) {
    string n = f.node("v"); bool writes = f.what == "assigned variable" || f.what == "command result" || f.what == "library result parameter" || f.what == "in-out interface"; string plain = own(n, "");
    one(f.what + " naming an In variable of the parent", "", plan("", lst("Root", vars(D), lst("Mid", "<Interface>" + tag("In", dv("v", "Integer")) + "</Interface>", plain))), !writes);
    one(f.what + " naming an InOut variable of the parent", "", plan("", lst("Root", vars(D), lst("Mid", "<Interface>" + tag("InOut", dv("v", "Integer")) + "</Interface>", plain))), true);
    string lib = plan("", lst("LibX", "<Interface>" + tag("In", dv("v", "Integer")) + "</Interface>", plain)), libo = plan("", lst("LibX", "<Interface>" + tag("InOut", dv("v", "Integer")) + "</Interface>", plain));
    string al = "<Alias><NodeParameter>v</NodeParameter><IntegerVariable>k</IntegerVariable></Alias>";
    one(f.what + " naming an In parameter of its library", "", plan("", lst("Root", vars(dv("k", "Integer", i0)), call("Call", "", "LibX", al))), !writes, {lib});
    one(f.what + " naming an InOut parameter of its library", "", plan("", lst("Root", vars(dv("k", "Integer", i0)), call("Call", "", "LibX", al))), true, {libo});
    one(f.what + " naming an In parameter of its library that the caller leaves out", "", plan("", lst("Root", vars(dv("v", "Integer", i0)), call("Call", "", "LibX", ""))), false, {lib});
    one(f.what + " naming an InOut parameter of its library that the caller leaves out", "", plan("", lst("Root", vars(dv("v", "Integer", i0)), call("Call", "", "LibX", ""))), false, {libo});
  }
}
// References to nodes: by direction and by name.
static void nodeRefs(uint64_t &c) {
  // Root( A( B, C( D ) ), E( F ) ); the referring condition stands on node W
  struct N { string id, parent; }; vector<N> const t = {{"Root", ""}, {"A", "Root"}, {"B", "A"}, {"C", "A"}, {"D", "C"}, {"E", "Root"}, {"F", "E"}};
  auto par = [&](string const &x) { for (auto &n : t) if (n.id == x) return n.parent; return string(); };
  auto isList = [&](string const &x) { for (auto &n : t) if (n.parent == x) return true; return false; };
  std::function<string(string const &, string const &, string const &)> build = [&](string const &id, string const &w, string const &cond) -> string {
    string pre = id == w ? cond : "", kids; for (auto &n : t) if (n.parent == id) kids += build(n.id, w, cond);
    return isList(id) ? lst(id, pre, kids) : emp(id, pre); };
  vector<std::pair<string, std::function<string(string const &)>>> uses;
  for (string f : {"Executing", "Failed", "Finished", "Inactive", "IterationEnded", "NoChildFailed", "PostconditionFailed", "Skipped", "Succeeded", "Waiting"}) uses.push_back({f, [f](string const &r) { return tag(f, r); }});
  uses.push_back({"state", [](string const &r) { return tag("EQInternal", tag("NodeStateVariable", r) + "<NodeStateValue>FINISHED</NodeStateValue>"); }});
  uses.push_back({"outcome", [](string const &r) { return tag("EQInternal", tag("NodeOutcomeVariable", r) + "<NodeOutcomeValue>SUCCESS</NodeOutcomeValue>"); }});
  uses.push_back({"failure", [](string const &r) { return tag("EQInternal", tag("NodeFailureVariable", r) + "<NodeFailureValue>EXITED</NodeFailureValue>"); }});
  uses.push_back({"time point", [](string const &r) { return tag("IsKnown", "<NodeTimepointValue>" + r + "<NodeStateValue>EXECUTING</NodeStateValue><Timepoint>START</Timepoint></NodeTimepointValue>"); }});
  for (auto &w : t) for (auto &x : t) for (auto &u : uses) for (string cond : {"StartCondition", "EndCondition"}) {
    bool reach = x.id == w.id || par(x.id) == w.id; for (string a = w.id; !a.empty(); a = par(a)) reach |= x.id == a || x.parent == a;
    bool sib = !w.parent.empty() && x.parent == w.parent, kid = x.parent == w.id;
    auto one = [&](string const &how, string const &ref, bool ok) { if (!H::mine(c++) || H::full()) return; expectRule(u.first + " of " + how, w.id + " refers to " + x.id, {}, plan("", build("Root", w.id, tag(cond, u.second(ref)))), ok); };
    one(reach ? "a reachable node by name" : "a node out of reach by name", tag("NodeId", x.id), reach);
    one(sib ? "a sibling" : "a sibling that is none", "<NodeRef dir='sibling'>" + x.id + "</NodeRef>", sib);
    one(kid ? "a child" : "a child that is none", "<NodeRef dir='child'>" + x.id + "</NodeRef>", kid);
    if (x.id == w.id) { one("itself", "<NodeRef dir='self'/>", true); one(w.parent.empty() ? "the parent of the root" : "the parent", "<NodeRef dir='parent'/>", !w.parent.empty()); one("nobody", "<NodeId>Nobody</NodeId>", false); one("a direction that does not exist", "<NodeRef dir='uncle'>" + x.id + "</NodeRef>", false); }
  }
}
// Things given twice, left out, or in the wrong kind of node.
static void structure(uint64_t &c) {
  auto one = [&](string const &rule, string const &doc, bool ok, vector<string> libs = {}) { if (!H::mine(c++) || H::full()) return; expectRule(rule, doc.substr(0, 200), libs, doc, ok); };
  string D = dv("v", "Integer", i0), M = "<DeclareMutex><Name>v</Name></DeclareMutex>", A = da("v", "Integer"); vector<std::pair<string, string>> decl = {{"a variable", D}, {"an array", A}, {"a mutex", M}};
  for (auto &x : decl) for (auto &y : decl) for (bool list : {true, false}) one("one node declares " + x.first + " and " + y.first + " of the same name", plan("", list ? lst("Root", vars(x.second + y.second), "") : emp("Root", vars(x.second + y.second))), false);
  for (auto &x : decl) for (string io : {"In", "InOut"}) if (x.first != "a mutex") for (auto &y : decl) if (y.first != "a mutex") {
    string wi = "<Interface>" + tag(io, y.second) + "</Interface>";
    one("an interface variable has the name of a local one", plan("", lst("Root", vars(x.second), lst("N", wi + vars(x.second), ""))), false);
    one("an interface declares a name twice", plan("", lst("Root", vars(x.second), lst("N", "<Interface>" + tag(io, x.second + y.second) + "</Interface>", ""))), false);
  }
  one("an interface declares a name In and InOut", plan("", lst("Root", vars(D), lst("N", "<Interface>" + tag("In", D) + tag("InOut", D) + "</Interface>", ""))), false);
  // nodes of the same name
  for (int k = 0; k < 3; ++k) {
    auto mk = [&](string id, int kind) { return kind == 0 ? emp(id, "") : kind == 1 ? lst(id, "", "") : cmd(id, "", name("go")); };
    for (int j = 0; j < 3; ++j) {
      one("siblings of the same name", plan("", lst("Root", "", mk("A", k) + mk("A", j))), false); one("siblings of the same name, not adjacent", plan("", lst("Root", "", mk("A", k) + emp("B", "") + mk("A", j))), false);
      one("siblings of the same name, deeper", plan("", lst("Root", "", lst("L", "", mk("A", k) + mk("A", j)))), false); one("cousins of the same name", plan("", lst("Root", "", lst("L", "", mk("A", k)) + lst("K", "", mk("A", j)))), true);
    }
    one("a child has the name of its parent", plan("", lst("Root", "", mk("Root", k))), false); one("a child has the name of its parent, deeper", plan("", lst("Root", "", lst("L", "", emp("K", "") + mk("L", k)))), false);
  }
  // elements of a node given twice, or left out
  vector<std::pair<string, string>> el = {{"NodeId", "<NodeId>N</NodeId>"}, {"VariableDeclarations", vars(dv("w", "Integer"))}, {"Interface", "<Interface/>"}, {"UsingMutex", "<UsingMutex><Name>m</Name></UsingMutex>"}};
  for (string x : {"StartCondition", "SkipCondition", "PreCondition", "InvariantCondition", "EndCondition", "ExitCondition", "PostCondition", "RepeatCondition"}) el.push_back({x, tag(x, "<BooleanValue>false</BooleanValue>")});
  vector<std::pair<string, string>> kinds = {{"Empty", ""}, {"NodeList", LISTB("")}, {"Assignment", "<NodeBody><Assignment><IntegerVariable>i</IntegerVariable><NumericRHS><IntegerValue>0</IntegerValue></NumericRHS></Assignment></NodeBody>"}, {"Command", "<NodeBody><Command>" NM("go") "</Command></NodeBody>"}, {"Update", "<NodeBody><Update/></NodeBody>"}, {"LibraryNodeCall", "<NodeBody><LibraryNodeCall><NodeId>LibE</NodeId></LibraryNodeCall></NodeBody>"}};
  string libE = plan("", emp("LibE", "")), rv2 = vars(dv("i", "Integer", i0) + "<DeclareMutex><Name>m</Name></DeclareMutex>");
  for (auto &k : kinds) {
    auto node = [&](string const &type, string const &extra, string const &body, string const &id = "<NodeId>N</NodeId>") { return plan("", lst("Root", rv2, "<Node NodeType='" + type + "'>" + id + extra + body + "</Node>")); };
    one(k.first + " node", node(k.first, "", k.second), true, {libE});
    one(k.first + " node without a name", node(k.first, "", k.second, ""), false, {libE}); one(k.first + " node with an empty name", node(k.first, "", k.second, "<NodeId/>"), false, {libE});
    one("node without a type", plan("", lst("Root", rv2, "<Node><NodeId>N</NodeId>" + k.second + "</Node>")), false, {libE});
    if (k.first != "Empty") { one(k.first + " node without a body", node(k.first, "", ""), false, {libE}); one(k.first + " node with an empty body", node(k.first, "", "<NodeBody/>"), false, {libE}); one(k.first + " node with two bodies", node(k.first, "", k.second + k.second), false, {libE}); }
    one(k.first + " node with an element nobody knows", node(k.first, "<Bogus/>", k.second), false, {libE});
    for (auto &e : el) { if (e.first != "NodeId") one(k.first + " node with one " + e.first, node(k.first, e.second, k.second), true, {libE}); one(k.first + " node with two of " + e.first, node(k.first, e.second + (e.first == "NodeId" ? "" : e.second), k.second), false, {libE}); }
    for (auto &o : kinds) if (o.first != k.first && o.first != "Empty") one(k.first + " node with the body of " + o.first, node(k.first, "", o.second), false, {libE});
  }
  // priorities
  for (auto &p : vector<std::pair<string, bool>>{{"0", true}, {"1", true}, {"99999", true}, {"-1", false}, {"x", false}, {"1x", false}, {"", false}, {"1.5", false}, {"99999999999999999999", false}, {"4294967296", false}}) one("priority " + p.first, plan("", lst("Root", vars(D), asg("N", "<Priority>" + p.first + "</Priority>", "<IntegerVariable>v</IntegerVariable>", tag("NumericRHS", i0)))), p.second);
  // mutexes
  string use = "<UsingMutex><Name>m</Name></UsingMutex>", dm = "<DeclareMutex><Name>m</Name></DeclareMutex>";
  for (int w = 0; w < 4; ++w) {
    auto user = [&](string const &own) { return w == 0 ? emp("N", own + use) : w == 1 ? lst("N", own + use, "") : w == 2 ? cmd("N", own + use, name("go")) : upd("N", own + use, ""); };
    one("mutex of the node itself", plan("", lst("Root", "", user(vars(dm)))), true); one("mutex of the parent", plan("", lst("Root", vars(dm), user(""))), true); one("mutex of the grandparent", plan("", lst("Root", vars(dm), lst("L", "", user("")))), true); one("global mutex", plan(dm, lst("Root", "", user(""))), true); one("global mutex, deep", plan(dm, lst("Root", "", lst("L", "", user("")))), true);
    one("undeclared mutex", plan("", lst("Root", "", user(""))), false); one("mutex of a sibling", plan("", lst("Root", "", emp("S", vars(dm)) + user(""))), false); one("mutex that is a variable", plan("", lst("Root", vars(dv("m", "Integer")), user(""))), false); one("mutex of a child", plan("", lst("Root", use, lst("N", vars(dm), ""))), false);
  }
  one("mutex named twice", plan(dm, emp("N", "<UsingMutex><Name>m</Name><Name>m</Name></UsingMutex>")), false);
  // global declarations given twice
  vector<std::pair<string, string>> gl = {{"command", cdecl_("g", "Integer")}, {"lookup", sdecl("g", "Integer")}, {"mutex", "<DeclareMutex><Name>g</Name></DeclareMutex>"}, {"library", "<LibraryNodeDeclaration><Name>LibE</Name><Interface/></LibraryNodeDeclaration>"}};
  for (auto &g : gl) { one(g.first + " declared once", plan(g.second, emp("N", "")), true, {libE}); one(g.first + " declared twice", plan(g.second + g.second, emp("N", "")), false, {libE}); }
  // numbers of operands
  struct Ops { string op, arg; unsigned lo, hi; };
  vector<Ops> ops; for (string o : {"AND", "OR", "XOR"}) ops.push_back({o, bv, 1, 99}); ops.push_back({"NOT", bv, 1, 1}); for (string o : {"ADD", "SUB", "MUL", "MAX", "MIN"}) ops.push_back({o, iv, 1, 99}); for (string o : {"DIV", "MOD"}) ops.push_back({o, iv, 2, 2}); for (string o : {"ABS", "SQRT", "CEIL", "FLOOR", "ROUND", "TRUNC", "REAL_TO_INT"}) ops.push_back({o, rv, 1, 1});
  for (string o : {"LT", "LE", "GT", "GE", "EQNumeric", "NENumeric"}) ops.push_back({o, iv, 2, 2}); for (string o : {"EQString", "NEString"}) ops.push_back({o, sv, 2, 2}); for (string o : {"EQBoolean", "NEBoolean"}) ops.push_back({o, bv, 2, 2}); for (string o : {"EQArray", "NEArray"}) ops.push_back({o, av, 2, 2}); ops.push_back({"Concat", sv, 1, 99}); ops.push_back({"STRLEN", sv, 1, 1}); for (string o : {"ArraySize", "ArrayMaxSize", "ALL_KNOWN", "ANY_KNOWN"}) ops.push_back({o, av, 1, 1}); ops.push_back({"IsKnown", iv, 1, 1});
  for (string o : {"Executing", "Failed", "Finished", "Inactive", "IterationEnded", "NoChildFailed", "PostconditionFailed", "Skipped", "Succeeded", "Waiting"}) ops.push_back({o, root, 1, 1});
  for (auto &o : ops) for (unsigned n = 0; n <= 4; ++n) { if (n == 0 && (o.op == "Concat" || o.hi == 99)) continue; string a; for (unsigned k = 0; k < n; ++k) a += o.arg; one(o.op + " with " + std::to_string(n) + " operands", exprIn(tag("IsKnown", tag(o.op, a))), n >= o.lo && n <= o.hi); }
  // numbers of arguments of declared commands, lookups
  for (unsigned np = 0; np <= 3; ++np) for (int any = 0; any < 2; ++any) for (unsigned na = 0; na <= 4; ++na) {
    string ps, as; for (unsigned k = 0; k < np; ++k) ps += param("Integer"); if (any) ps += "<AnyParameters/>"; for (unsigned k = 0; k < na; ++k) as += iv; if (na) as = tag("Arguments", as);
    bool ok = any ? na >= np : na == np; string n = std::to_string(np) + (any ? " or more" : "") + " parameters used with " + std::to_string(na);
    one("command declared with " + n, withRoot(cmd("N", "", name("q") + as), "", cdecl_("q", "", ps)), ok); one("lookup declared with " + n, withRoot(emp("N", tag("StartCondition", look("q", as))), "", sdecl("q", "Boolean", ps)), ok);
    one("watched lookup declared with " + n, withRoot(emp("N", tag("StartCondition", "<LookupOnChange>" + name("q") + as + "</LookupOnChange>")), "", sdecl("q", "Boolean", ps)), ok);
  }
  // library calls
  string lib = plan("", lst("LibP", "<Interface>" + tag("In", dv("p", "Integer") + dv("d", "Integer", i0)) + tag("InOut", dv("o", "Integer")) + "</Interface>", ""));
  auto al = [](string const &n, string const &x) { return "<Alias><NodeParameter>" + n + "</NodeParameter>" + x + "</Alias>"; };
  auto lc = [&](string const &rule, string const &a, bool ok, string l = "LibP") { one("library call: " + rule, withRoot(call("N", "", l, a)), ok, {lib}); };
  lc("all", al("p", iv) + al("d", iv) + al("o", iv), true); lc("default used", al("p", iv) + al("o", iv), true); lc("In left out", al("o", iv), false); lc("InOut left out", al("p", iv), false); lc("In given twice", al("p", iv) + al("p", iv) + al("o", iv), false); lc("InOut given twice", al("p", iv) + al("o", iv) + al("o", iv), false);
  lc("InOut given a value", al("p", iv) + al("o", i0), false); lc("InOut given an expression", al("p", iv) + al("o", tag("ADD", iv + iv)), false); lc("InOut of another type", al("p", iv) + al("o", rv), false); lc("In given an expression", al("p", tag("ADD", iv + iv)) + al("o", iv), true); lc("empty alias", al("p", "") + al("o", iv), false); lc("unnamed alias", al("", iv) + al("p", iv) + al("o", iv), false); lc("library that does not exist", "", false, "NoSuchLib");
  string libA = plan("", lst("LibArr", "<Interface>" + tag("In", "<DeclareArray><Name>p</Name><Type>Integer</Type><MaxSize>4</MaxSize></DeclareArray>") + "</Interface>", ""));
  for (int n = 0; n <= 3; ++n) for (string ty : {"Integer", "Real", "String", "Boolean", "IntegerValue"}) for (string el : {"IntegerValue", "RealValue"}) { if (!n && el != "IntegerValue") continue; string v; for (int k = 0; k < n; ++k) v += tag(el, k == 1 ? "UNKNOWN" : "3");
    one("library call: array parameter given " + std::to_string(n) + " " + el + " of type " + ty, withRoot(call("N", "", "LibArr", al("p", "<ArrayValue Type=\"" + ty + "\">" + v + "</ArrayValue>"))), ty == "Integer" && (!n || el == "IntegerValue"), {libA}); }
  one("a library calls itself", plan("", call("N", "", "LibSelf", "")), false, {plan("", lst("LibSelf", "", call("C", "", "LibSelf", "")))});
  one("two libraries call each other", plan("", call("N", "", "LibSelfA", "")), false, {plan("", lst("LibSelfA", "", call("C", "", "LibE", ""))), plan("", lst("LibSelfB", "", call("C", "", "LibSelfA", ""))), plan("", lst("LibSelfA", "", call("C", "", "LibSelfB", ""))) });
}
// Every sequence of names in every place where a name may be given only once: accepted exactly when no name comes twice, however far apart.
static void sequences(uint64_t &c) {
  auto one = [&](string const &rule, string const &doc, bool ok, vector<string> libs = {}) { if (!H::mine(c++) || H::full()) return; expectRule(rule, doc.substr(0, 200), libs, doc, ok); };
  string libQ = plan("", lst("LibQ", "<Interface>" + tag("In", dv("a", "Integer", i0) + dv("b", "Integer", i0) + dv("c", "Integer", i0) + dv("d", "Integer", i0)) + "</Interface>", "")), libE = plan("", emp("LibE", ""));
  string four; for (string n : {"a", "b", "c", "d"}) four += dv(n, "Integer", i0);
  string fourM; for (string n : {"a", "b", "c", "d"}) fourM += "<DeclareMutex><Name>" + n + "</Name></DeclareMutex>";
  struct Place { string what; std::function<string(string const &, int)> item; std::function<string(string const &)> wrap; vector<string> libs; };
  auto mtx = [](string const &n) { return "<DeclareMutex><Name>" + n + "</Name></DeclareMutex>"; };
  vector<Place> ps = {
    {"local variables", [](string const &n, int) { return dv(n, "Integer", i0); }, [](string const &x) { return plan("", lst("Root", vars(x), "")); }, {}},
    {"local arrays", [](string const &n, int) { return da(n, "Integer"); }, [](string const &x) { return plan("", lst("Root", vars(x), "")); }, {}},
    {"local variables, arrays and mutexes in turn", [=](string const &n, int i) { return i % 3 == 0 ? dv(n, "Integer", i0) : i % 3 == 1 ? mtx(n) : da(n, "Integer"); }, [](string const &x) { return plan("", lst("Root", vars(x), "")); }, {}},
    {"local mutexes", [=](string const &n, int) { return mtx(n); }, [](string const &x) { return plan("", lst("Root", vars(x), "")); }, {}},
    {"In variables", [](string const &n, int) { return dv(n, "Integer"); }, [=](string const &x) { return plan("", lst("Root", vars(four), lst("N", "<Interface>" + tag("In", x) + "</Interface>", ""))); }, {}},
    {"InOut variables", [](string const &n, int) { return dv(n, "Integer"); }, [=](string const &x) { return plan("", lst("Root", vars(four), lst("N", "<Interface>" + tag("InOut", x) + "</Interface>", ""))); }, {}},
    {"children", [](string const &n, int i) { return i % 2 ? cmd(n, "", name("go")) : emp(n, ""); }, [](string const &x) { return plan("", lst("Root", "", x)); }, {}},
    {"mutexes used", [](string const &n, int) { return tag("Name", n); }, [=](string const &x) { return plan(fourM, emp("Root", "<UsingMutex>" + x + "</UsingMutex>")); }, {}},
    {"global commands", [](string const &n, int) { return cdecl_(n, "Integer"); }, [](string const &x) { return plan(x, emp("Root", "")); }, {}},
    {"global lookups", [](string const &n, int) { return sdecl(n, "Integer"); }, [](string const &x) { return plan(x, emp("Root", "")); }, {}},
    {"global mutexes", [=](string const &n, int) { return mtx(n); }, [](string const &x) { return plan(x, emp("Root", "")); }, {}},
    {"library aliases", [](string const &n, int) { return "<Alias><NodeParameter>" + n + "</NodeParameter>" + i0 + "</Alias>"; }, [](string const &x) { return withRoot(call("N", "", "LibQ", x)); }, {libQ}},
  };
  int depth = H::args.thorough ? 5 : 4; vector<string> names = {"a", "b", "c", "d"};
  for (auto &p : ps) {
    vector<int> seq;
    std::function<void()> rec = [&]() {
      if (H::full()) return;
      if (!seq.empty()) { bool ok = true; string x; std::set<int> used; for (size_t i = 0; i < seq.size(); ++i) { x += p.item(names[seq[i]], i); ok = used.insert(seq[i]).second && ok; }
        one(p.what + (ok ? ", all different" : ", one name twice"), p.wrap(x), ok, p.libs); }
      if ((int)seq.size() == depth) return;
      int hi = 0; for (int k : seq) hi = std::max(hi, k + 1);
      for (int k = 0; k <= hi && k < 4; ++k) { seq.push_back(k); rec(); seq.pop_back(); } }; // names in order of first use: the others are renamings
    rec();
  }
}
static void all() { uint64_t c = 0; sequences(c); typed(c); scope(c); nodeRefs(c); structure(c); }
static void replay(string const &b) { vector<string> libs; string doc; unpack(b, libs, doc); size_t k = b.find("EXPECT\t"); expectRule("replayed", "", libs, doc, k == string::npos || b[k + 7] == '1'); }
}
