// The test executive (src/apps/TestExec), run as a whole: scripted values (TV), scripted events in sequence (TS), command lines (TR).
#include "harness.hh"
#include "Error.hh"
#include "PlanError.hh"
#include "ParserException.hh"
#include <algorithm>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
int te_main(int, char **); int ue_main(int, char **);
using H::string; using H::vector; using std::to_string;
namespace {
vector<int> ints(string const &b) { std::stringstream s(b); vector<int> v; int x; while (s >> x) v.push_back(x); return v; }
string tag(string const &t, string const &x, string const &a = "") { return "<" + t + a + ">" + x + "</" + t + ">"; }
string esc(string const &s) { string o; for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : string(1, c); return o; }
string attr(string const &n, string const &v) { return " " + n + "=\"" + esc(v) + "\""; }
string S(string const &s) { return tag("StringValue", esc(s)); }
string I(int n) { return tag("IntegerValue", to_string(n)); }
string look(string const &n, string const &args = "", bool chg = false) { return tag(chg ? "LookupOnChange" : "LookupNow", tag("Name", S(n)) + (args.empty() ? "" : tag("Arguments", args))); }
string eqn(string const &a, string const &b) { return tag("EQNumeric", a + b); }
string known(string const &a) { return tag("IsKnown", a); }
string cond(string const &k, string const &e) { return tag(k + "Condition", e); }
string node(string const &type, string const &id, string const &decls, string const &conds, string const &body) {
  return tag("Node", tag("NodeId", id) + (decls.empty() ? "" : tag("VariableDeclarations", decls)) + conds + body, attr("NodeType", type)); }
string command(string const &name, string const &args, string const &ret = "") { return tag("NodeBody", tag("Command", ret + tag("Name", S(name)) + (args.empty() ? "" : tag("Arguments", args)))); }
string print(string const &id, string const &conds, string const &args) { return node("Command", id, "", conds, command("print", args)); }
string list(string const &id, string const &decls, string const &conds, string const &kids) { return node("NodeList", id, decls, conds, tag("NodeBody", tag("NodeList", kids))); }
string planx(string const &n) { return tag("PlexilPlan", n); }
string var(string const &n, string const &t, string const &init = "") { return tag("DeclareVariable", tag("Name", n) + tag("Type", t) + (init.empty() ? "" : tag("InitialValue", init))); }

string g_dir;
void put(string const &f, string const &x) { std::ofstream o(g_dir + "/" + f); o << x; }
struct Res { string out; int code = -1; string what; bool ran() const { return code == 0; } };
// Runs the test executive on a command line in a process of its own; code: exit code, 100 an error reported by an exception, 1000 + n killed by signal n, 2000 no end.
struct Job { pid_t pid; int fd; };
Job start(vector<string> a, int (*prog)(int, char **)) {
  int p[2]; if (pipe(p)) abort();
  fflush(stdout);
  pid_t k = fork();
  if (!k) {
    dup2(p[1], 1); close(p[0]); close(p[1]);
    int n = open(getenv("TE_VERBOSE") ? "/dev/stderr" : "/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2);
    if (chdir(g_dir.c_str())) _exit(99);
    alarm(20);
    a.insert(a.begin(), "TestExec"); vector<char *> v; for (auto &s : a) v.push_back(const_cast<char *>(s.c_str())); v.push_back(nullptr);
    int r = 100;
    try { r = prog((int) v.size() - 1, v.data()); std::cout << std::flush; }
    catch (std::exception const &e) { std::cout << std::flush << "\n!!" << e.what() << std::flush; }
    catch (...) { std::cout << std::flush << "\n!!" << std::flush; }
    _exit(r);
  }
  close(p[1]); return {k, p[0]};
}
Res finish(Job const &j) {
  Res r; char b[4096]; ssize_t n; while ((n = read(j.fd, b, sizeof b)) > 0) r.out.append(b, n);
  close(j.fd); int s; waitpid(j.pid, &s, 0);
  r.code = WIFEXITED(s) ? WEXITSTATUS(s) : WTERMSIG(s) == SIGALRM ? 2000 : 1000 + WTERMSIG(s);
  size_t e = r.out.find("\n!!"); if (e != string::npos) { r.what = r.out.substr(e + 3); r.out.resize(e); }
  for (size_t i; (i = r.out.find("[unknown_value]")) != string::npos;) r.out.replace(i, 15, "UNKNOWN");
  return r;
}
Res run(vector<string> const &a, int (*prog)(int, char **) = te_main) { return finish(start(a, prog)); }
string marks(string const &s) { string got; for (size_t i = 0; i + 2 < s.size(); ++i) if (s[i] == '{' && s[i + 2] == '}') got += s[i + 1]; std::sort(got.begin(), got.end()); if (s.find("ran") != string::npos) got += "ran"; return got; }
string say(Res const &r) { return (r.code == 0 ? string("a normal end") : r.code == 100 ? "an error (" + r.what.substr(0, 160) + ")" : r.code >= 2000 ? string("no end") : r.code >= 1000 ? "death by signal " + to_string(r.code - 1000) : "exit code " + to_string(r.code)) + ", output \"" + r.out + "\""; }
Res script(string const &plan, string const &init, string const &body) {
  put("p.plx", plan); put("s.psx", tag("PLEXILScript", (init.empty() ? "" : tag("InitialState", init)) + tag("Script", body)));
  return run({"-p", "p.plx", "-s", "s.psx", "+d", "+r"});
}
string params(vector<std::pair<string, string>> const &ps) { string o; for (auto &p : ps) o += tag("Param", esc(p.second), p.first.empty() ? "" : attr("type", p.first)); return o; }
string state(string const &n, string const &type, vector<string> const &vals, string const &ps = "") { string o = ps; for (auto &v : vals) o += tag("Value", esc(v)); return tag("State", o, attr("name", n) + attr("type", type)); }
string cmd(string const &el, string const &n, string const &type, vector<string> const &vals, string const &ps = "") { string o = ps; for (auto &v : vals) o += tag("Result", esc(v)); return tag(el, o, attr("name", n) + attr("type", type)); }
string ack(string const &n, string const &h, string const &ps = "") { return cmd("CommandAck", n, "string", {h}, ps); }

// ---- TV: every scripted value is the value plans read
struct Val { char const *type, *text, *shown, *lit; }; // shown: as print writes it; lit: the literal of a plan with this value (unknown: none)
vector<Val> const VALS = {
  {"bool", "true", "true", "<BooleanValue>true</BooleanValue>"}, {"bool", "TRUE", "true", "<BooleanValue>true</BooleanValue>"}, {"bool", "1", "true", "<BooleanValue>true</BooleanValue>"},
  {"bool", "false", "false", "<BooleanValue>false</BooleanValue>"}, {"bool", "False", "false", "<BooleanValue>false</BooleanValue>"}, {"bool", "0", "false", "<BooleanValue>false</BooleanValue>"}, {"bool", "Plexil_Unknown", "UNKNOWN", ""},
  {"int", "0", "0", "<IntegerValue>0</IntegerValue>"}, {"int", "1", "1", "<IntegerValue>1</IntegerValue>"}, {"int", "-7", "-7", "<IntegerValue>-7</IntegerValue>"}, {"int", "2147483647", "2147483647", "<IntegerValue>2147483647</IntegerValue>"},
  {"int", "-2147483648", "-2147483648", "<IntegerValue>-2147483648</IntegerValue>"}, {"int", "Plexil_Unknown", "UNKNOWN", ""},
  {"real", "0.5", "0.5", "<RealValue>0.5</RealValue>"}, {"real", "-2.25", "-2.25", "<RealValue>-2.25</RealValue>"}, {"real", "1e3", "1000", "<RealValue>1000.0</RealValue>"}, {"real", "3", "3", "<RealValue>3.0</RealValue>"}, {"real", "123456.789", "123456.789", "<RealValue>123456.789</RealValue>"},
  {"real", "Plexil_Unknown", "UNKNOWN", ""},
  {"string", "abc", "abc", "<StringValue>abc</StringValue>"}, {"string", "a b", "a b", "<StringValue>a b</StringValue>"}, {"string", " a ", " a ", "<StringValue> a </StringValue>"}, {"string", "1", "1", "<StringValue>1</StringValue>"}, {"string", "true", "true", "<StringValue>true</StringValue>"},
  {"string", "<&>", "<&>", "<StringValue>&lt;&amp;></StringValue>"}, {"string", "unknown", "unknown", "<StringValue>unknown</StringValue>"}, {"string", "", "", "<StringValue></StringValue>"}, {"string", "Plexil_Unknown", "UNKNOWN", ""}};
char const *const PT[] = {"Boolean", "Integer", "Real", "String"};
int tidx(string const &t) { return t.find("bool") == 0 ? 0 : t.find("int") == 0 ? 1 : t.find("real") == 0 ? 2 : 3; }
void bad(string const &key, string const &what, string const &rep) { H::violate(key, what, rep); }

// where: 0 initial state, 1 script, 2 script after another value, 3 command result, 4 as a lookup's parameter, 5 as a command's parameter, 6 scripted inside Simultaneous
void runTV(vector<int> const &c) {
  int where = c[0]; Val const &v = VALS[c[1]]; string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TV", rep); ++H::st.executions; H::distinct("TV " + rep);
  string t = PT[tidx(v.type)];
  string pr = "(";
  if (where <= 2 || where == 6) {
    string show = list("R", var("v", t), "", node("Assignment", "A", "", cond("Start", known(look("go", "", true))), tag("NodeBody", tag("Assignment", tag(t + "Variable", "v") + tag("NumericRHS", look("x")))))
      + print("P", cond("Start", tag("EQInternal", tag("NodeStateVariable", tag("NodeId", "A")) + tag("NodeStateValue", "FINISHED"))), S("(") + tag(t + "Variable", "v") + S(")") + known(look("x"))));
    if (t == "String") { size_t i; while ((i = show.find("NumericRHS")) != string::npos) show.replace(i, 10, "StringRHS"); }
    if (t == "Boolean") { size_t i; while ((i = show.find("NumericRHS")) != string::npos) show.replace(i, 10, "BooleanRHS"); }
    string other = t == "Boolean" ? "1" : t == "String" ? "zz" : "4", go = state("go", "int", {"1"}), st = state("x", v.type, {v.text});
    Res r = script(planx(show), where == 0 ? st : "", (where == 0 ? go : where == 1 ? st + go : where == 6 ? tag("Simultaneous", go + st) : state("x", v.type, {other}) + st + go));
    string want = string("(") + v.shown + ")" + (*v.lit ? "true" : "false");
    if (r.code != 0 || r.out != want) bad("value", string("state x of type ") + v.type + " scripted as \"" + v.text + "\" (" + (where == 0 ? "initially" : "in the script") + "): " + say(r) + ", expected \"" + want + "\"", rep);
  } else if (where == 3) {
    if (!*v.text) { Res r = script(planx(node("Command", "C", var("v", t), "", command("foo", "", tag(t + "Variable", "v")))), "", cmd("Command", "foo", v.type, {v.text})); if (r.code >= 1000) bad("crash", "an empty result: " + say(r), rep); return; } // whether an empty result is an error is left open
    string plan = list("R", var("v", t), "", node("Command", "C", "", "", command("foo", "", tag(t + "Variable", "v"))) + print("P", cond("Start", known(look("go", "", true))), S("(") + tag(t + "Variable", "v") + S(")")));
    Res r = script(planx(plan), "", cmd("Command", "foo", v.type, {v.text}) + ack("foo", "COMMAND_SUCCESS") + state("go", "int", {"1"}));
    string want = string("(") + v.shown + ")";
    if (r.code != 0 || r.out != want) bad("result", string("result of type ") + v.type + " scripted as \"" + v.text + "\": " + say(r) + ", expected \"" + want + "\"", rep);
  }
}
// A state or command with the parameters given by values a (and b) of the table, asked for by a plan with those of c (and d).
void runTP(vector<int> const &c) {
  bool com = c[0]; vector<int> g, w; for (int i = 0; i < c[1]; ++i) g.push_back(c[2 + i]); for (size_t i = 2 + c[1]; i < c.size(); ++i) w.push_back(c[i]);
  string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TP", rep); ++H::st.executions; H::distinct("TP " + rep);
  vector<std::pair<string, string>> ps; string args; string text;
  for (int i : g) { ps.push_back({VALS[i].type, VALS[i].text}); text += string(VALS[i].type) + " \"" + VALS[i].text + "\" "; }
  text += "scripted, wanted "; for (int i : w) { args += VALS[i].lit; text += string(VALS[i].type) + " \"" + VALS[i].text + "\" "; }
  // 1 the same, 0 different, 2 left open (an Integer and a Real of one value)
  int same = g.size() == w.size() ? 1 : 0;
  if (same) for (size_t i = 0; i < g.size(); ++i) { Val const &a = VALS[g[i]], &b = VALS[w[i]]; if (string(a.lit) == b.lit) continue; bool na = *a.type == 'i' || *a.type == 'r', nb = *b.type == 'i' || *b.type == 'r'; if (na && nb && *a.type != *b.type && string(a.shown) == b.shown) { same = 2; continue; } same = 0; break; }
  if (!com) {
    Res r = script(planx(print("P", cond("Start", known(look("go", "", true))), S("(") + look("x", args) + S(")"))), "", state("x", "int", {"5"}, params(ps)) + state("go", "int", {"1"}));
    if (r.code != 0 || (same == 2 ? r.out != "(5)" && r.out != "(UNKNOWN)" : r.out != (same ? "(5)" : "(UNKNOWN)"))) bad("state-parameters", "a state with parameters " + text + ": " + say(r), rep);
  } else {
    Res r = script(planx(list("R", "", "", node("Command", "C", "", "", command("foo", args)) + print("P", cond("Start", tag("EQInternal", tag("NodeStateVariable", tag("NodeId", "C")) + tag("NodeStateValue", "FINISHED"))), S("done")))), "", ack("foo", "COMMAND_SUCCESS", params(ps)));
    bool ok = r.code == 0 && r.out == "done", err = r.code == 100 && r.out.empty();
    if (same == 2 ? !ok && !err : same ? !ok : !err) bad("command-parameters", "an acknowledgement for a command with parameters " + text + ": " + say(r) + (same ? ", expected the command to succeed" : ", expected an error: no such command was sent"), rep);
  }
}
// A command with an unknown argument is answered by a script that says so, in either spelling.
void runTU(vector<int> const &c) {
  string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TU", rep); ++H::st.executions; H::distinct("TU " + rep);
  static char const *T[] = {"bool", "int", "real", "string"}; static char const *K[] = {"true", "5", "2.5", "ab"}; static char const *U[] = {"UNKNOWN", "Plexil_Unknown"};
  int t = c[0]; bool plan = c[1]; int sc = c[2]; // the plan's argument is unknown; the script's is: 0 known, 1 or 2 unknown
  string lit = tag(string(PT[t]) + "Value", K[t]);
  Res r = script(planx(list("R", var("v", PT[t], plan ? "" : lit), "", node("Command", "C", "", "", command("foo", tag(string(PT[t]) + "Variable", "v"))) + print("P", cond("Start", tag("EQInternal", tag("NodeStateVariable", tag("NodeId", "C")) + tag("NodeStateValue", "FINISHED"))), S("done")))), "", ack("foo", "COMMAND_SUCCESS", params({{T[t], sc ? U[sc - 1] : K[t]}})));
  bool same = plan == (sc > 0), ok = r.code == 0 && r.out == "done", err = r.code == 100 && r.out.empty();
  if (same ? !ok : !err) bad("unknown-parameters", string("a command with an ") + (plan ? "unknown " : "known ") + T[t] + " argument, acknowledged with \"" + (sc ? U[sc - 1] : K[t]) + "\": " + say(r), rep);
}
// Every element of a script is followed by a step: values that follow each other immediately are all noticed.
void runTD(vector<int> const &c) {
  string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TD", rep); ++H::st.executions; H::distinct("TD " + rep);
  string mon, body, want; for (int v = 1; v <= 3; ++v) mon += print("M" + to_string(v), cond("Start", eqn(look("x", "", true), I(v))), S(to_string(v)));
  std::set<int> seen; for (int v : c) { body += state("x", "int", {to_string(v)}); if (seen.insert(v).second) want += to_string(v); }
  Res r = script(planx(list("R", "", cond("End", tag("BooleanValue", "false")), mon)), state("x", "int", {"0"}), body);
  if (r.code != 0 || r.out != want) bad("each-element", "the values " + rep + "scripted one after the other: " + say(r) + ", expected \"" + want + "\"", rep);
}
// The print commands
void runTX(vector<int> const &c) {
  string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TX", rep); ++H::st.executions; H::distinct("TX " + rep);
  static char const *N[] = {"print", "pprint", "printToString", "pprintToString"}; static vector<std::pair<string, string>> const A = {{"", ""}, {"ab", S("ab")}, {" ", S(" ")}, {"-3", I(-3)}, {"2.5", tag("RealValue", "2.5")}, {"true", tag("BooleanValue", "true")}, {"UNKNOWN", tag("IntegerVariable", "u")}};
  string args, text; bool pretty = c[0] & 1; for (size_t i = 1; i < c.size(); ++i) { args += A[c[i]].second; text += A[c[i]].first; if (pretty) text += " "; }
  if (pretty) text += "\n";
  Res r; string want;
  if (c[0] < 2) { r = script(planx(list("R", var("u", "Integer"), "", node("Command", "C", "", "", command(N[c[0]], args)))), "", ""); want = text; }
  else { r = script(planx(list("R", var("u", "Integer") + var("v", "String"), "", node("Command", "C", "", "", command(N[c[0]], args, tag("StringVariable", "v"))) + print("P", cond("Start", tag("EQInternal", tag("NodeStateVariable", tag("NodeId", "C")) + tag("NodeStateValue", "FINISHED"))), S("(") + tag("StringVariable", "v") + S(")")))), "", "<Delay/>"); want = "(" + text + ")"; }
  if (r.code != 0 || r.out != want) bad("print", string("the command ") + N[c[0]] + " with arguments " + rep + ": " + say(r) + ", expected \"" + want + "\"", rep);
}
// Arrays: element indices into the values of one type (-1: unknown)
void runTA(vector<int> const &c) {
  int where = c[0], t = c[1]; vector<int> e(c.begin() + 2, c.end()); string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TA", rep); ++H::st.executions; H::distinct("TA " + rep);
  static char const *T[] = {"bool-array", "int-array", "real-array", "string-array"}; static char const *X[4][2] = {{"true", "false"}, {"4", "-1"}, {"0.5", "8.25"}, {"ab", "c d"}};
  vector<string> vals; string want = "("; for (int x : e) { vals.push_back(x < 0 ? "Plexil_Unknown" : X[t][x]); want += string(x < 0 ? "UNKNOWN" : X[t][x]) + ","; }
  want += ")" + to_string(e.size());
  string ty = PT[t], arr = tag("ArrayVariable", "a"), decl = tag("DeclareArray", tag("Name", "a") + tag("Type", ty) + tag("MaxSize", to_string(e.size())));
  string args = S("("); for (size_t i = 0; i < e.size(); ++i) args += tag("ArrayElement", tag("Name", "a") + tag("Index", I((int) i))) + S(",");
  args += S(")") + tag("ArraySize", arr);
  string fin = cond("Start", tag("EQInternal", tag("NodeStateVariable", tag("NodeId", "A")) + tag("NodeStateValue", "FINISHED")));
  Res r;
  if (where == 0) r = script(planx(list("R", decl, "", node("Assignment", "A", "", cond("Start", known(look("go", "", true))), tag("NodeBody", tag("Assignment", arr + tag("ArrayRHS", look("x"))))) + print("P", fin, args))), "", state("x", T[t], vals) + state("go", "int", {"1"}));
  else if (where == 2) r = script(planx(list("R", decl, "", node("Assignment", "A", "", cond("Start", known(look("go", "", true))), tag("NodeBody", tag("Assignment", arr + tag("ArrayRHS", look("x"))))) + print("P", fin, args))), state("x", T[t], vals), state("go", "int", {"1"}));
  else r = script(planx(list("R", decl, "", node("Command", "A", "", "", command("foo", "", arr)) + print("P", fin, args))), "", cmd("Command", "foo", T[t], vals) + ack("foo", "COMMAND_SUCCESS"));
  if (r.code != 0 || r.out != want) bad("array", string("array of type ") + T[t] + (where == 1 ? " as a result" : " as a state") + " scripted with " + to_string(e.size()) + " elements: " + say(r) + ", expected \"" + want + "\"", rep);
}
// Acknowledgements: every command handle
char const *const HN[] = {"COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_SUCCESS", "COMMAND_INTERFACE_ERROR"};
void runTH(vector<int> const &c) {
  string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TH", rep); ++H::st.executions; H::distinct("TH " + rep);
  string mon, body, want; std::set<string> seen;
  for (int i = 0; i < 7; ++i) mon += print("M" + to_string(i), cond("Start", tag("EQInternal", tag("NodeCommandHandleVariable", tag("NodeId", "C")) + tag("NodeCommandHandleValue", HN[i]))), S(string(HN[i]) + ";"));
  bool fin = false;
  for (int x : c) { body += ack("foo", HN[x]); if (!fin && seen.insert(HN[x]).second) want += string(HN[x]) + ";"; string h = HN[x]; if (h == "COMMAND_FAILED" || h == "COMMAND_DENIED" || h == "COMMAND_INTERFACE_ERROR") fin = true; }
  Res r = script(planx(list("R", "", cond("End", tag("BooleanValue", "false")), node("Command", "C", "", cond("End", tag("BooleanValue", "false")), command("foo", "")) + mon)), "", body);
  if (r.code != 0 || r.out != want) bad("handle", "acknowledgements " + rep + ": " + say(r) + ", expected \"" + want + "\"", rep);
}
// Commands of several nodes, some of them alike. One after the other (c[0] = 0; per node 5 * which + how), or at the same time (c[0] = 1; the order of results and acknowledgements).
void runTC(vector<int> const &c) {
  string rep; for (int x : c) rep += to_string(x) + " ";
  H::cell("TC", rep); ++H::st.executions; H::distinct("TC " + rep);
  static char const *N[] = {"foo", "foo", "bar"}; static char const *A[] = {"", "1", "1"};
  auto args = [](int w) { return *A[w] ? I(atoi(A[w])) : string(); }; auto ps = [](int w) { return *A[w] ? params({{"int", A[w]}}) : string(); };
  auto fin = [](string const &n) { return tag("EQInternal", tag("NodeStateVariable", tag("NodeId", n)) + tag("NodeStateValue", "FINISHED")); };
  string decl, nodes, body, dump, want; string gap; for (int k = 0; k < 4; ++k) gap += "<Delay/>";
  if (c[0] == 0) {
    for (size_t i = 1; i < c.size(); ++i) {
      int w = c[i] / 5, how = c[i] % 5; string n = to_string(i), r = tag("IntegerVariable", "r" + n), v = to_string(10 + i); decl += var("r" + n, "Integer");
      string x = i > 1 ? cond("Start", fin("C" + to_string(i - 1))) : ""; if (how == 3) x += cond("End", known(r)); if (how == 4) x += cond("Exit", eqn(look("quit", "", true), I((int) i)));
      nodes += node("Command", "C" + n, "", x, command(N[w], args(w), how ? r : ""));
      if (how == 2) body += cmd("Command", N[w], "int", {v}, ps(w)) + gap;
      if (how < 3) body += ack(N[w], "COMMAND_SUCCESS", ps(w)); else if (how == 3) body += ack(N[w], "COMMAND_RCVD_BY_SYSTEM", ps(w)) + gap + cmd("Command", N[w], "int", {v}, ps(w)); else body += state("quit", "int", {n}) + gap + cmd("CommandAbort", N[w], "bool", {"true"}, ps(w));
      body += gap; dump += r + S(";"); want += (how == 2 || how == 3 ? v : string("UNKNOWN")) + ";";
    }
    nodes += print("P", cond("Start", fin("C" + to_string(c.size() - 1))), S("=") + dump); want = "=" + want;
  } else {
    for (int w = 0; w < 3; ++w) { string n = to_string(w), r = tag("IntegerVariable", "r" + n); decl += var("r" + n, "Integer"); nodes += node("Command", "C" + n, "", "", command(N[w], args(w), r)); nodes += print("F" + n, cond("Start", fin("C" + n)), S(n + "=") + r + S(";")); }
    bool ret[3] = {};
    for (size_t i = 1; i < c.size(); ++i) { int w = c[i]; if (!ret[w]) { ret[w] = true; body += cmd("Command", N[w], "int", {to_string(20 + w)}, ps(w)); } else { body += ack(N[w], "COMMAND_SUCCESS", ps(w)) + gap; want += to_string(w) + "=" + to_string(20 + w) + ";"; } }
  }
  Res r = script(planx(list("R", decl, "", nodes)), state("quit", "int", {"0"}), body);
  if (r.code != 0 || r.out != want) bad("commands-alike", string(c[0] ? "commands at the same time " : "commands one after the other ") + rep + ": " + say(r) + ", expected \"" + want + "\"", rep);
}
void all(string const &fam, vector<vector<int>> const &cases, void (*f)(vector<int> const &)) {
  uint64_t i = 0; for (auto &c : cases) { if (!H::mine(i++)) continue; if (H::full() || H::timeUp()) return; f(c); if (i <= 2) { string s; for (int x : c) s += to_string(x) + " "; H::sample(fam + " " + s); } }
}
void exploreTV() {
  vector<vector<int>> cs; for (int w : {0, 1, 2, 3, 6}) for (int i = 0; i < (int) VALS.size(); ++i) cs.push_back({w, i});
  all("TV", cs, runTV);
}
void exploreTP() {
  vector<vector<int>> cs; vector<int> k, few; for (int i = 0; i < (int) VALS.size(); ++i) if (*VALS[i].lit) k.push_back(i);
  for (int com : {0, 1}) {
    for (int a : k) { cs.push_back({com, 1, a}); cs.push_back({com, 0, a}); for (int b : k) cs.push_back({com, 1, a, b}); }
    cs.push_back({com, 0});
    vector<int> f = {0, 3, 8, 13, 19}; if (H::args.thorough) f = {0, 3, 7, 8, 9, 13, 16, 19, 22, 26};
    for (int a : f) for (int b : f) for (int x : f) { for (int y : f) cs.push_back({com, 2, a, b, x, y}); cs.push_back({com, 2, a, b, x}); cs.push_back({com, 1, a, b, x}); }
  }
  all("TP", cs, runTP);
}
void exploreTA() {
  vector<vector<int>> cs; int n = H::args.thorough ? 4 : 3;
  for (int w : {0, 1, 2}) for (int t = 0; t < 4; ++t) for (int len = 1; len <= n; ++len) { int m = 1; for (int i = 0; i < len; ++i) m *= 3; for (int q = 0; q < m; ++q) { vector<int> c = {w, t}; int z = q; for (int i = 0; i < len; ++i, z /= 3) c.push_back(z % 3 - 1); cs.push_back(c); } }
  all("TA", cs, runTA);
}
void exploreTU() { vector<vector<int>> cs; for (int t = 0; t < 4; ++t) for (int p : {0, 1}) for (int k : {0, 1, 2}) if (!(t == 3 && k == 1)) cs.push_back({t, p, k}); all("TU", cs, runTU); }
void exploreTD() { vector<vector<int>> cs; int n = H::args.thorough ? 7 : 5; for (int len = 1; len <= n; ++len) { int m = 1; for (int i = 0; i < len; ++i) m *= 3; for (int q = 0; q < m; ++q) { vector<int> c; int z = q; for (int i = 0; i < len; ++i, z /= 3) c.push_back(1 + z % 3); cs.push_back(c); } } all("TD", cs, runTD); }
void exploreTX() { vector<vector<int>> cs; int n = H::args.thorough ? 4 : 3; for (int k = 0; k < 4; ++k) for (int len = 0; len <= n; ++len) { int m = 1; for (int i = 0; i < len; ++i) m *= 6; for (int q = 0; q < m; ++q) { vector<int> c = {k}; int z = q; for (int i = 0; i < len; ++i, z /= 6) c.push_back(1 + z % 6); cs.push_back(c); } } all("TX", cs, runTX); }
void exploreTC() {
  vector<vector<int>> cs; int n = H::args.thorough ? 4 : 3;
  for (int len = 1; len <= n; ++len) { int m = 1; for (int i = 0; i < len; ++i) m *= 15; for (int q = 0; q < m; ++q) { vector<int> c = {0}; int z = q; for (int i = 0; i < len; ++i, z /= 15) c.push_back(z % 15); cs.push_back(c); } }
  for (int q = 0; q < 125; ++q) cs.push_back({0, q % 5, q / 5 % 5, q / 25}); // three of the same
  vector<int> o = {0, 0, 1, 1, 2, 2}; do { vector<int> c = {1}; c.insert(c.end(), o.begin(), o.end()); cs.push_back(c); } while (std::next_permutation(o.begin(), o.end()));
  all("TC", cs, runTC);
}
void exploreTH() {
  vector<vector<int>> cs; int n = H::args.thorough ? 4 : 3;
  for (int len = 1; len <= n; ++len) { int m = 1; for (int i = 0; i < len; ++i) m *= 7; for (int q = 0; q < m; ++q) { vector<int> c; int z = q; bool ok = true; for (int i = 0; i < len; ++i, z /= 7) { c.push_back(z % 7); int h = c.back(); if (i + 1 < len && (h == 3 || h == 4 || h == 6)) ok = false; } if (ok) cs.push_back(c); } }
  all("TH", cs, runTH);
}

// ---- TS: sequences of scripted events
enum { X1, X2, SENT, SUCC, DENY, RET7, RET8, DONE, QUIT, ABT, ABF, UPD, TIME5, DELAY, PLAN, NEV };
char const *const EN[] = {"x=1", "x=2", "ack SENT", "ack SUCCESS", "ack DENIED", "result 7", "result 8", "done=1", "quit=1", "abort true", "abort false", "update-ack", "time=5", "delay", "send-plan"};
string evx(int e) {
  switch (e) {
  case X1: return state("x", "int", {"1"}); case X2: return state("x", "int", {"2"});
  case SENT: return ack("foo", "COMMAND_SENT_TO_SYSTEM"); case SUCC: return ack("foo", "COMMAND_SUCCESS"); case DENY: return ack("foo", "COMMAND_DENIED");
  case RET7: return cmd("Command", "foo", "int", {"7"}); case RET8: return cmd("Command", "foo", "int", {"8"});
  case DONE: return state("done", "int", {"1"}); case QUIT: return state("quit", "int", {"1"});
  case ABT: return cmd("CommandAbort", "foo", "bool", {"true"}); case ABF: return cmd("CommandAbort", "foo", "bool", {"false"});
  case UPD: return "<UpdateAck name=\"U\"/>"; case TIME5: return state("time", "real", {"5"}); case DELAY: return "<Delay/>"; default: return "<SendPlan file=\"q.plx\"/>";
  }
}
string tsPlan() {
  auto at = [](string const &n, string const &c) { return print("M" + n, cond("Start", c), S(n + "@") + look("tick") + S(" ")); };
  auto lk = [](string const &n, int v) { return eqn(look(n, "", true), I(v)); };
  auto st = [](string const &n, string const &s) { return tag("EQInternal", tag("NodeStateVariable", tag("NodeId", n)) + tag("NodeStateValue", s)); };
  auto oc = [](string const &n, string const &s) { return tag("EQInternal", tag("NodeOutcomeVariable", tag("NodeId", n)) + tag("NodeOutcomeValue", s)); };
  auto hd = [](string const &s) { return tag("EQInternal", tag("NodeCommandHandleVariable", tag("NodeId", "C")) + tag("NodeCommandHandleValue", s)); };
  string r = tag("IntegerVariable", "r");
  return planx(list("R", var("r", "Integer"), cond("End", tag("BooleanValue", "false")),
    node("Command", "C", "", cond("Exit", lk("quit", 1)) + cond("End", lk("done", 1)), command("foo", "", r))
    + node("Update", "U", "", "", tag("NodeBody", tag("Update", tag("Pair", tag("Name", "n") + I(3)))))
    + at("x1", lk("x", 1)) + at("x2", lk("x", 2)) + at("hs", hd("COMMAND_SENT_TO_SYSTEM")) + at("hd", hd("COMMAND_DENIED")) + at("hk", hd("COMMAND_SUCCESS"))
    + at("r7", eqn(r, I(7))) + at("r8", eqn(r, I(8))) + at("cf", st("C", "FINISHED")) + at("ci", oc("C", "INTERRUPTED")) + at("ck", oc("C", "SUCCESS")) + at("uf", st("U", "FINISHED"))
    + at("t5", tag("GE", look("time", "", true) + I(5)))
    + print("D", cond("Start", lk("dump", 1)), S("x=") + look("x") + S(",r=") + r + S(",t=") + look("time"))));
}
struct Model {
  enum { EXEC, FINISHING, FAILING, FIN } c = EXEC; int x = 0, r = 0, time = 0, plans = 0; string h; bool done = false, quit = false, aborting = false, aborted = false, retd = false, upd = true, error = false, open = false, u = false; string outc;
  std::set<string> latched; vector<string> out;
  void event(int e) {
    if (error || open) return;
    switch (e) {
    case X1: x = 1; break; case X2: x = 2; break;
    case SENT: case SUCC: case DENY: if (c == FIN) open = true; else h = e == SENT ? "hs" : e == SUCC ? "hk" : "hd"; break;
    case RET7: case RET8: if (retd) error = true; else if (c == FIN) open = true; else { retd = true; r = e == RET7 ? 7 : 8; } break;
    case DONE: done = true; break; case QUIT: quit = true; break;
    case ABT: case ABF: if (!aborting) error = true; else { aborting = false; if (e == ABT) aborted = true; } break;
    case UPD: if (!upd) error = true; else { upd = false; u = true; } break;
    case TIME5: time = 5; break; case PLAN: ++plans; break; default: break;
    }
  }
  void latch(string const &n, bool b, int tick) { if (b && latched.insert(n).second) out.push_back(n + "@" + to_string(tick)); }
  void step(int tick) {
    if (error || open) return;
    latch("x1", x == 1, tick); latch("x2", x == 2, tick); latch("t5", time == 5, tick); latch("r7", r == 7, tick); latch("r8", r == 8, tick); latch("uf", u, tick);
    if (!h.empty() && c != FIN) latch(h, true, tick);
    for (; plans; --plans) out.push_back("q@" + to_string(tick));
    if (c == EXEC && quit) { c = FAILING; aborting = true; }
    if (c == EXEC && (done || h == "hd")) c = FINISHING;
    if (c == FINISHING && quit) { c = FAILING; aborting = true; }
    if (c == FINISHING && !h.empty()) { c = FIN; outc = "ck"; }
    if (c == FAILING) { latch("ci", true, tick); if (aborted) { c = FIN; outc = "ci"; } }
    latch("cf", c == FIN, tick); if (c == FIN) latch(outc, true, tick);
  }
};
void runTS(vector<int> const &c) { // c[0]: bit i set when event i+1 is grouped with event i
  string rep; for (int x : c) rep += to_string(x) + " ";
  int mask = c[0]; vector<int> e(c.begin() + 1, c.end());
  string body, text; Model m; m.step(0); int tick = 0;
  for (size_t i = 0; i < e.size();) {
    size_t j = i + 1; while (j < e.size() && (mask >> (j - 1) & 1)) ++j;
    string g; for (size_t k = i; k < j; ++k) { g += evx(e[k]); m.event(e[k]); text += string(k == i ? "; " : " with ") + EN[e[k]]; }
    body += j == i + 1 ? g : tag("Simultaneous", g); for (int k = 0; k < 6; ++k) body += evx(DELAY); // every consequence has come
    m.step(tick); ++tick;
    body += state("tick", "int", {to_string(tick)}); i = j;
    if (m.open) { ++H::st.skipped; return; }
    if (m.error && j < e.size()) { ++H::st.skipped; return; } // what follows an error is not reached: the shorter sequence is a case of its own
  }
  H::cell("TS", rep); ++H::st.executions; H::distinct("TS " + rep); H::st.transitions += e.size();
  body += state("dump", "int", {"1"});
  Res r = script(tsPlan(), state("tick", "int", {"0"}) + state("x", "int", {"0"}), body);
  string want; std::sort(m.out.begin(), m.out.end(), [](string const &a, string const &b) { int x = atoi(a.c_str() + a.find('@') + 1), y = atoi(b.c_str() + b.find('@') + 1); return x != y ? x < y : a < b; });
  for (auto &s : m.out) want += s + " ";
  if (!m.error) want += "x=" + to_string(m.x) + ",r=" + (m.r ? to_string(m.r) : string("UNKNOWN")) + ",t=" + to_string(m.time);
  // the order within a step is not part of the property
  string got; { std::stringstream ss(r.out); string w, last; vector<string> v; while (ss >> w) if (w.find('@') != string::npos) v.push_back(w); else last += w; std::stable_sort(v.begin(), v.end(), [](string const &a, string const &b) { int x = atoi(a.c_str() + a.find('@') + 1), y = atoi(b.c_str() + b.find('@') + 1); return x != y ? x < y : a < b; }); for (auto &s : v) got += s + " "; got += last; }
  if (m.error ? r.code != 100 && !(r.code >= 1 && r.code < 100) : r.code != 0) bad("script-end", "script" + text + ": " + say(r) + (m.error ? ", expected an error: the last event answers nothing the plan has asked" : ""), rep);
  else if (got != want) bad("script", "script" + text + ": printed \"" + got + "\", expected \"" + want + "\"", rep);
}
void exploreTS() {
  put("q.plx", planx(print("Q", "", S("q@") + look("tick") + S(" "))));
  int n = H::args.thorough ? 4 : 3; uint64_t i = 0;
  for (int len = 1; len <= n; ++len) {
    uint64_t m = 1; for (int k = 0; k < len; ++k) m *= NEV;
    for (uint64_t q = 0; q < m; ++q) for (int mask = 0; mask < 1 << (len - 1); ++mask) {
      vector<int> c = {mask}; uint64_t z = q; for (int k = 0; k < len; ++k, z /= NEV) c.push_back(z % NEV);
      bool ok = true; for (int k = 1; k < len; ++k) if (mask >> (k - 1) & 1) for (int d : {0, 1}) if (c[k + d] == DELAY || c[k + d] == PLAN) ok = false;
      if (!ok || !H::mine(i++)) continue;
      if (H::full() || H::timeUp()) return;
      runTS(c); if (i <= 2) H::sample("TS script of " + to_string(len) + " events");
    }
  }
}

// ---- TR: command lines
enum { P_GOOD, P_MISSING, P_EMPTY, P_MALFORMED, P_OTHER, P_REFUSED, P_CALL, P_CALLNO, P_RES, NP };
enum { S_GOOD, S_MISSING, S_EMPTY, S_MALFORMED, S_OTHER, NS };
enum { L_NONE, L_GOOD, L_NOEXT, L_PATH, L_MISSING, L_MALFORMED, L_REFUSED, L_TWO, NL };
enum { R_OFF, R_FILE, R_ABSENT, NR };
void trFiles() {
  put("p0.plx", planx(print("P", "", S("ran")))); put("p2.plx", ""); put("p3.plx", "<PlexilPlan><Node"); put("p4.plx", "<Other/>"); put("p5.plx", planx("<Node NodeType=\"Bogus\"><NodeId>P</NodeId></Node>"));
  put("p6.plx", planx(node("LibraryNodeCall", "P", "", "", tag("NodeBody", tag("LibraryNodeCall", tag("NodeId", "LB"))))));
  put("p7.plx", planx(node("LibraryNodeCall", "P", "", "", tag("NodeBody", tag("LibraryNodeCall", tag("NodeId", "Nowhere"))))));
  auto use = [](string const &id) { return node("Command", id, "", "", tag("NodeBody", tag("Command", tag("ResourceList", tag("Resource", tag("ResourceName", S("battery")) + tag("ResourcePriority", I(id == "A" ? 1 : 2)) + tag("ResourceUpperBound", tag("RealValue", "0.75")))) + tag("Name", S("print")) + tag("Arguments", S("{" + id + "}"))))); };
  put("p8.plx", planx(list("P", "", "", use("A") + use("B")))); put("res.data", "battery 2.0\n");
  auto fin = [](string const &n) { return cond("Start", tag("EQInternal", tag("NodeStateVariable", tag("NodeId", n)) + tag("NodeStateValue", "FINISHED"))); };
  put("p9.plx", planx(list("P", "", "", print("A", "", S("{1}")) + print("B", fin("A"), S("{2}")) + print("C", fin("B"), S("{3}"))))); // three macro steps
  put("p10.plx", planx(list("P", var("t", "Real"), "", node("Assignment", "A", "", "", tag("NodeBody", tag("Assignment", tag("RealVariable", "t") + tag("NumericRHS", look("time"))))) // the plan goes on for a while after the first quiescence
    + print("L", cond("Start", tag("GT", tag("LookupOnChange", tag("Name", S("time")) + tag("Tolerance", tag("RealValue", "0.01"))) + tag("ADD", tag("RealVariable", "t") + tag("RealValue", "0.02")))), S("{L}{T}")))));
  auto u = tag("Adapter", "", attr("AdapterType", "Utility")) + tag("Adapter", "", attr("AdapterType", "Time"));
  put("c1.xml", tag("Interfaces", u)); put("c3.xml", "<Other/>"); put("c4.xml", tag("Interfaces", u + tag("Adapter", "", attr("AdapterType", "Bogus")))); put("c5.xml", tag("Interfaces", u + tag("Listener", "", attr("ListenerType", "Bogus"))));
  put("s0.psx", tag("PLEXILScript", tag("Script", ""))); put("s2.psx", ""); put("s3.psx", "<PLEXILScript><Script"); put("s4.psx", "<Other/>");
  put("LB.plx", planx(print("LB", "", S("ran")))); put("l5.plx", "<PlexilPlan><Node"); put("l6.plx", planx("<Node NodeType=\"Bogus\"><NodeId>l6</NodeId></Node>"));
  mkdir((g_dir + "/sub").c_str(), 0700); std::ofstream(g_dir + "/sub/LC.plx") << planx(print("LC", "", S("ran")));
}
void runTR(vector<int> const &c) {
  string rep; for (int x : c) rep += to_string(x) + " ";
  int p = c[0], s = c[1], l = c[2], r = c[3], order = c[4];
  H::cell("TR", rep); ++H::st.executions; H::distinct("TR " + rep);
  vector<vector<string>> parts; parts.push_back({"-p", p == P_MISSING ? "none.plx" : "p" + to_string(p) + ".plx"}); parts.push_back({"-s", s == S_MISSING ? "none.psx" : "s" + to_string(s) + ".psx"});
  static vector<vector<string>> const LS = {{}, {"-l", "LB.plx"}, {"-l", "LB"}, {"-L", "sub", "-l", "LC"}, {"-l", "Nothing"}, {"-l", "l5.plx"}, {"-l", "l6.plx"}, {"-L", "sub", "-l", "LC", "-l", "LB"}};
  if (!LS[l].empty()) parts.push_back(LS[l]);
  parts.push_back(r == R_OFF ? vector<string>{"+r"} : r == R_FILE ? vector<string>{"-r", "res.data"} : vector<string>{"-r", "none.data"}); parts.push_back({"+d"});
  if (order) std::reverse(parts.begin(), parts.end());
  vector<string> a; string line; for (auto &q : parts) for (auto &w : q) { a.push_back(w); line += " " + w; }
  Res x = run(a);
  bool lib = l == L_MISSING || l == L_MALFORMED || l == L_REFUSED, plan = p == P_MISSING || p == P_EMPTY || p == P_MALFORMED || p == P_OTHER || p == P_REFUSED || p == P_CALLNO, scr = s != S_GOOD;
  // a library named in a call is also found beside the plan when it was not given on the command line
  if (lib || plan || scr) { if (x.code != 1 || !x.out.empty()) bad("refused", "command line" + line + ": " + say(x) + ", expected exit code 1 and nothing run", rep); }
  else { string want = p == P_RES ? (r == R_FILE ? "AB" : "A") : "ran"; if (x.code != 0 || marks(x.out) != want || (want == "ran" && x.out != want)) bad("run", "command line" + line + ": " + say(x) + ", expected \"" + want + "\"", rep); }
}
// option mistakes: every one ends with a usage error and runs nothing
vector<vector<string>> const WRONG = {{}, {"-p", "p0.plx"}, {"-s", "s0.psx"}, {"-p", "p0.plx", "+d", "+r"}, {"-s", "s0.psx", "+d", "+r"}, {"-p", "p0.plx", "-s", "s0.psx", "-l"}, {"-p", "p0.plx", "-s", "s0.psx", "-L"}, {"-p", "p0.plx", "-s", "s0.psx", "-d"}, {"-p", "p0.plx", "-s", "s0.psx", "-r"},
  {"-p", "p0.plx", "+d", "-s"}, {"-s", "s0.psx", "+d", "-p"}, {"-p", "p0.plx", "-s", "s0.psx", "-d", "x", "+d"}, {"-p", "p0.plx", "-s", "s0.psx", "+d", "-d", "x"}, {"-p", "p0.plx", "-s", "s0.psx", "-r", "x", "+r"}, {"-p", "p0.plx", "-s", "s0.psx", "+r", "-r", "x"},
  {"-p", "p0.plx", "-s", "s0.psx", "-d", "x", "-d", "y"}, {"-p", "p0.plx", "-s", "s0.psx", "-r", "x", "-r", "y"}, {"-p", "p0.plx", "-s", "s0.psx", "--bogus"}, {"-p", "p0.plx", "-s", "s0.psx", "stray"}};
void runTW(vector<int> const &c) {
  string rep = to_string(c[0]) + " "; H::cell("TW", rep); ++H::st.executions; H::distinct("TW " + rep);
  Res x = run(WRONG[c[0]]); string line; for (auto &w : WRONG[c[0]]) line += " " + w;
  if (x.code == 0 || x.code >= 100 || !x.out.empty()) bad("usage", "command line" + line + ": " + say(x) + ", expected a usage error and nothing run", rep);
}
// faulty pieces of scripts: reported, never a crash
void runTE(vector<int> const &c) {
  static vector<string> const BAD = {"<Bogus/>", "<Simultaneous><Bogus/></Simultaneous>", "<Simultaneous><Delay2/></Simultaneous>", "<State type=\"int\"><Value>1</Value></State>", "<State name=\"x\"><Value>1</Value></State>", "<State name=\"x\" type=\"int\"/>", "<State name=\"x\" type=\"what\"><Value>1</Value></State>",
    "<CommandAck name=\"nope\" type=\"string\"><Result>COMMAND_SUCCESS</Result></CommandAck>", "<Command name=\"nope\" type=\"int\"><Result>1</Result></Command>", "<CommandAbort name=\"foo\" type=\"bool\"><Result>true</Result></CommandAbort>", "<UpdateAck name=\"nope\"/>", "<UpdateAck/>", "<SendPlan/>", "<SendPlan file=\"absent.plx\"/>",
    "<SendPlan file=\"p3.plx\"/>", "<Command type=\"int\"><Result>1</Result></Command>", "<CommandAck name=\"foo\"><Result>COMMAND_SUCCESS</Result></CommandAck>", "<CommandAck name=\"foo\" type=\"string\"/>", "<CommandAbort name=\"foo\" type=\"int\"><Result>1</Result></CommandAbort>", "<FunctionCall name=\"foo\" type=\"int\"><Result>1</Result></FunctionCall>"};
  if (c[0] < 0) { for (int i = 0; i < (int) BAD.size(); ++i) for (int k : {0, 1, 2}) if (H::mine(i * 3 + k)) runTE({i, k}); return; }
  string rep = to_string(c[0]) + " " + to_string(c[1]); H::cell("TE", rep); ++H::st.executions; H::distinct("TE " + rep);
  string good = state("x", "int", {"1"});
  Res r = script(planx(list("R", "", cond("End", tag("BooleanValue", "false")), node("Command", "C", "", "", command("foo", "")) + print("A", cond("Start", eqn(look("x", "", true), I(1))), S("one ")) + print("B", cond("Start", eqn(look("x", "", true), I(2))), S("two ")))), "",
    (c[1] ? good : "") + BAD[c[0]] + (c[1] == 2 ? state("x", "int", {"2"}) : ""));
  if (r.code == 0 || (r.code > 100) || r.out != (c[1] ? "one " : "")) bad("script-error", "a script with " + BAD[c[0]] + ": " + say(r) + ", expected an error after what precedes it", rep);
}
// universalExec: command lines. Interface configuration: none, a good one, one that is missing or is malformed (both: the default one is used), one that is no configuration, and some that cannot be set up.
enum { C_NONE, C_GOOD, C_MISSING, C_OTHER, C_ADAPTER, C_LISTENER, NC };
void runURj(vector<int> const &c, Job *job) { // job: started by one call, judged by the next: stopping takes the application a second
  string rep; for (int x : c) rep += to_string(x) + " ";
  int p = c[0], cf = c[1], l = c[2], r = c[3], order = c[4];
  H::cell("UR", rep); if (!job || job->pid >= 0) { ++H::st.executions; H::distinct("UR " + rep); }
  vector<vector<string>> parts; parts.push_back({"-p", p == P_MISSING ? "none.plx" : p == NP ? "p9.plx" : p == NP + 1 ? "p10.plx" : "p" + to_string(p) + ".plx"});
  if (cf != C_NONE) parts.push_back({"-c", cf == C_MISSING ? "none.xml" : "c" + to_string(cf) + ".xml"});
  static vector<vector<string>> const LS = {{}, {"-l", "LB.plx"}, {"-l", "LB"}, {"-L", "sub", "-l", "LC"}, {"-l", "Nothing"}, {"-l", "l5.plx"}, {"-l", "l6.plx"}, {"-L", "sub", "-l", "LC", "-L", ".", "-l", "LB"}};
  if (!LS[l].empty()) parts.push_back(LS[l]);
  parts.push_back(r == R_OFF ? vector<string>{"+r"} : r == R_FILE ? vector<string>{"-r", "res.data"} : vector<string>{"-r", "none.data"}); parts.push_back({"+d"});
  if (order) std::reverse(parts.begin(), parts.end());
  vector<string> a; string line; for (auto &q : parts) for (auto &w : q) { a.push_back(w); line += " " + w; }
  if (job && job->pid < 0) { *job = start(a, ue_main); return; }
  Res x = job ? finish(*job) : run(a, ue_main);
  bool lib = l == L_MISSING || l == L_MALFORMED || l == L_REFUSED, plan = p == P_MISSING || p == P_EMPTY || p == P_MALFORMED || p == P_OTHER || p == P_REFUSED || p == P_CALLNO, conf = cf == C_OTHER || cf == C_ADAPTER || cf == C_LISTENER;
  string got = marks(x.out);
  if (lib || plan || conf) { if (x.code != 1 || !got.empty()) bad("universal-refused", "universalExec" + line + ": " + say(x) + ", expected exit code 1 and nothing run", rep); }
  else {
    string want = cf != C_GOOD ? "" : p == P_RES ? (r == R_FILE ? "AB" : "A") : p == NP ? "123" : p == NP + 1 ? "LT" : "ran"; // without the Utility adapter nothing is printed
    if (x.code != 0 || got != want) bad("universal-run", "universalExec" + line + ": " + say(x) + ", expected exit code 0 and \"" + want + "\" printed", rep);
  }
}
void runUR(vector<int> const &c) { runURj(c, nullptr); }
vector<vector<string>> const UWRONG = {{}, {"-p"}, {"-c"}, {"-l"}, {"-L"}, {"-d"}, {"-r"}, {"-p", "p0.plx", "-c"}, {"-p", "p0.plx", "-c", "c1.xml", "-l"}, {"-p", "p0.plx", "-c", "c1.xml", "-d", "x", "+d"}, {"-p", "p0.plx", "-c", "c1.xml", "+d", "-d", "x"}, {"-p", "p0.plx", "-c", "c1.xml", "-r", "x", "+r"},
  {"-p", "p0.plx", "-c", "c1.xml", "+r", "-r", "x"}, {"-p", "p0.plx", "-c", "c1.xml", "-d", "x", "-d", "y"}, {"-p", "p0.plx", "-c", "c1.xml", "-r", "x", "-r", "y"}, {"-p", "p0.plx", "-c", "c1.xml", "--bogus"}, {"-p", "p0.plx", "-c", "c1.xml", "stray"}};
void runUW(vector<int> const &c) {
  string rep = to_string(c[0]) + " "; H::cell("UW", rep); ++H::st.executions; H::distinct("UW " + rep);
  Res x = run(UWRONG[c[0]], ue_main); string line; for (auto &w : UWRONG[c[0]]) line += " " + w;
  if (x.code == 0 || x.code >= 100 || x.out.find("ran") != string::npos) bad("universal-usage", "universalExec" + line + ": " + say(x) + ", expected a usage error and nothing run", rep);
}
void exploreUR() {
  vector<vector<int>> cs;
  for (int p = 0; p < NP + 2; ++p) for (int s = 0; s < NC; ++s) for (int l = 0; l < NL; ++l) for (int r = 0; r < NR; ++r) for (int o : {0, 1}) if (r == R_OFF || p == P_RES || H::args.thorough) cs.push_back({p, s, l, r, o});
  vector<std::pair<vector<int>, Job>> w; auto drain = [&] { for (auto &x : w) runURj(x.first, &x.second); w.clear(); };
  uint64_t i = 0; for (auto &c : cs) { if (!H::mine(i++)) continue; if (H::full() || H::timeUp()) break; Job j{-1, -1}; runURj(c, &j); w.push_back({c, j}); if (w.size() == 24) drain(); if (i <= 2) H::sample("UR command line"); }
  drain();
}
void exploreUW() { vector<vector<int>> cs; for (int i = 0; i < (int) UWRONG.size(); ++i) cs.push_back({i}); all("UW", cs, runUW); }
void exploreTR() {
  vector<vector<int>> cs;
  for (int p = 0; p < NP; ++p) for (int s = 0; s < NS; ++s) for (int l = 0; l < NL; ++l) for (int r = 0; r < NR; ++r) for (int o : {0, 1}) cs.push_back({p, s, l, r, o});
  all("TR", cs, runTR);
}
void exploreTW() { vector<vector<int>> cs; for (int i = 0; i < (int) WRONG.size(); ++i) cs.push_back({i}); all("TW", cs, runTW); }
}
int main(int argc, char **argv) {
  char d[] = "/tmp/testmc.XXXXXX"; if (!mkdtemp(d)) return 2; g_dir = d; trFiles();
  put("q.plx", planx(print("Q", "", S("q@") + look("tick") + S(" "))));
  PLEXIL::Error::doThrowExceptions(); PLEXIL::PlanError::doThrowExceptions();
  auto F = [](char const *n, void (*x)(), void (*r)(vector<int> const &)) { return H::Family{n, x, [r](string const &b) { r(ints(b)); }}; };
  int rc = H::run(argc, argv, {F("TV", exploreTV, runTV), F("TP", exploreTP, runTP), F("TA", exploreTA, runTA), F("TU", exploreTU, runTU), F("TD", exploreTD, runTD), F("TX", exploreTX, runTX), F("TC", exploreTC, runTC), F("TH", exploreTH, runTH), F("TS", exploreTS, runTS), F("TR", exploreTR, runTR), F("TW", exploreTW, runTW), F("UR", exploreUR, runUR), F("UW", exploreUW, runUW), F("TE", [] { runTE({-1}); }, runTE)});
  string cmd = "rm -rf '" + g_dir + "'"; if (g_dir.compare(0, 12, "/tmp/testmc.") == 0 && system(cmd.c_str())) {}
  return rc;
}
