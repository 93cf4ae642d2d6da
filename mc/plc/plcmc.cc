// The compiler's front end (C37): the real program, run again and again in one Java virtual machine per process. Every plan is built together with the document it stands for.
// CE expressions, CL literals, CN nodes and their attributes, CS statements inside statements, CR references and lookups, CT types that do not fit, CV scopes, CX faulty plans.
#include "harness.hh"
#include "pugixml.hpp"
#include <climits>
#include <cmath>
#include <functional>
#include <memory>
#include <signal.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
using H::string; using H::vector; using std::to_string;
namespace {
// --- the real compiler
string exeDir() { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; string s = b; return s.substr(0, s.rfind('/')); }
string slurp(string const &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Answer { int status = 0; string out, err; bool dead = false; };
struct Server { pid_t pid = 0; int in = -1, out = -1; string dir;
  Server() { char t[] = "/tmp/plcmcXXXXXX"; if (!mkdtemp(t)) exit(64); dir = t; }
  vector<string> cp(bool driver) { string d = exeDir() + "/../plc"; vector<string> v{"java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xss2m"}; if (driver) v.push_back("-Djava.security.manager=allow"); v.insert(v.end(), {"-cp", d + "/cls:" + d + "/driver:" + d + "/antlr.jar"}); if (driver) v.push_back("Driver"); v.push_back("plexil.Compiler"); if (driver) v.push_back(dir); else { v.push_back("-e"); v.push_back(dir + "/plan.ple"); } return v; }
  pid_t spawn(bool driver, int *i, int *o) { int a[2], b[2]; if (pipe(a) || pipe(b)) exit(64); vector<string> v = cp(driver); vector<char *> w; for (auto &x : v) w.push_back((char *)x.c_str()); w.push_back(nullptr);
    pid_t p = fork(); if (!p) { dup2(a[0], 0); dup2(b[1], 1); if (driver) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); } else dup2(b[1], 2); for (int f = 3; f < 64; ++f) close(f); execvp("java", w.data()); _exit(127); }
    close(a[0]); close(b[1]); *i = a[1]; *o = b[0]; return p; }
  void stop() { if (pid) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); close(in); close(out); pid = 0; } }
  ~Server() { stop(); unlink((dir + "/plan.ple").c_str()); unlink((dir + "/plan.epx").c_str()); rmdir(dir.c_str()); }
  bool get(void *p, size_t n) { char *c = (char *)p; while (n) { struct pollfd f = {out, POLLIN, 0}; if (poll(&f, 1, 60000) <= 0) return false; ssize_t k = read(out, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
  bool num(uint32_t &x) { unsigned char b[4]; if (!get(b, 4)) return false; x = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; return true; }
  Answer ask(string const &s) { if (!pid) pid = spawn(true, &in, &out); Answer a; uint32_t n = s.size(), x; string m{(char)(n >> 24), (char)(n >> 16), (char)(n >> 8), (char)n}; m += s; if (write(in, m.data(), m.size()) != (ssize_t)m.size()) a.dead = true;
    auto str = [&](string &t) { uint32_t k; if (!num(k)) return false; t.resize(k); return get(&t[0], k); }; if (a.dead || !num(x) || !str(a.out) || !str(a.err)) { a.dead = true; stop(); return a; } a.status = (int)x; return a; }
  // the program by itself
  Answer alone(string const &s) { stop(); unlink((dir + "/plan.epx").c_str()); { std::ofstream f(dir + "/plan.ple"); f << s; } int i, o; pid_t p = spawn(false, &i, &o); close(i); Answer a; char b[4096]; for (;;) { struct pollfd f = {o, POLLIN, 0}; if (poll(&f, 1, 60000) <= 0) { a.dead = true; kill(p, SIGKILL); break; } ssize_t k = read(o, b, sizeof b); if (k <= 0) break; a.err.append(b, k); }
    close(o); int st = 0; waitpid(p, &st, 0); a.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128; a.out = slurp(dir + "/plan.epx"); return a; } };
Server &server() { static Server s; return s; }
// --- documents
struct T { string tag, text; std::map<string, string> at; vector<T> kids; };
bool nodeLike(string const &t) { for (auto n : {"Node", "Sequence", "UncheckedSequence", "CheckedSequence", "Concurrence", "Try", "If", "While", "For", "Do", "Wait", "SynchronousCommand", "OnCommand", "OnMessage"}) if (t == n) return true; return false; }
bool header(string const &t) { for (auto n : {"NodeId", "Comment", "Interface", "VariableDeclarations", "UsingMutex", "Priority"}) if (t == n) return true; return t.size() > 9 && t.substr(t.size() - 9) == "Condition"; }
string show(T const &t) { string s = "<" + t.tag; for (auto &a : t.at) s += " " + a.first + "=" + a.second; s += ">" + t.text; for (auto &k : t.kids) s += show(k); return s + "</>"; }
T convert(pugi::xml_node n) { T t; t.tag = n.name(); bool gen = false; for (auto a : n.attributes()) { string k = a.name(); if (k == "LineNo" || k == "ColNo" || k == "FileName") continue; t.at[k] = a.value(); } bool el = false; for (auto c : n.children()) if (c.type() == pugi::node_element) el = true;
  if (!el) t.text = n.child_value(); for (auto c : n.children()) if (c.type() == pugi::node_element) { if (t.tag != "NodeStateVariable" && !strcmp(c.name(), "NodeId") && c.attribute("generated")) { gen = true; continue; } t.kids.push_back(convert(c)); } (void)gen;
  auto byText = [](T const &a, T const &b) { return show(a) < show(b); }; if (t.tag == "Resource") std::stable_sort(t.kids.begin(), t.kids.end(), byText);
  if (nodeLike(t.tag)) { vector<T> h, b; for (auto &k : t.kids) (header(k.tag) && !(t.tag == "OnCommand" && k.tag == "VariableDeclarations") ? h : b).push_back(k); std::stable_sort(h.begin(), h.end(), byText); if (t.tag == "SynchronousCommand") std::stable_sort(b.begin(), b.end(), byText);
    if ((t.tag == "Sequence" || t.tag == "CheckedSequence" || t.tag == "Try") && b.size() == 1 && nodeLike(b[0].tag)) { T c = b[0]; vector<T> ch, cb; bool named = false, mine = false; for (auto &k : c.kids) { (header(k.tag) && !(c.tag == "OnCommand" && k.tag == "VariableDeclarations") ? ch : cb).push_back(k); if (k.tag == "NodeId") named = true; } for (auto &k : h) if (k.tag == "NodeId") mine = true;
      if (ch.empty()) { c.kids = h; c.kids.insert(c.kids.end(), cb.begin(), cb.end()); return c; } // the one thing in it takes the block's place
      if (h.empty()) return c; if (mine && !named && h.size() == 1) { ch.insert(ch.begin(), h[0]); std::stable_sort(ch.begin(), ch.end(), byText); c.kids = ch; c.kids.insert(c.kids.end(), cb.begin(), cb.end()); return c; } }
    t.kids = h; t.kids.insert(t.kids.end(), b.begin(), b.end()); }
  return t; }
bool parse(string const &m, T &t) { pugi::xml_document d; if (!d.load_buffer(m.data(), m.size(), pugi::parse_default | pugi::parse_ws_pcdata_single)) return false; int n = 0; for (auto x : d.children()) if (x.type() == pugi::node_element) { ++n; t = convert(x); } return n == 1; }
// --- expressions in documents: two of them are the same if they have the same value for all small values of what they refer to
struct V { char k = 'u'; int64_t i = 0; double r = 0; string s; double num() const { return k == 'i' ? (double)i : r; } bool operator==(V const &o) const { if (k == 'u' || o.k == 'u') return k == o.k; if (k == 's' || o.k == 's') return k == o.k && s == o.s; if (k == 'b' || o.k == 'b') return k == o.k && i == o.i; double a = num(), b = o.num(); return a == b || std::fabs(a - b) <= 1e-12 * std::fabs(a); } };
V vi(int64_t i) { V v; v.k = 'i'; v.i = i; return v; } V vb(bool b) { V v; v.k = 'b'; v.i = b; return v; } V vr(double r) { V v; v.k = 'r'; v.r = r; if (std::isnan(r) || std::isinf(r)) v.k = 'u'; return v; } V vs(string s) { V v; v.k = 's'; v.s = s; return v; }
struct Misfit { string why; };
bool opTag(string const &t) { static std::set<string> const s = {"AND", "OR", "XOR", "NOT", "EQNumeric", "EQString", "EQBoolean", "NENumeric", "NEString", "NEBoolean", "LT", "LE", "GT", "GE", "ADD", "SUB", "MUL", "DIV", "MOD", "MAX", "MIN", "ABS", "SQRT", "CEIL", "FLOOR", "ROUND", "TRUNC", "REAL_TO_INT", "STRLEN", "Concat", "IsKnown"}; return s.count(t); }
char kindOf(T const &t) { string const &g = t.tag; auto starts = [&](char const *p) { return !g.compare(0, strlen(p), p); }; if (starts("EQ") || starts("NE") || g == "AND" || g == "OR" || g == "XOR" || g == "NOT" || g == "LT" || g == "LE" || g == "GT" || g == "GE" || g == "IsKnown" || g == "BooleanVariable" || g == "BooleanValue") return 'b';
  if (g == "Concat" || g == "StringVariable" || g == "StringValue") return 's'; if (opTag(g) || g == "IntegerVariable" || g == "IntegerValue" || g == "RealVariable" || g == "RealValue" || g == "ArraySize" || g == "ArrayMaxSize") return 'n'; return '?'; }
typedef std::map<string, V> Env;
void leaves(T const &t, std::map<string, T const *> &m) { if (opTag(t.tag)) { for (auto &k : t.kids) leaves(k, m); return; } if (t.tag.size() < 5 || t.tag.substr(t.tag.size() - 5) != "Value") m[show(t)] = &t; }
V eval(T const &t, Env const &e) { auto need = [&](char k) { for (auto &c : t.kids) { char o = kindOf(c); if (o != '?' && o != k) throw Misfit{c.tag + " inside " + t.tag}; } };
  if (!opTag(t.tag)) { auto i = e.find(show(t)); if (i != e.end()) return i->second; if (t.tag == "BooleanValue") return vb(t.text == "true" || t.text == "1"); if (t.tag == "IntegerValue") return vi(strtoll(t.text.c_str(), nullptr, 10)); if (t.tag == "RealValue") return vr(strtod(t.text.c_str(), nullptr)); if (t.tag == "StringValue") return vs(t.text); return vs(t.tag + " " + t.text); }
  string const &g = t.tag; size_t n = t.kids.size(); vector<V> a; for (auto &k : t.kids) a.push_back(eval(k, e)); bool u = false; for (auto &x : a) u |= x.k == 'u'; if (!n) throw Misfit{"empty " + g};
  auto count = [&](size_t lo, size_t hi) { if (n < lo || n > hi) throw Misfit{to_string(n) + " operands of " + g}; };
  if (g == "IsKnown") { count(1, 1); return vb(!u); } if (g == "NOT") { need('b'); count(1, 1); return u ? V() : vb(!a[0].i); }
  if (g == "AND" || g == "OR") { need('b'); count(2, 99); bool stop = g == "OR"; for (auto &x : a) if (x.k == 'b' && (bool)x.i == stop) return vb(stop); return u ? V() : vb(!stop); }
  if (g == "XOR") { need('b'); count(2, 99); if (u) return V(); bool r = false; for (auto &x : a) r ^= (bool)x.i; return vb(r); }
  if (g.size() > 4 && (g[0] == 'E' || g[0] == 'N')) { count(2, 2); need(g[2] == 'N' ? 'n' : g[2] == 'S' ? 's' : 'b'); if (u) return V(); bool q = a[0] == a[1]; return vb(g[0] == 'E' ? q : !q); }
  if (g == "Concat") { need('s'); if (u) return V(); string s; for (auto &x : a) s += x.s; return vs(s); } if (g == "STRLEN") { need('s'); count(1, 1); return u ? V() : vi(a[0].s.size()); }
  need('n'); if (g == "LT" || g == "LE" || g == "GT" || g == "GE") { count(2, 2); if (u) return V(); double x = a[0].num(), y = a[1].num(); return vb(g == "LT" ? x < y : g == "LE" ? x <= y : g == "GT" ? x > y : x >= y); }
  if (g == "ADD" || g == "MUL" || g == "MAX" || g == "MIN") count(2, 99); else if (g == "SUB") count(1, 99); else if (g == "DIV" || g == "MOD") count(2, 2); else count(1, 1); if (u) return V();
  if (n == 1) { V x = a[0]; double d = x.num(); if (g == "SUB") return x.k == 'i' ? vi(-x.i) : vr(-d); if (g == "ABS") return x.k == 'i' ? vi(std::llabs(x.i)) : vr(std::fabs(d)); if (g == "SQRT") return vr(std::sqrt(d)); if (x.k == 'i') return x; if (g == "CEIL") return vi(std::ceil(d)); if (g == "FLOOR") return vi(std::floor(d)); if (g == "ROUND") return vi(std::round(d)); if (g == "TRUNC") return vi(std::trunc(d)); return d == std::floor(d) ? vi(d) : V(); }
  V x = a[0]; for (size_t i = 1; i < n; ++i) { V y = a[i]; bool in = x.k == 'i' && y.k == 'i'; double p = x.num(), q = y.num(); if (g == "ADD") x = in ? vi(x.i + y.i) : vr(p + q); else if (g == "SUB") x = in ? vi(x.i - y.i) : vr(p - q); else if (g == "MUL") x = in ? vi(x.i * y.i) : vr(p * q);
    else if (g == "MAX") x = in ? vi(std::max(x.i, y.i)) : vr(std::max(p, q)); else if (g == "MIN") x = in ? vi(std::min(x.i, y.i)) : vr(std::min(p, q)); else if (q == 0) return V(); else if (g == "DIV") x = in ? vi(x.i / y.i) : vr(p / q); else x = in ? vi(x.i % y.i) : vr(std::fmod(p, q)); }
  return x; }
uint64_t g_evals;
string sameValue(T const &w, T const &g) { std::map<string, T const *> m; leaves(w, m); leaves(g, m); vector<std::pair<string, vector<V>>> dom; for (auto &x : m) { string const &t = x.second->tag; bool many = m.size() <= 4; vector<V> d{V()}; if (t == "IntegerVariable" || t.find("Size") != string::npos) { d.push_back(vi(3)); d.push_back(vi(-7)); if (many) d.push_back(vi(0)); } else if (t == "RealVariable") { d.push_back(vr(0.5)); d.push_back(vr(-2)); } else if (t == "BooleanVariable") { d.push_back(vb(true)); d.push_back(vb(false)); } else if (t == "StringVariable") { d.push_back(vs("xy")); d.push_back(vs("")); } else { d.push_back(vi(5)); d.push_back(vi(-1)); } dom.push_back({x.first, d}); }
  vector<size_t> i(dom.size()); for (;;) { Env e; for (size_t k = 0; k < dom.size(); ++k) e[dom[k].first] = dom[k].second[i[k]]; ++g_evals; V a, b; try { a = eval(w, e); } catch (Misfit const &x) { return "internal: model: " + x.why; } try { b = eval(g, e); } catch (Misfit const &x) { return "operands that do not fit: " + x.why; } if (!(a == b)) return "an expression with another value: got " + show(g).substr(0, 300) + " instead of " + show(w).substr(0, 300);
    size_t k = 0; while (k < i.size() && ++i[k] == dom[k].second.size()) i[k++] = 0; if (k == i.size()) return ""; } }
string differ(T const &w, T const &g) { if (opTag(w.tag) || opTag(g.tag)) { if (show(w) == show(g)) return ""; return sameValue(w, g); }
  if (w.tag != g.tag) return "the document has " + show(g).substr(0, 200) + " instead of " + show(w).substr(0, 200); if (w.tag == "RealValue" && strtod(w.text.c_str(), nullptr) == strtod(g.text.c_str(), nullptr)) return ""; if (w.at != g.at || w.text != g.text) return "the document has " + show(g).substr(0, 200) + " instead of " + show(w).substr(0, 200);
  if (w.kids.size() != g.kids.size()) return "the document has " + show(g).substr(0, 400) + " instead of " + show(w).substr(0, 400); for (size_t i = 0; i < w.kids.size(); ++i) { string d = differ(w.kids[i], g.kids[i]); if (!d.empty()) return d; } return ""; }
// want: the document, "!" for a plan that must be refused, "?" for one that may be
string judge(string const &want, Answer const &a) { if (a.dead) return "the compiler does not end"; if ((a.status == 0 || want.size() > 1) && a.err.find("Exception") != string::npos && a.err.find("\tat ") != string::npos) return "the compiler breaks down\n" + a.err.substr(0, 300);
  if (a.status) { if (want != "!" && want != "?") return "a good plan is refused\n" + a.err.substr(0, 300); return a.err.size() > 40 ? "" : "refused without a message"; }
  T g, w; if (!parse(a.out, g)) return a.out.empty() ? "no document, and yet exit status 0" : "the document is not well-formed"; if (g.tag != "PlexilPlan") return "not a plan"; if (want == "!") return "a faulty plan is accepted"; if (want == "?") return ""; if (!parse(want, w)) return "internal: model document"; return differ(w, g); }
void runIt(string const &fam, string const &t, string const &want) { string body = t + "\n--- stands for\n" + want; H::cell(fam, body); H::st.executions++; H::st.traces++; H::st.evaluations++; Answer a = server().ask(t); string bad = judge(want, a); H::distinct(t); H::st.counters[a.status ? "refused" : "translated"]++; if (H::st.executions % 401 == 1) H::sample(fam + " " + t.substr(0, 500));
  static std::map<string, int> tried; string key = bad.substr(0, bad.find_first_of("\n:")).substr(0, 60);
  if (!bad.empty() && tried[key]++ > 8) H::st.counters["more of the same"]++; else if (!bad.empty()) { Answer b = server().alone(t); bad = judge(want, b); if (bad.empty()) { H::st.counters["only in one machine"]++; return; } H::violate(fam + " " + key, bad + "\nplan:\n" + t, body); } }
uint64_t g_i; bool stop() { if (H::full() || H::st.capped) return true; if (H::timeUp()) H::st.capped = true; return H::st.capped; }
void one(string const &fam, string const &t, string const &want) { if (!stop() && H::mine(g_i++)) runIt(fam, t, want); }
// --- things to build plans from: text and document side by side
struct S { string src, xml; };
string tagged(string const &t, string const &x) { return "<" + t + ">" + x + "</" + t + ">"; }
string lit(string const &type, string const &v) { return tagged(type + "Value", v); } string var(string const &type, string const &n) { return tagged(type + "Variable", n); }
S const X = {"x", "<IntegerVariable>x</IntegerVariable>"}, Y = {"y", "<IntegerVariable>y</IntegerVariable>"}, R = {"r", "<RealVariable>r</RealVariable>"}, B = {"b", "<BooleanVariable>b</BooleanVariable>"}, C = {"c", "<BooleanVariable>c</BooleanVariable>"}, Q = {"s", "<StringVariable>s</StringVariable>"}, U = {"t", "<StringVariable>t</StringVariable>"};
S num(int n) { return {to_string(n), lit("Integer", to_string(n))}; } S str(string s) { return {"\"" + s + "\"", lit("String", s)}; } S tf(bool v) { return v ? S{"true", lit("Boolean", "true")} : S{"false", lit("Boolean", "false")}; } S real(string s) { return {s, lit("Real", s)}; }
S el(string a, string type, S i) { return {a + "[" + i.src + "]", "<ArrayElement>" + tagged(type == "" ? "ArrayVariable" : "ArrayVariable", a) + tagged("Index", i.xml) + "</ArrayElement>"}; }
S bin(string op, string tag, S a, S b) { return {a.src + " " + op + " " + b.src, tagged(tag, a.xml + b.xml)}; }
string const DECLS = "Integer Command ci(Integer a, String b);\nCommand cd(...);\nCommand c0;\nBoolean Command cb();\nString Command cs;\nReal Lookup temp(Integer i);\nString Lookup name;\nBoolean Lookup flag(String, Real);\nLibraryNode Lib(In Integer p, InOut Real q);\nLibraryAction Lib0;\nMutex gm, gn;\n";
string ret(string t) { return "<Return><Name>_return_0</Name>" + tagged("Type", t) + "</Return>"; } string par(string n, string t) { return tagged("Parameter", tagged("Name", n) + tagged("Type", t)); } string dv(string n, string t) { return tagged("DeclareVariable", tagged("Name", n) + tagged("Type", t)); }
string const DECLX = "<GlobalDeclarations><CommandDeclaration><Name>ci</Name>" + ret("Integer") + par("a", "Integer") + par("b", "String") + "</CommandDeclaration><CommandDeclaration><Name>cd</Name><AnyParameters/></CommandDeclaration><CommandDeclaration><Name>c0</Name></CommandDeclaration><CommandDeclaration><Name>cb</Name>" + ret("Boolean") + "</CommandDeclaration><CommandDeclaration><Name>cs</Name>" + ret("String") + "</CommandDeclaration><StateDeclaration><Name>temp</Name>" + ret("Real") + par("i", "Integer") + "</StateDeclaration><StateDeclaration><Name>name</Name>" + ret("String") + "</StateDeclaration><StateDeclaration><Name>flag</Name>" + ret("Boolean") + "<Parameter><Type>String</Type></Parameter><Parameter><Type>Real</Type></Parameter>" + "</StateDeclaration><LibraryNodeDeclaration><Name>Lib</Name><Interface><In>" + dv("p", "Integer") + "</In><InOut>" + dv("q", "Real") + "</InOut></Interface></LibraryNodeDeclaration><LibraryNodeDeclaration><Name>Lib0</Name></LibraryNodeDeclaration><DeclareMutex><Name>gm</Name></DeclareMutex><DeclareMutex><Name>gn</Name></DeclareMutex></GlobalDeclarations>";
string const VARS = "Integer x, y, arr[4];\nReal r, ra[2];\nBoolean b, c;\nString s, t;\nMutex m;\n";
string da(string n, string t, string k) { return tagged("DeclareArray", tagged("Name", n) + tagged("Type", t) + tagged("MaxSize", k)); }
string const VARX = "<VariableDeclarations>" + dv("x", "Integer") + dv("y", "Integer") + da("arr", "Integer", "4") + dv("r", "Real") + da("ra", "Real", "2") + dv("b", "Boolean") + dv("c", "Boolean") + dv("s", "String") + dv("t", "String") + tagged("DeclareMutex", "<Name>m</Name>") + "</VariableDeclarations>";
// an action: what is written, the element, what stands in it after the head
struct A { string src, tag, at, inner; string name; };
string xmlOf(A const &a) { return "<" + a.tag + a.at + ">" + (a.name.empty() ? "" : tagged("NodeId", a.name)) + a.inner + "</" + a.tag + ">"; }
A named(string n, A a) { a.name = n; a.src = n + ": " + a.src; return a; }
A node(string src, string type, string body) { return {src, "Node", " NodeType=\"" + type + "\"", tagged("NodeBody", body), ""}; }
A assign(S l, S r, string kind) { return node(l.src + " = " + r.src + ";", "Assignment", tagged("Assignment", l.xml + tagged(kind + "RHS", r.xml))); }
string const D0 = "<!---->";
S call(S name, bool lit, vector<S> args, S const *to = nullptr, string res = "") { string s = (lit ? name.src : "(" + name.src + ")") + "(", x; for (auto &a : args) { s += (x.empty() ? "" : ", ") + a.src; x += a.xml; } return {(to ? to->src + " = " : "") + s + ")", tagged("Command", res + (to ? to->xml : "") + tagged("Name", lit ? ::H::string(tagged("StringValue", name.src)) : name.xml) + (x.empty() ? "" : tagged("Arguments", x)))}; }
A command(S c) { return node(c.src + ";", "Command", c.xml); }
struct Hd { string src, xml; };
A block(string kw, vector<Hd> const &h, vector<A> const &as) { string s = kw + (kw.empty() ? "{ " : " { "), x; for (auto &i : h) { s += i.src + " "; x += i.xml; } for (auto &a : as) { s += a.src + " "; x += xmlOf(a); } s += "}"; if (as.empty() && kw != "Concurrence" && kw != "UncheckedSequence" && kw != "Try" && kw != "CheckedSequence" && kw != "Sequence") return {s, "Node", " NodeType=\"Empty\"", x, ""}; return {s, kw.empty() ? "Sequence" : kw, "", x, ""}; }
string const CH = "Concurrence";
string plan(A const &a) { return DECLS + "Root: Concurrence {\n" + VARS + a.src + "\nZ: { }\n}\n"; }
string planX(A const &a) { return "<PlexilPlan>" + DECLX + "<Concurrence><NodeId>Root</NodeId>" + VARX + xmlOf(a) + "<Node NodeType=\"Empty\"><NodeId>Z</NodeId></Node></Concurrence></PlexilPlan>"; }
void good(char const *f, A const &a) { if (!stop() && H::mine(g_i++)) runIt(f, plan(a), planX(a)); }
void plans(char const *f, string const &src, char const *want) { one(f, DECLS + "Root: Concurrence {\n" + VARS + src + "\nZ: { }\n}\n", want); }
S waitS(S u) { return u; }
S lookup(string kw, string n, vector<S> args, S const *tol = nullptr) { string a, x; for (auto &i : args) { a += (a.empty() ? "" : ", ") + i.src; x += i.xml; } string e = kw == "LookupOnChange" ? kw : kw == "LookupNow" ? kw : "Lookup"; return {kw + "(" + n + (a.empty() ? "" : "(" + a + ")") + (tol ? ", " + tol->src : "") + ")", tagged(e, tagged("Name", lit("String", n)) + (tol ? tagged("Tolerance", tol->xml) : "") + (x.empty() ? "" : tagged("Arguments", x)))}; }
vector<A> simple() { vector<A> v; auto add = [&](A a) { v.push_back(a); }; S d;
  add(assign(X, num(1), "Numeric")); add(assign(R, X, "Numeric")); add(assign(B, tf(true), "Boolean")); add(assign(Q, str("q"), "String")); add(assign(el("arr", "Integer", num(0)), Y, "Numeric")); add(assign(el("arr", "Integer", bin("+", "ADD", X, num(1))), num(2), "Numeric")); add(assign(Y, el("arr", "Integer", X), "Numeric")); add(assign(R, lookup("Lookup", "temp", {X}), "Numeric"));
  add(command(call({"ci", ""}, true, {num(1), Q}, &X))); add(command(call({"ci", ""}, true, {bin("*", "MUL", X, num(3)), bin("+", "Concat", Q, str("k"))}))); add(command(call({"cd", ""}, true, {}))); add(command(call({"cd", ""}, true, {X, B, str("z"), R, tf(false)}))); add(command(call({"c0", ""}, true, {}))); add(command(call({"cb", ""}, true, {}, &B))); add(command(call({"cs", ""}, true, {}, &Q))); d = el("arr", "Integer", Y); add(command(call({"ci", ""}, true, {el("arr", "Integer", num(3)), str("")}, &d)));
  add(command(call(Q, false, {num(1)}))); add(command(call(bin("+", "Concat", str("na"), U), false, {}))); add(node("Update;", "Update", "<Update/>")); add(node("Update a = x;", "Update", "<Update><Pair><Name>a</Name>" + X.xml + "</Pair></Update>")); add(node("Update a = 1, taskId = \"t\", b = b;", "Update", "<Update><Pair><Name>a</Name>" + num(1).xml + "</Pair><Pair><Name>taskId</Name>" + str("t").xml + "</Pair><Pair><Name>b</Name>" + B.xml + "</Pair></Update>"));
  auto alias = [](string n, S e) { return tagged("Alias", tagged("NodeParameter", n) + e.xml); }; add(node("LibraryCall Lib(p = x, q = r);", "LibraryNodeCall", "<LibraryNodeCall><NodeId>Lib</NodeId>" + alias("p", X) + alias("q", R) + "</LibraryNodeCall>")); add(node("LibraryCall Lib(q = r, p = 7);", "LibraryNodeCall", "<LibraryNodeCall><NodeId>Lib</NodeId>" + alias("q", R) + alias("p", num(7)) + "</LibraryNodeCall>")); add(node("LibraryCall Lib0;", "LibraryNodeCall", "<LibraryNodeCall><NodeId>Lib0</NodeId></LibraryNodeCall>")); add(node("LibraryCall Lib0();", "LibraryNodeCall", "<LibraryNodeCall><NodeId>Lib0</NodeId></LibraryNodeCall>"));
  auto wait = [&](S u, S const *t) { add({"Wait " + u.src + (t ? ", " + t->src : "") + ";", "Wait", "", tagged("Units", u.xml) + (t ? tagged("Tolerance", t->xml) : ""), ""}); }; S one = num(1), half = real("0.5"); wait(num(3), nullptr); wait(real("2.5"), &R); wait(R, &half); wait(X, &one); wait(bin("*", "MUL", X, num(2)), nullptr);
  S ca = call({"ci", ""}, true, {X, Q}, &Y), cc = call({"cd", ""}, true, {B}), cq = call(Q, false, {}); for (auto &c : {ca, cc, cq}) for (string o : {"", " Checked", " Timeout 3.5", " Checked Timeout r", " Timeout 3.5 Checked", " Timeout 3.5, r", " Checked Timeout 3.5, r"}) { string x = o.find("Checked") != string::npos ? "<Checked/>" : ""; if (o.find("Timeout") != string::npos) x += tagged("Timeout", (o.find("Timeout r") != string::npos ? R.xml : lit("Real", "3.5")) + (o.find(',') != string::npos ? tagged("Tolerance", R.xml) : "")); add({"SynchronousCommand " + c.src + o + ";", "SynchronousCommand", "", x + c.xml, ""}); }
  return v; }
// attributes of a block
vector<Hd> attrs() { vector<Hd> v; S const conds[] = {B, bin("==", "EQNumeric", X, num(2)), {"isKnown(r)", "<IsKnown>" + R.xml + "</IsKnown>"}, bin("&&", "AND", B, {"!c", "<NOT>" + C.xml + "</NOT>"}), {"Z.state == FINISHED", "<EQInternal><NodeStateVariable><NodeId>Z</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>"}, {"Lookup(flag(s, 1.5))", lookup("Lookup", "flag", {Q, real("1.5")}).xml}, tf(true)};
  int i = 0; for (auto k : {"Start", "Repeat", "Skip", "Pre", "Post", "Invariant", "End", "Exit"}) for (auto &c : conds) { string full = string(k) + "Condition"; v.push_back({string(i++ % 2 ? k : full.c_str()) + " " + c.src + ";", tagged(full, c.xml)}); }
  v.push_back({"Using m;", "<UsingMutex><Name>m</Name></UsingMutex>"}); v.push_back({"Using gm, m;", "<UsingMutex><Name>gm</Name><Name>m</Name></UsingMutex>"}); v.push_back({"Priority 3;", "<Priority>3</Priority>"}); v.push_back({"Priority 0;", "<Priority>0</Priority>"}); return v; }
vector<Hd> decls() { vector<Hd> v; auto d = [&](string s, string x) { v.push_back({s, tagged("VariableDeclarations", x)}); }; auto iv = [](string x) { return tagged("InitialValue", x); }; auto D = [&](string n, string t, string x = "") { return tagged("DeclareVariable", tagged("Name", n) + tagged("Type", t) + x); }; auto DA = [&](string n, string t, string k, string x = "") { return tagged("DeclareArray", tagged("Name", n) + tagged("Type", t) + tagged("MaxSize", k) + x); };
  d("Integer k;", D("k", "Integer")); d("Integer k = 7;", D("k", "Integer", iv(lit("Integer", "7")))); d("Integer k = -7, l, o = 0;", D("k", "Integer", iv(lit("Integer", "-7"))) + D("l", "Integer") + D("o", "Integer", iv(lit("Integer", "0")))); d("Real k = 1.25;", D("k", "Real", iv(lit("Real", "1.25")))); d("Real k = 3, l = -2.5;", D("k", "Real", iv(lit("Real", "3"))) + D("l", "Real", iv(lit("Real", "-2.5")))); d("Boolean k = true;", D("k", "Boolean", iv(lit("Boolean", "true")))); d("String k = \"v\";", D("k", "String", iv(lit("String", "v")))); d("String k = \"\"; Boolean l = false;", D("k", "String", iv("<StringValue/>")) + D("l", "Boolean", iv(lit("Boolean", "false"))));
  d("Integer k[3];", DA("k", "Integer", "3")); d("Boolean k[1], l;", DA("k", "Boolean", "1") + D("l", "Boolean")); d("String k[2] = #(\"a\" \"b\");", DA("k", "String", "2", iv("<ArrayValue Type=\"String\">" + lit("String", "a") + lit("String", "b") + "</ArrayValue>"))); d("Integer k[5] = #(1 -2 3);", DA("k", "Integer", "5", iv("<ArrayValue Type=\"Integer\">" + lit("Integer", "1") + lit("Integer", "-2") + lit("Integer", "3") + "</ArrayValue>"))); d("Real k[2] = #(1.5 2);", DA("k", "Real", "2", iv("<ArrayValue Type=\"Real\">" + lit("Real", "1.5") + lit("Real", "2") + "</ArrayValue>"))); d("Mutex k, l;", "<DeclareMutex><Name>k</Name></DeclareMutex><DeclareMutex><Name>l</Name></DeclareMutex>"); d("Mutex k; Integer l;", D("l", "Integer") + "<DeclareMutex><Name>k</Name></DeclareMutex>");
  v.push_back({"Comment \"note <&> 'x'\";", "<Comment>note &lt;&amp;&gt; 'x'</Comment>"}); v.push_back({"In Boolean c;", "<Interface><In>" + D("c", "Boolean") + "</In></Interface>"}); v.push_back({"InOut Real r, ra[2];", "<Interface><InOut>" + D("r", "Real") + DA("ra", "Real", "2") + "</InOut></Interface>"}); v.push_back({"In Boolean b; InOut String s;", "<Interface><In>" + D("b", "Boolean") + "</In><InOut>" + D("s", "String") + "</InOut></Interface>"});
  return v; }
vector<A> reps() { vector<A> s = simple(); return {s[0], s[8], s[18], s[21], s[25], s[31]}; }
// statements around actions
vector<A> around(A const &p, A const &q, A const &r) { vector<A> v; auto n = [](A const &a) { return xmlOf(a); }; auto cond = [](S c) { return tagged("Condition", c.xml); }; S k1 = bin("<", "LT", X, num(3)), k2 = bin("||", "OR", B, C);
  v.push_back({"if (" + k1.src + ") " + p.src + " endif;", "If", "", cond(k1) + tagged("Then", n(p)), ""}); v.push_back({"if b " + p.src + " else " + q.src + " endif;", "If", "", cond(B) + tagged("Then", n(p)) + tagged("Else", n(q)), ""}); v.push_back({"if (b) " + p.src + " elseif (" + k2.src + ") " + q.src + " else " + r.src + " endif;", "If", "", cond(B) + tagged("Then", n(p)) + tagged("ElseIf", cond(k2) + tagged("Then", n(q))) + tagged("Else", n(r)), ""});
  v.push_back({"if (c) " + p.src + " elseif b " + q.src + " elseif (" + k1.src + ") " + r.src + " endif", "If", "", cond(C) + tagged("Then", n(p)) + tagged("ElseIf", cond(B) + tagged("Then", n(q))) + tagged("ElseIf", cond(k1) + tagged("Then", n(r))), ""});
  v.push_back({"while (" + k1.src + ") " + p.src, "While", "", cond(k1) + tagged("Action", n(p)), ""}); v.push_back({"while b " + p.src, "While", "", cond(B) + tagged("Action", n(p)), ""}); v.push_back({"do " + p.src + " while (" + k2.src + ");", "Do", "", cond(k2) + tagged("Action", n(p)), ""}); std::swap(v.back().inner, v.back().inner); v.back().inner = tagged("Action", n(p)) + cond(k2);
  S i{"i", "<IntegerVariable>i</IntegerVariable>"}, z{"z", "<RealVariable>z</RealVariable>"}; S ci = bin("<", "LT", i, num(4)), ui = bin("+", "ADD", i, num(1)), cz = bin(">", "GT", z, R), uz = bin("-", "SUB", z, real("0.5")); v.push_back({"for (Integer i = 0; " + ci.src + "; " + ui.src + ") " + p.src, "For", "", "<LoopVariable><DeclareVariable><Name>i</Name><Type>Integer</Type><InitialValue>" + lit("Integer", "0") + "</InitialValue></DeclareVariable></LoopVariable>" + cond(ci) + tagged("LoopVariableUpdate", ui.xml) + tagged("Action", n(p)), ""}); v.push_back({"for (Real z = 9.5; " + cz.src + "; " + uz.src + ") " + p.src, "For", "", "<LoopVariable><DeclareVariable><Name>z</Name><Type>Real</Type><InitialValue>" + lit("Real", "9.5") + "</InitialValue></DeclareVariable></LoopVariable>" + cond(cz) + tagged("LoopVariableUpdate", uz.xml) + tagged("Action", n(p)), ""});
  v.push_back({"OnMessage \"msg\" " + p.src, "OnMessage", "", tagged("Message", str("msg").xml) + n(p), ""}); v.push_back({"OnMessage (\"m\" + s) " + p.src, "OnMessage", "", tagged("Message", "<Concat>" + str("m").xml + Q.xml + "</Concat>") + n(p), ""}); v.push_back({"OnCommand \"cmd\" " + p.src, "OnCommand", "", tagged("Name", str("cmd").xml) + n(p), ""}); v.push_back({"OnCommand \"cmd\" (Integer a1, String a2) " + p.src, "OnCommand", "", "<VariableDeclarations>" + dv("a1", "Integer") + dv("a2", "String") + "</VariableDeclarations>" + tagged("Name", str("cmd").xml) + n(p), ""});
  return v; }
vector<A> blocks(vector<A> const &as) { vector<A> v; for (auto k : {"", "Sequence", "CheckedSequence", "UncheckedSequence", "Concurrence", "Try"}) v.push_back(block(k, {}, as)); return v; }
void exploreCN() { g_i = 0; auto bodies = simple(), rp = reps(); auto at = attrs(), de = decls(); vector<char const *> const KW = {"", "Sequence", "CheckedSequence", "UncheckedSequence", "Concurrence", "Try"};
  for (auto &b : bodies) { good("CN", b); good("CN", named("N", b)); for (auto &k : KW) { good("CN", block(k, {}, {b})); good("CN", named("N", block(k, {}, {named("M", b)}))); good("CN", named("N", block(k, {}, {b}))); good("CN", named("N", block(k, {}, {b, named("M", b), b}))); } }
  string const RES[][2] = {{"Name = \"mem\"", "<ResourceName><StringValue>mem</StringValue></ResourceName>"}, {"UpperBound = 3.5", "<ResourceUpperBound><RealValue>3.5</RealValue></ResourceUpperBound>"}, {"Priority = 2", "<ResourcePriority><IntegerValue>2</IntegerValue></ResourcePriority>"}, {"ReleaseAtTermination = false", "<ResourceReleaseAtTermination><BooleanValue>false</BooleanValue></ResourceReleaseAtTermination>"}};
  int p[] = {1, 2, 3}; do for (int n = 0; n < 4; ++n) { string s = "Resource " + RES[0][0], x = RES[0][1]; for (int i = 0; i < n; ++i) { s += ", " + RES[p[i]][0]; x += RES[p[i]][1]; } for (int two = 0; two < 2; ++two) { string s2 = s + ";", x2 = tagged("Resource", x); if (two) { s2 += " Resource Name = s;"; x2 += "<Resource><ResourceName>" + Q.xml + "</ResourceName></Resource>"; } x2 = tagged("ResourceList", x2);
    for (int j : {8, 10, 13, 16}) { A b = bodies[j]; size_t e = b.inner.find("<Command>") + 9; A c = b; c.inner = b.inner.substr(0, e) + x2 + b.inner.substr(e); for (auto &k : {"", "Sequence"}) for (auto &a : {at[1], at[14], at[57], at[58]}) { A o = block(k, {{s2, ""}, a}, {c}); o.src = string(k) + " { " + s2 + " " + a.src + " " + b.src + " }"; good("CN", named("N", o)); if (n == 3) { o.src = string(k) + " { " + a.src + " " + s2 + " " + b.src + " }"; good("CN", o); } } } } } while (std::next_permutation(p, p + 3));
  for (auto &h : at) for (auto &b : rp) for (auto &k : KW) { good("CN", named("N", block(k, {h}, {b}))); good("CN", block(k, {h}, {b, b})); good("CN", block(k, {h}, {named("M", b)})); } for (auto &h : at) for (auto k : KW) if (!*k) { good("CN", named("N", block(k, {h}, {}))); good("CN", block(k, {h}, {})); }
  for (auto &d : de) for (auto &b : rp) for (auto &k : KW) { good("CN", named("N", block(k, {d}, {b}))); good("CN", block(k, {d}, {b, b})); }
  for (size_t i = 0; i < at.size(); ++i) for (size_t j = 0; j < at.size(); ++j) { auto key = [&](size_t k) { return at[k].xml.substr(0, at[k].xml.find('>')); }; if (key(i) == key(j)) continue; if (!H::args.thorough && (i + j) % 3) continue; for (auto k : {0, 4}) good("CN", named("N", block(KW[k], {at[i], at[j]}, {rp[(i + j) % rp.size()]}))); }
  for (auto &d : de) for (auto &h : at) { good("CN", named("N", block("", {d, h}, {rp[0], rp[1]}))); if (!d.src.compare(0, 7, "Comment")) for (auto &d2 : de) if (&d2 != &d) good("CN", named("N", block("Sequence", {d, d2, h}, {rp[2]}))); }
  // all eight conditions at once, in every rotation
  for (int r = 0; r < 8; ++r) for (int c = 0; c < 7; ++c) { vector<Hd> h; for (int k = 0; k < 8; ++k) h.push_back(at[((k * (r % 2 ? 3 : 5) + r) % 8) * 7 + (c + k) % 7]); for (auto &b : rp) good("CN", named("N", block("", h, {b}))); } }
void exploreCS() { g_i = 0; vector<A> rp = reps(), in; for (auto &a : rp) { in.push_back(a); in.push_back(named("A1", a)); } for (auto &b : blocks({rp[0], rp[1]})) in.push_back(b); for (auto &b : blocks({rp[1]})) in.push_back(b); in.push_back(block("", {}, {})); in.push_back(named("A2", block("", {attrs()[1]}, {rp[0], named("A3", rp[1])}))); in.push_back(block("", {decls()[1], attrs()[3]}, {rp[0]}));
  A x = rp[0]; vector<A> w1; for (auto &p : in) for (auto &w : around(p, x, rp[1])) { w1.push_back(w); good("CS", w); good("CS", named("N", w)); good("CS", named("N", block("", {attrs()[2]}, {w}))); good("CS", block("Concurrence", {}, {w, x})); good("CS", block("Try", {}, {w})); }
  for (auto &q : in) { auto w = around(x, q, rp[1]), w2 = around(x, rp[1], q); for (int i : {1, 2, 3}) { good("CS", w[i]); good("CS", w2[i]); } }
  bool more = H::args.thorough; size_t step = more ? 1 : 3; auto noIf = [](A const &a) { return a.tag != "If"; }; vector<A> w2; for (size_t i = 0; i < w1.size(); i += step) { auto o = around(w1[i], x, x); for (size_t j = 0; j < o.size(); ++j) { if (j < 4 && !noIf(w1[i])) continue; good("CS", o[j]); if (i % 7 == j % 7) w2.push_back(o[j]); } for (auto &b : blocks({w1[i], w1[(i * 7 + 3) % w1.size()], named("L", x)})) { good("CS", b); good("CS", named("N", b)); } }
  for (size_t i = 0; i < w2.size(); i += more ? 1 : 2) for (auto &b : blocks({w2[i]})) { good("CS", named("N", b)); if (more) for (auto &o : around(b, x, x)) good("CS", o); } }
void exploreCR() { g_i = 0; vector<S> e; auto ev = [](string n, string v) { return tagged(n, v); }; vector<S> refs = {{"Z", "<NodeId>Z</NodeId>"}, {"N", "<NodeId>N</NodeId>"}, {"Root", "<NodeId>Root</NodeId>"}, {"K", "<NodeId>K</NodeId>"}, {"Self", "<NodeRef dir=\"self\"/>"}, {"Parent", "<NodeRef dir=\"parent\"/>"}, {"Sibling(Z)", "<NodeRef dir=\"sibling\">Z</NodeRef>"}, {"Child(K)", "<NodeRef dir=\"child\">K</NodeRef>"}};
  vector<S> conds; char const *ST[] = {"INACTIVE", "WAITING", "EXECUTING", "FINISHING", "FINISHED", "FAILING", "ITERATION_ENDED"}, *OC[] = {"SUCCESS", "FAILURE", "SKIPPED", "INTERRUPTED"}, *FL[] = {"PRE_CONDITION_FAILED", "POST_CONDITION_FAILED", "INVARIANT_CONDITION_FAILED", "PARENT_FAILED", "PARENT_EXITED", "EXITED"}, *CM[] = {"COMMAND_ABORTED", "COMMAND_ABORT_FAILED", "COMMAND_ACCEPTED", "COMMAND_DENIED", "COMMAND_FAILED", "COMMAND_INTERFACE_ERROR", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_SENT_TO_SYSTEM", "COMMAND_SUCCESS"};
  char const *const PR[][2] = {{"NodeExecuting", "Executing"}, {"NodeFailed", "Failed"}, {"NodeFinished", "Finished"}, {"NodeInactive", "Inactive"}, {"NodeInvariantFailed", "InvariantFailed"}, {"NodeIterationEnded", "IterationEnded"}, {"NodeIterationFailed", "IterationFailed"}, {"NodeIterationSucceeded", "IterationSucceeded"}, {"NodeParentFailed", "ParentFailed"}, {"NodePostconditionFailed", "PostconditionFailed"}, {"NodePreconditionFailed", "PreconditionFailed"}, {"NodeSkipped", "Skipped"}, {"NodeSucceeded", "Succeeded"}, {"NodeWaiting", "Waiting"}, {"NoChildFailed", "NoChildFailed"}};
  for (auto &r : refs) { bool cmd = r.src.find('K') != string::npos; auto cmp = [&](string field, string tag, string val, auto const &vals) { for (auto v : vals) { S a{r.src + "." + field, tagged(tag, r.xml)}, b{v, tagged(val, v)}; for (int ne = 0; ne < 2; ++ne) { conds.push_back(bin(ne ? "!=" : "==", ne ? "NEInternal" : "EQInternal", a, b)); conds.push_back(bin(ne ? "!=" : "==", ne ? "NEInternal" : "EQInternal", b, a)); } } S a{r.src + "." + field, tagged(tag, r.xml)}; conds.push_back({"isKnown(" + a.src + ")", tagged("IsKnown", a.xml)}); };
    cmp("state", "NodeStateVariable", "NodeStateValue", ST); cmp("outcome", "NodeOutcomeVariable", "NodeOutcomeValue", OC); cmp("failure", "NodeFailureVariable", "NodeFailureValue", FL); if (cmd) cmp("command_handle", "NodeCommandHandleVariable", "NodeCommandHandleValue", CM);
    for (auto &p : PR) { conds.push_back({string(p[0]) + "(" + r.src + ")", tagged(p[1], r.xml)}); conds.push_back({"!" + string(p[0]) + "(" + r.src + ")", tagged("NOT", tagged(p[1], r.xml))}); } for (auto st : ST) for (auto tp : {"START", "END"}) { S a{r.src + "." + st + "." + tp, tagged("NodeTimepointValue", r.xml + tagged("NodeStateValue", st) + tagged("Timepoint", tp))}; conds.push_back(bin(">", "GT", a, R)); conds.push_back(bin("<=", "LE", real("1.5"), a)); conds.push_back({"isKnown(" + a.src + ")", tagged("IsKnown", a.xml)}); } }
  vector<S> lk; S tol = real("0.5"), one = {"1", lit("Real", "1")}; for (auto k : {"Lookup", "LookupNow", "LookupOnChange"}) for (int t = 0; t < 4; ++t) { if (t && !strcmp(k, "LookupNow")) continue; S const *tp = t == 0 ? nullptr : t == 1 ? &tol : t == 2 ? &R : &one; vector<S> is = {num(1), X, bin("+", "ADD", X, num(1)), el("arr", "", num(2)), lookup("LookupNow", "temp", {Y})}; if (0) is.pop_back(); for (auto &a : is) { S l = lookup(k, "temp", {a}, tp); conds.push_back(bin(">", "GT", l, num(3))); conds.push_back(bin("==", "EQNumeric", l, R)); conds.push_back({"isKnown(" + l.src + ")", tagged("IsKnown", l.xml)}); } if (!tp) { S l = lookup(k, "name", {}); conds.push_back(bin("==", "EQString", l, str("v"))); conds.push_back(bin("!=", "NEString", Q, l)); l = lookup(k, "flag", {Q, R}); conds.push_back(l); conds.push_back({"!" + l.src, tagged("NOT", l.xml)}); l = lookup(k, "flag", {bin("+", "Concat", Q, str("w")), real("2.5")}); conds.push_back(bin("&&", "AND", l, B)); } }
  int i = 0; for (auto &c : conds) { string k = vector<string>{"Exit", "Start", "End", "Invariant", "Skip", "Repeat", "Post", "Pre"}[i++ % 8]; good("CR", named("N", block("", {{k + " " + c.src + ";", tagged(k + "Condition", c.xml)}}, {named("K", command(call({"cd", ""}, true, {}))), assign(X, num(1), "Numeric")}))); if (c.src.find("Sibling") == string::npos && c.src.find("Child") == string::npos && (H::args.thorough || i % 4 == 0)) good("CR", named("N", block("Concurrence", {}, {assign(B, c, "Boolean"), named("K", command(call({"cd", ""}, true, {}))), A{"if (" + c.src + ") x = 2; endif", "If", "", tagged("Condition", c.xml) + tagged("Then", xmlOf(assign(X, num(2), "Numeric"))), ""}}))); } }
// --- expressions
struct E { string op; vector<E> k; string src, xml; char type; int depth = 0; };
int prec(E const &e) { if (e.op.empty()) return e.src[0] == '-' ? 8 : 10; if (e.op == "OR") return 1; if (e.op == "XOR") return 2; if (e.op == "AND") return 3; if (e.op == "==" || e.op == "!=") return 4; if (e.op == "<" || e.op == "<=" || e.op == ">" || e.op == ">=") return 5; if (e.op == "+" || e.op == "-") return 6; if (e.op == "*" || e.op == "/" || e.op == "%") return 7; if (e.op == "neg" || e.op == "NOT") return 8; return 10; }
int g_style; // full brackets, spelling, layout
string render(E const &e, bool full) { if (e.op.empty()) return e.src; auto sub = [&](E const &c, int need) { string s = render(c, full); bool br = prec(c) < need || (full && !c.op.empty() && prec(c) < 10); return br ? "(" + s + ")" : s; }; int p = prec(e); string gap = g_style % 3 == 0 ? " " : g_style % 3 == 1 ? "\n " : " /* + ) */ ";
  if (e.op == "neg") return "-" + sub(e.k[0], e.k[0].op.empty() && isalpha((unsigned char)e.k[0].src[0]) && e.k[0].src.find('[') == string::npos ? 9 : e.k[0].op.size() > 2 && p < prec(e.k[0]) ? 9 : 11); if (e.op == "NOT") return (g_style % 2 ? "NOT " : "!") + sub(e.k[0], e.k[0].op.empty() || e.k[0].op == "isKnown" ? 9 : 11);
  if (p == 10) { if (e.op == "abs" && g_style % 2 && e.k[0].op.empty()) return "|" + e.k[0].src + "|"; if (e.op == "isKnown" && !e.k[0].op.empty() && prec(e.k[0]) < 10) return "isKnown((" + render(e.k[0], full) + "))"; string s = e.op + "("; for (size_t i = 0; i < e.k.size(); ++i) s += (i ? ", " : "") + render(e.k[i], full); return s + ")"; }
  bool assoc = p <= 3 || p >= 6; string o = e.op; if (g_style % 2) o = o == "OR" ? "||" : o == "AND" ? "&&" : o == "%" ? "mod" : o; return sub(e.k[0], assoc ? p : p + 1) + gap + o + gap + sub(e.k[1], p + 1); }
string xmlE(E const &e) { if (e.op.empty()) return e.xml; string x; for (auto &c : e.k) x += xmlE(c); char t = e.k[0].type; string n = t == 'B' ? "Boolean" : t == 'S' ? "String" : "Numeric"; static std::map<string, string> const M = {{"<", "LT"}, {"<=", "LE"}, {">", "GT"}, {">=", "GE"}, {"-", "SUB"}, {"neg", "SUB"}, {"*", "MUL"}, {"/", "DIV"}, {"%", "MOD"}, {"max", "MAX"}, {"min", "MIN"}, {"abs", "ABS"}, {"sqrt", "SQRT"}, {"ceil", "CEIL"}, {"floor", "FLOOR"}, {"round", "ROUND"}, {"trunc", "TRUNC"}, {"real_to_int", "REAL_TO_INT"}, {"strlen", "STRLEN"}, {"isKnown", "IsKnown"}};
  string g = e.op == "==" ? "EQ" + n : e.op == "!=" ? "NE" + n : e.op == "+" ? (t == 'S' ? "Concat" : "ADD") : M.count(e.op) ? M.at(e.op) : e.op; return tagged(g, x); }
E leaf(S s, char t) { E e; e.src = s.src; e.xml = s.xml; e.type = t; return e; }
E mk(string op, vector<E> k, char t) { E e; e.op = op; e.k = k; e.type = t; for (auto &c : k) e.depth = std::max(e.depth, c.depth + 1); return e; }
bool numt(char t) { return t == 'I' || t == 'R'; } char join(char a, char b) { return a == 'I' && b == 'I' ? 'I' : 'R'; }
template <class F> void combine(vector<E> const &a, vector<E> const &b, F f, bool all) { // every operator with operands from a and b
  auto nums = [](vector<E> const &v) { vector<E> r; for (auto &e : v) if (numt(e.type)) r.push_back(e); return r; }; auto of = [](vector<E> const &v, char t) { vector<E> r; for (auto &e : v) if (e.type == t) r.push_back(e); return r; }; auto na = nums(a), nb = nums(b), ba = of(a, 'B'), bb = of(b, 'B'), sa = of(a, 'S'), sb = of(b, 'S');
  for (auto &x : na) for (auto &y : nb) { for (auto o : {"+", "-", "*", "max", "min"}) f(mk(o, {x, y}, join(x.type, y.type))); f(mk("/", {x, y}, 'R')); f(mk("%", {x, y}, join(x.type, y.type))); for (auto o : {"<", "<=", ">", ">=", "==", "!="}) f(mk(o, {x, y}, 'B')); }
  for (auto &x : ba) for (auto &y : bb) for (auto o : {"AND", "OR", "XOR", "==", "!="}) f(mk(o, {x, y}, 'B')); for (auto &x : sa) for (auto &y : sb) { f(mk("+", {x, y}, 'S')); f(mk("==", {x, y}, 'B')); f(mk("!=", {x, y}, 'B')); }
  if (all) for (auto &x : a) { if (numt(x.type)) { for (auto o : {"neg", "abs"}) f(mk(o, {x}, x.type)); f(mk("sqrt", {x}, 'R')); for (auto o : {"ceil", "floor", "round", "trunc", "real_to_int"}) f(mk(o, {x}, 'I')); } if (x.type == 'B') f(mk("NOT", {x}, 'B')); if (x.type == 'S') f(mk("strlen", {x}, 'I')); if (x.op.empty() ? isalpha((unsigned char)x.src[0]) && x.src != "true" && x.src != "false" : true) f(mk("isKnown", {x}, 'B')); } }
struct Batch { vector<std::pair<string, string>> v; string fam; static string head() { return "Root: Concurrence { Integer x, y, arr[4]; Real r, yr; Boolean b, c, yb; String s, t, ys;\n"; }
  static string headX() { return "<PlexilPlan><Concurrence><NodeId>Root</NodeId><VariableDeclarations>" + dv("x", "Integer") + dv("y", "Integer") + da("arr", "Integer", "4") + dv("r", "Real") + dv("yr", "Real") + dv("b", "Boolean") + dv("c", "Boolean") + dv("yb", "Boolean") + dv("s", "String") + dv("t", "String") + dv("ys", "String") + "</VariableDeclarations>"; }
  static string text(vector<std::pair<string, string>> const &v) { string s = head(); for (auto &p : v) s += p.first + "\n"; return s + "Z: { }\n}\n"; } static string doc(vector<std::pair<string, string>> const &v) { string s = headX(); for (auto &p : v) s += p.second; return s + "<Node NodeType=\"Empty\"><NodeId>Z</NodeId></Node></Concurrence></PlexilPlan>"; }
  void flush() { if (v.empty() || stop()) { v.clear(); return; } if (H::mine(g_i++)) { string t = text(v), d = doc(v); H::cell(fam, t + "\n--- stands for\n" + d); Answer a = server().ask(t); H::st.evaluations += v.size(); H::st.executions++; H::st.traces++; H::distinct(t); if (!judge(d, a).empty()) { --H::st.executions; --H::st.traces; for (auto &p : v) if (!stop()) runIt(fam, text({p}), doc({p})); } else H::st.counters["translated"]++; if (H::st.executions % 401 == 1) H::sample(fam + " " + t.substr(0, 400)); } v.clear(); }
  void add(E const &e, bool full) { string to = numt(e.type) ? "yr" : e.type == 'B' ? "yb" : "ys", ty = numt(e.type) ? "Real" : e.type == 'B' ? "Boolean" : "String"; A a = assign({to, var(ty, to)}, {render(e, full), xmlE(e)}, numt(e.type) ? "Numeric" : ty); v.push_back({a.src, xmlOf(a)}); if (v.size() == 25) flush(); } };
void exploreCE() { g_i = 0; Batch bt; bt.fam = "CE"; uint64_t n = 0; auto put = [&](E const &e) { if (stop()) return; g_style = n++ % 6; if (H::args.thorough) { bt.add(e, false); bt.add(e, true); } else bt.add(e, n % 2); };
  vector<E> l0 = {leaf(X, 'I'), leaf(Y, 'I'), leaf(num(0), 'I'), leaf(num(1), 'I'), leaf(num(2), 'I'), leaf({"-3", lit("Integer", "-3")}, 'I'), leaf(el("arr", "", num(1)), 'I'), leaf({"0x10", lit("Integer", "16")}, 'I'), leaf({"array_size(arr)", "<ArraySize><ArrayVariable>arr</ArrayVariable></ArraySize>"}, 'I'), leaf(R, 'R'), leaf(real("0.0"), 'R'), leaf(real("1.0"), 'R'), leaf(real("2.5"), 'R'), leaf({"-0.5", lit("Real", "-0.5")}, 'R'), leaf(B, 'B'), leaf(C, 'B'), leaf(tf(true), 'B'), leaf(tf(false), 'B'), leaf(Q, 'S'), leaf(U, 'S'), leaf(str("ab"), 'S'), leaf({"\"\"", "<StringValue/>"}, 'S')};
  l0[8].src = "arraySize(arr)"; vector<E> l1; combine(l0, l0, [&](E const &e) { l1.push_back(e); put(e); }, true); bt.flush();
  vector<E> r0 = {l0[0], l0[3], l0[9], l0[10], l0[14], l0[16], l0[18]}, r1; combine(r0, r0, [&](E const &e) { r1.push_back(e); }, true); vector<E> few = {l0[0], l0[1], l0[2], l0[3], l0[9], l0[10], l0[11], l0[14], l0[16], l0[17], l0[18]};
  // one operand is itself an operation
  for (auto &e : l1) { if (stop()) break; vector<E> v{e}; combine(v, few, [&](E const &z) { put(z); }, true); combine(few, v, [&](E const &z) { put(z); }, false); if (!H::args.thorough && l1.size() > 800) ++n; } bt.flush();
  // both are
  uint64_t c = 0; combine(r1, r1, [&](E const &z) { if (H::args.thorough || c++ % 11 == 0) put(z); }, true); bt.flush(); }
// CL: literals
void exploreCL() { g_i = 0; vector<string> fr = {"0", "1", "9", "10", "07", "007", "123", "2147483647", "0x0", "0x1F", "0Xff", "0x7fffffff", "0o17", "0O7", "0o17777777777", "0b0", "0b101", "0B11", "0b1111111111111111111111111111111"}; auto value = [](string s) { int base = 10; string d = s; if (s.size() > 2 && s[0] == '0' && isalpha((unsigned char)s[1])) { char p = tolower(s[1]); base = p == 'x' ? 16 : p == 'o' ? 8 : 2; d = s.substr(2); } return strtoll(d.c_str(), nullptr, base); };
  auto both = [&](string l, string type, string v, string kind) { string nm = type == "Integer" ? "x" : type == "Real" ? "r" : type == "Boolean" ? "b" : "s"; S to{nm, var(type, nm)}; S e{l, lit(type, v)}; good("CL", assign(to, e, kind)); good("CL", named("N", block("", {{type + " k = " + l + ";", tagged("VariableDeclarations", tagged("DeclareVariable", tagged("Name", "k") + tagged("Type", type) + tagged("InitialValue", e.xml)))}}, {reps()[0], reps()[1]}))); good("CL", command(call({"cd", ""}, true, {e, X, e}))); good("CL", node("Update a = " + l + ";", "Update", "<Update><Pair><Name>a</Name>" + e.xml + "</Pair></Update>")); };
  for (auto &l : fr) for (auto sg : {"", "-"}) { string v = to_string(*sg ? -value(l) : value(l)); if (*sg && value(l) == 0) { continue; } both(sg + l, "Integer", v, "Numeric"); good("CL", assign(R, {sg + l, lit("Integer", v)}, "Numeric")); good("CL", assign(X, {"x + " + string(sg) + l, "<ADD>" + X.xml + lit("Integer", v) + "</ADD>"}, "Numeric")); good("CL", assign(X, {string(sg) + l + " * y", "<MUL>" + lit("Integer", v) + Y.xml + "</MUL>"}, "Numeric")); if (!*sg && value(l) < 4) { good("CL", assign(el("arr", "", {l, lit("Integer", v)}), {"arr[" + l + "]", el("arr", "", {l, lit("Integer", v)}).xml}, "Numeric")); } }
  both("-2147483648", "Integer", "-2147483648", "Numeric"); for (auto big : {"2147483648", "99999999999", "0x80000000", "0xffffffff", "0o20000000000", "0b10000000000000000000000000000000", "-2147483649", "123456789012345678901234567890"}) { for (auto f : {"x = ", "x = y + ", "r = ", "x = y * ", "x = arr["}) { string s = f; plans("CL", s + big + (s.back() == '[' ? "]" : "") + ";", "!"); } plans("CL", string("N: { Integer k = ") + big + "; x = k; }", "!"); plans("CL", string("cd(") + big + ");", "!"); }
  for (auto l : {"0.0", "1.0", "1.", ".5", "0.5", "00.5", "1e3", "1E3", "1e+3", "1e-3", "1.5e2", "1.e2", ".5e1", "0e0", "0.e1", "123456789.125", "2147483648.0", "1e300"}) for (auto sg : {"", "-"}) { string v = string(sg) + l; both(v, "Real", v, "Numeric"); good("CL", assign(R, {"r / " + v, "<DIV>" + R.xml + lit("Real", v) + "</DIV>"}, "Numeric")); good("CL", assign(R, {v + " - x", "<SUB>" + lit("Real", v) + X.xml + "</SUB>"}, "Numeric")); }
  struct { string src, val; } const STR[] = {{"plain", "plain"}, {"two words", "two words"}, {"a&b<c>d", "a&amp;b&lt;c&gt;d"}, {"it's", "it's"}, {"q\\\"q", "q&quot;q"}, {"b\\\\s", "b\\s"}, {"\\'", "'"}, {"tab\\tx", "tab&#9;x"}, {"nl\\nx", "nl&#10;x"}, {"\\x41", "A"}, {"\\101", "A"}, {"\\u0041z", "Az"}, {"\\U00000042z", "Bz"}, {"\\x26", "&amp;"}, {"\\60", "0"}, {"\\0601", "01"}, {"// no comment", "// no comment"}, {"/* nor this */", "/* nor this */"}, {"]]>", "]]&gt;"}, {"%s ${x}", "%s ${x}"}, {"{ } ( ) ;", "{ } ( ) ;"}, {"UNKNOWN", "UNKNOWN"}, {"  lead", "  lead"}, {"trail  ", "trail  "}};
  for (auto &s : STR) { both("\"" + s.src + "\"", "String", s.val, "String"); good("CL", assign(Q, {"s + \"" + s.src + "\" + t", "<Concat>" + Q.xml + lit("String", s.val) + U.xml + "</Concat>"}, "String")); if (s.src.find('\'') == string::npos && s.src.find('"') == string::npos) { both("'" + s.src + "'", "String", s.val, "String"); } good("CL", named("N", block("", {{"Comment \"" + s.src + "\";", tagged("Comment", s.val)}}, {reps()[0], reps()[1]}))); } both("'say \"x\"'", "String", "say &quot;x&quot;", "String"); both("\"\"", "String", "", "String"); both("''", "String", "", "String");
  both("true", "Boolean", "true", "Boolean"); both("false", "Boolean", "false", "Boolean"); }
// CT: what does not fit is refused, what fits is not
void exploreCT() { g_i = 0; struct Ty { char t; string e; }; vector<Ty> es = {{'I', "x"}, {'I', "3"}, {'I', "x + 1"}, {'I', "arr[0]"}, {'I', "floor(r)"}, {'I', "max(x, 1)"}, {'I', "strlen(s)"}, {'R', "r"}, {'R', "2.5"}, {'R', "r - 1"}, {'R', "1 + r"}, {'R', "r + x"}, {'R', "r * 2"}, {'R', "x - r"}, {'R', "ra[1]"}, {'R', "max(r, 1)"}, {'R', "min(x, 0.5)"}, {'R', "sqrt(r)"}, {'R', "Lookup(temp(1))"}, {'B', "b"}, {'B', "true"}, {'B', "x > 1"}, {'B', "b && c"}, {'B', "isKnown(x)"}, {'B', "s == t"}, {'B', "NodeFinished(Z)"}, {'S', "s"}, {'S', "\"k\""}, {'S', "s + t"}, {'S', "Lookup(name)"}, {'A', "arr"}, {'Q', "ra"}, {'N', "Z.state"}, {'N', "FINISHED"}, {'O', "Z.outcome"}};
  auto fits = [](char to, char from) { return to == from || (to == 'R' && from == 'I'); }; struct { string n; char t; } const TO[] = {{"x", 'I'}, {"r", 'R'}, {"b", 'B'}, {"s", 'S'}, {"arr[1]", 'I'}, {"ra[0]", 'R'}};
  for (auto &to : TO) for (auto &e : es) plans("CT", to.n + " = " + e.e + ";", fits(to.t, e.t) || (to.t == 'B' && (e.e == "0" || e.e == "1")) ? "?" : "!");
  for (auto k : {"Start", "Repeat", "Skip", "Pre", "Post", "Invariant", "End", "Exit"}) for (auto &e : es) plans("CT", string("N: { ") + k + " " + e.e + "; x = 1; }", e.t == 'B' ? "?" : "!"); for (auto &e : es) { char const *w = e.t == 'B' ? "?" : "!"; plans("CT", "if (" + e.e + ") x = 1; endif", w); plans("CT", "while (" + e.e + ") x = 1;", w); plans("CT", "do x = 1; while (" + e.e + ");", w); plans("CT", "for (Integer i = 0; " + e.e + "; i + 1) x = 1;", w); plans("CT", "b = !(" + e.e + ");", w); plans("CT", "x = arr[" + e.e + "];", e.t == 'I' ? "?" : "!"); plans("CT", "arr[" + e.e + "] = 1;", e.t == 'I' ? "?" : "!"); for (auto f : {"abs", "ceil", "floor", "round", "trunc", "real_to_int", "sqrt"}) plans("CT", string("r = ") + f + "(" + e.e + ");", numt(e.t) ? "?" : "!"); plans("CT", "x = strlen(" + e.e + ");", e.t == 'S' ? "?" : "!"); plans("CT", "r = -(" + e.e + ");", numt(e.t) ? "?" : "!"); plans("CT", "ci(" + e.e + ", s);", e.t == 'I' ? "?" : e.t == 'N' || e.t == 'O' || e.t == 'A' || e.t == 'Q' || e.t == 'S' || e.t == 'B' ? "!" : "?"); plans("CT", "ci(x, " + e.e + ");", e.t == 'S' ? "?" : "!"); plans("CT", "r = Lookup(temp(" + e.e + "));", e.t == 'I' || e.t == 'R' ? "?" : "!"); plans("CT", "LibraryCall Lib(p = " + e.e + ", q = r);", e.t == 'I' ? "?" : numt(e.t) ? "?" : "!"); plans("CT", "Wait " + e.e + ";", numt(e.t) ? "?" : "?");
    for (auto &f : es) { string a = "(" + e.e + ") ", b = " (" + f.e + ")"; bool nn = numt(e.t) && numt(f.t), bb = e.t == 'B' && f.t == 'B', ss = e.t == 'S' && f.t == 'S'; for (auto o : {"-", "*", "/", "%"}) plans("CT", "r = " + a + o + b + ";", nn ? "?" : "!"); plans("CT", "r = max(" + e.e + ", " + f.e + ");", nn ? "?" : "!"); plans("CT", "r = min(" + e.e + ", " + f.e + ");", nn ? "?" : "!"); plans("CT", "r = " + a + "+" + b + ";", nn ? "?" : "!"); plans("CT", "s = " + a + "+" + b + ";", ss ? "?" : "!"); for (auto o : {"<", ">="}) plans("CT", "b = " + a + o + b + ";", nn ? "?" : "!"); for (auto o : {"==", "!="}) plans("CT", "b = " + a + o + b + ";", nn || bb || ss || e.t == f.t ? "?" : "!"); for (auto o : {"AND", "OR", "XOR"}) plans("CT", "b = " + a + o + b + ";", bb ? "?" : "!"); } }
  // options of resources of every type; options and attributes given twice; resources of nodes that are no commands
  for (auto &e : es) { char const *n = numt(e.t) ? "?" : "!"; for (auto k : {"", "Sequence "}) { string h = string("N: ") + k + "{ Resource Name = ", x = ", Priority = 2", c = "; ci(1, s); }"; plans("CT", h + e.e + c, e.t == 'S' ? "?" : "!"); plans("CT", h + e.e + x + c, e.t == 'S' ? "?" : "!"); for (auto &o : {string(), x}) { string m = h + "\"mem\""; for (auto u : {", UpperBound = ", ", ReleaseAtTermination = "}) { bool rat = strstr(u, "Rel"); plans("CT", m + u + e.e + o + c, rat ? (e.t == 'B' ? "?" : "!") : n); plans("CT", m + o + u + e.e + c, rat ? (e.t == 'B' ? "?" : "!") : n); } } plans("CT", h + "\"mem\", Priority = " + e.e + c, n); } }
  string const opt[] = {"UpperBound = 2", "Priority = 1", "ReleaseAtTermination = true"}; for (auto &o : opt) { plans("CT", "N: { Resource Name = \"m\", " + o + ", " + o + "; ci(1, s); }", "!"); for (auto &q : opt) for (auto &z : opt) if (o == z || q == z || o == q) plans("CT", "N: { Resource Name = s, " + o + ", " + q + ", " + z + "; ci(1, s); }", "!"); } for (auto a : {"x = 1;", "Update x = 1;", "Wait 1.0;", "if (b) x = 1; endif", "ci(1, s); ci(2, s);", "{ x = 1; }", "A: x = 1;"}) plans("CT", string("N: { Resource Name = \"m\"; ") + a + " }", "!");
  vector<string> const av = {"Start b", "Start c", "Repeat b", "Skip b", "Pre c", "Post b", "Invariant c", "End b", "Exit c", "Priority 2"}; for (auto &a : av) for (auto &m : av) for (auto k : {"", "Sequence ", "Concurrence "}) for (auto s : {"x = 1;", "x = 1; r = 2.5;", "{ x = 1; }", ""}) { string w = a.substr(0, a.find(' ')); string h = string("N: ") + k + "{ "; plans("CT", h + a + "; " + m + "; " + a + "; " + s + " }", "!"); if (m.compare(0, w.size() + 1, w + " ")) continue; plans("CT", h + a + "; " + m + "; " + s + " }", "!"); for (auto &o : av) if (o.compare(0, w.size() + 1, w + " ")) plans("CT", h + o + "; " + a + "; " + m + "; " + s + " }", "!"); } }
char const *typeName(char t) { return t == 'I' ? "Integer" : t == 'R' ? "Real" : t == 'B' ? "Boolean" : "String"; }
// CA: declared parameters and the arguments of calls
void exploreCA() { g_i = 0; char const *const TY = "IRBSAY"; auto kidsOf = [](int n, int k, std::function<void(vector<int> const &)> const &f) { vector<int> v; std::function<void()> go = [&]() { f(v); if ((int) v.size() < n) for (int i = 0; i < k; ++i) { v.push_back(i); go(); v.pop_back(); } }; go(); };
  S const args[] = {X, R, B, Q, {"arr", "<ArrayVariable>arr</ArrayVariable>"}};
  int np = H::args.thorough ? 3 : 2, na = np + 2; kidsOf(np, 6, [&](vector<int> const &ps) { for (int wild = 0; wild < 2; ++wild) for (int form = 0; form < 3; ++form) { bool names = (ps.size() + form + (ps.empty() ? 0 : ps[0])) % 2; string s, x; int i = 0;
    for (int q : ps) { char c = TY[q]; string n = "a" + to_string(i++), ty = c == 'A' ? "Integer" : c == 'Y' ? "Any" : typeName(c); s += (s.empty() ? "" : ", ") + ty + (names ? " " + n : "") + (c == 'A' ? "[4]" : ""); x += tagged("Parameter", (names ? tagged("Name", n) : string()) + tagged("Type", ty) + (c == 'A' ? "<MaxSize>4</MaxSize>" : "")); }
    if (wild) { s += s.empty() ? "..." : ", ..."; x += "<AnyParameters/>"; }
    string d = form == 0 ? "Command ze(" + s + ");\n" : form == 1 ? "Integer Command ze(" + s + ");\n" : "Real Lookup ze(" + s + ");\n", dx = form == 2 ? "<StateDeclaration><Name>ze</Name>" + ret("Real") + x + "</StateDeclaration>" : "<CommandDeclaration><Name>ze</Name>" + (form ? ret("Integer") : string()) + x + "</CommandDeclaration>";
    kidsOf(na, 5, [&](vector<int> const &as) { if (stop() || !H::mine(g_i++)) return; if (!wild && as.size() > ps.size() + 1) return; if (as.size() > ps.size() + 2) return; vector<S> v; bool ok = wild ? as.size() >= ps.size() : as.size() == ps.size(), open = false; for (size_t k = 0; k < as.size(); ++k) { v.push_back(args[as[k]]); if (k >= ps.size()) continue; char to = TY[ps[k]], from = "IRBSA"[as[k]]; if (to == 'Y' || to == from || (to == 'R' && from == 'I')) continue; if (to == 'I' && from == 'R') open = true; else ok = false; }
      A a = form == 0 ? command(call({"ze", ""}, true, v)) : form == 1 ? command(call({"ze", ""}, true, v, &X)) : assign(R, lookup("Lookup", "ze", v), "Numeric"); string w = planX(a); size_t g = w.find("<GlobalDeclarations>") + 20; w = w.substr(0, g) + dx + w.substr(g); runIt("CA", d + plan(a), !ok ? "!" : open ? "?" : w.c_str()); }); } }); }
// CV: which declaration or node a name stands for
// kinds of levels: 0 nothing declared, I R B S a variable, f F a loop variable, p q a parameter of OnCommand, m a mutex
struct Level { char k; char type() const { return k == 'f' ? 'I' : k == 'F' ? 'R' : k == 'p' ? 'S' : k == 'q' ? 'I' : k == 'm' ? 0 : k; } };
A level(vector<Level> const &l, size_t i, size_t at, bool late, A const &use, Hd const *head) { vector<A> b; if (at == i && !late && !head) b.push_back(use); b.push_back(i + 1 < l.size() ? level(l, i + 1, at, late, use, head) : assign(Y, num(2), "Numeric")); b.push_back(assign(X, num(1), "Numeric")); if (at == i && late && !head) b.push_back(use);
  vector<Hd> h; char k = l[i].k; if (k && strchr("IRBS", k)) h.push_back({string(typeName(k)) + " k;", "<VariableDeclarations>" + dv("k", typeName(k)) + "</VariableDeclarations>"}); if (k == 'm') h.push_back({"Mutex k;", "<VariableDeclarations><DeclareMutex><Name>k</Name></DeclareMutex></VariableDeclarations>"}); if (head && at == i) h.push_back(*head); A w = block("", h, b);
  if (k == 'f' || k == 'F') { S v{"k", var(typeName(l[i].type()), "k")}, c = bin("<", "LT", v, num(4)), u = bin("+", "ADD", v, num(1)); string t = typeName(l[i].type()); return {"for (" + t + " k = 0; " + c.src + "; " + u.src + ") " + w.src, "For", "", "<LoopVariable><DeclareVariable><Name>k</Name>" + tagged("Type", t) + "<InitialValue>" + lit(t, "0") + "</InitialValue></DeclareVariable></LoopVariable>" + tagged("Condition", c.xml) + tagged("LoopVariableUpdate", u.xml) + tagged("Action", xmlOf(w)), ""}; }
  if (k == 'p' || k == 'q') { string t = typeName(l[i].type()); return {"OnCommand \"cmd\" (" + t + " k) " + w.src, "OnCommand", "", "<VariableDeclarations>" + dv("k", t) + "</VariableDeclarations>" + tagged("Name", str("cmd").xml) + xmlOf(w), ""}; }
  return w; }
void exploreCV() { g_i = 0; auto fits = [](char to, char from) { return to == from || (to == 'R' && from == 'I'); }; auto kind = [](char t) { return string(t == 'B' ? "Boolean" : t == 'S' ? "String" : "Numeric"); };
  char const KS[] = {0, 'I', 'R', 'B', 'S', 'f', 'F', 'p', 'q'}; size_t depth = H::args.thorough ? 4 : 3; vector<size_t> ix(depth); for (bool more = true; more;) { vector<Level> l; for (auto i : ix) l.push_back({KS[i]});
    for (size_t at = 0; at < depth; ++at) for (int late = 0; late < 2; ++late) { if (stop()) return; char t = 0; for (size_t i = 0; i <= at; ++i) if (l[i].k) t = l[i].type(); S v{"k", var(t ? typeName(t) : "Integer", "k")};
      struct { char t; S e; } const W[] = {{'I', num(1)}, {'R', real("1.5")}, {'B', tf(true)}, {'S', str("v")}, {'I', X}, {'S', Q}}; for (auto &w : W) { A u = assign(v, w.e, kind(w.t)), p = level(l, 0, at, late, u, nullptr); one("CV", plan(p), t && fits(t, w.t) ? planX(p) : "!"); }
      struct { char t; S e; } const G[] = {{'I', X}, {'R', R}, {'B', B}, {'S', Q}}; for (auto &w : G) { A u = assign(w.e, v, kind(w.t)), p = level(l, 0, at, late, u, nullptr); one("CV", plan(p), t && fits(w.t, t) ? planX(p) : "!"); }
      if (!late) { Hd h{"Start isKnown(k);", "<StartCondition><IsKnown>" + v.xml + "</IsKnown></StartCondition>"}; A p = level(l, 0, at, false, assign(X, X, "Numeric"), &h); one("CV", plan(p), t ? planX(p) : "!"); } }
    more = false; for (size_t i = 0; i < depth; ++i) { if (++ix[i] < sizeof KS) { more = true; break; } ix[i] = 0; } }
  // mutexes
  for (int bits = 0; bits < 16; ++bits) for (size_t at = 0; at < 4; ++at) { vector<Level> l; bool seen = false; for (int i = 0; i < 4; ++i) { l.push_back({bits >> i & 1 ? 'm' : '\0'}); if (i < (int)at) seen |= bits >> i & 1; } Hd h{"Using k;", "<UsingMutex><Name>k</Name></UsingMutex>"}; bool own = bits >> at & 1; A p = level(l, 0, at, false, assign(X, X, "Numeric"), &h); one("CV", plan(p), seen && !own ? planX(p) : own ? "?" : "!"); }
  // nodes: A { B { C D } E { F } } G
  struct Nd { char const *n; int up; } const T[] = {{"Root", -1}, {"A", 0}, {"B", 1}, {"C", 2}, {"D", 2}, {"E", 1}, {"F", 5}, {"G", 0}, {"Z", 0}}; size_t const n = sizeof T / sizeof *T; auto child = [&](int c, int p) { return T[c].up == p; }; auto reach = [&](int from, int to) { if (from == to || child(to, from)) return true; for (int a = T[from].up; a >= 0; a = T[a].up) if (a == to || child(to, a)) return true; return false; };
  auto tree = [&](int at, S const &c, string const &kd, string const &key) { Hd h{key + " " + c.src + ";", tagged(key + "Condition", c.xml)}; std::function<A(int)> mk = [&](int i) { vector<A> b; for (size_t j = 0; j < n; ++j) if (child(j, i)) b.push_back(mk(j)); bool leaf = b.empty(); if (leaf) b.push_back(assign(X, num(i), "Numeric")); vector<Hd> hs; if (i == at) hs.push_back(h); if (leaf && i != at) return named(T[i].n, b[0]); return named(T[i].n, block(leaf ? "" : kd, hs, b)); };
    A a = mk(1), g = mk(7); string src = DECLS + "Root: Concurrence {\n" + VARS + (at == 0 ? h.src + "\n" : "") + a.src + "\n" + g.src + "\nZ: { }\n}\n"; string x = "<PlexilPlan>" + DECLX + "<Concurrence><NodeId>Root</NodeId>" + VARX + (at == 0 ? h.xml : "") + xmlOf(a) + xmlOf(g) + "<Node NodeType=\"Empty\"><NodeId>Z</NodeId></Node></Concurrence></PlexilPlan>"; return std::make_pair(src, x); };
  int r = 0; for (int at = 0; at < 8; ++at) for (int to = 0; to < (int)n + 1; ++to) for (string kd : {"", "Concurrence", "UncheckedSequence", "Try"}) { string nm = to < (int)n ? T[to].n : "W"; bool ok = to < (int)n && reach(at, to), ch = to < (int)n && child(to, at), sib = to < (int)n && at && T[to].up == T[at].up && T[to].up >= 0; string key = vector<string>{"Start", "Exit", "End", "Invariant", "Skip", "Repeat", "Post", "Pre"}[r++ % 8];
    struct { string s, x; int w; } const RF[] = {{nm, tagged("NodeId", nm), ok}, {"Child(" + nm + ")", "<NodeRef dir=\"child\">" + nm + "</NodeRef>", ch}, {"Sibling(" + nm + ")", "<NodeRef dir=\"sibling\">" + nm + "</NodeRef>", sib ? (to == at ? 2 : 1) : 0}};
    for (auto &f : RF) for (int form = 0; form < 4; ++form) { S c; if (form == 0) c = {f.s + ".state == FINISHED", "<EQInternal>" + tagged("NodeStateVariable", f.x) + "<NodeStateValue>FINISHED</NodeStateValue></EQInternal>"}; else if (form == 1) c = {"NodeFailed(" + f.s + ")", tagged("Failed", f.x)}; else if (form == 2) c = {f.s + ".EXECUTING.END > 1.5", "<GT>" + tagged("NodeTimepointValue", f.x + "<NodeStateValue>EXECUTING</NodeStateValue><Timepoint>END</Timepoint>") + lit("Real", "1.5") + "</GT>"}; else c = {f.s + ".outcome != SKIPPED", "<NEInternal>" + tagged("NodeOutcomeVariable", f.x) + "<NodeOutcomeValue>SKIPPED</NodeOutcomeValue></NEInternal>"};
      auto p = tree(at, c, kd, key); one("CV", p.first, f.w == 1 ? p.second : f.w == 2 ? "?" : "!"); } } }
// CX: faulty plans
vector<string> const PLAN = {"Integer", "Command", "ci", "(", "Integer", "a", ",", "String", ")", ";", "Command", "cd", "(", "...", ")", ";", "Real", "Lookup", "temp", "(", "Integer", ")", ";", "LibraryNode", "Lib", "(", "In", "Integer", "p", ")", ";", "Mutex", "gm", ";", "Root", ":", "Concurrence", "{", "Comment", "\"c\"", ";", "Integer", "x", "=", "1", ",", "arr", "[", "4", "]", "=", "#(", "1", "2", ")", ";", "Real", "r", ";", "Boolean", "b", ";", "String", "s", ";", "Start", "x", "<", "3", "&&", "(", "b", "||", "!", "b", ")", ";", "Using", "gm", ";", "N1", ":", "{", "Resource", "Name", "=", "\"m\"", ",", "Priority", "=", "1", ";", "x", "=", "ci", "(", "x", "*", "2", ",", "s", ")", ";", "}", "if", "(", "b", ")", "arr", "[", "0", "]", "=", "2", ";", "else", "{", "r", "=", "Lookup", "(", "temp", "(", "1", ")", ",", "0.5", ")", ";", "}", "endif", "while", "(", "N1", ".", "state", "==", "FINISHED", ")", "{", "Update", "u", "=", "x", ",", "v", "=", "s", ";", "}", "for", "(", "Integer", "i", "=", "0", ";", "i", "<", "3", ";", "i", "+", "1", ")", "cd", "(", ")", ";", "LibraryCall", "Lib", "(", "p", "=", "x", ")", ";", "SynchronousCommand", "cd", "(", ")", "Timeout", "3.0", ";", "Wait", "2.0", ";", "OnMessage", "\"g\"", "{", "End", "NodeSucceeded", "(", "N1", ")", ";", "}", "}"};
string text(vector<string> const &t) { string s; for (auto &x : t) s += x + " "; return s + "\n"; }
bool balanced(vector<string> const &t) { string st; for (auto &x : t) { if (x == "(" || x == "#(") st += ')'; else if (x == "{") st += '}'; else if (x == "[") st += ']'; else if (x == ")" || x == "}" || x == "]") { if (st.empty() || st.back() != x[0]) return false; st.pop_back(); } } return st.empty(); }
vector<string> const TOK = {"{", "}", "(", ")", "[", "]", ";", ",", "=", "==", "+", "-", "!", "|", ":", ".", "x", "r", "s", "b", "N1", "zz", "7", "2.5", "\"s\"", "true", "Integer", "Real", "if", "else", "endif", "while", "Start", "Command", "Lookup", "FINISHED", "#(", "...", "Using", "In", "Wait", "do"};
void exploreCX() { g_i = 0; auto go = [](vector<string> const &v) { one("CX", text(v), balanced(v) ? "?" : "!"); }; if (g_i == 0 && H::mine(0)) { Answer a = server().ask(text(PLAN)); if (a.status) H::violate("CX good", "a good plan is refused\n" + a.err.substr(0, 400), text(PLAN) + "\n--- stands for\n?"); }
  for (size_t i = 0; i <= PLAN.size(); ++i) { auto v = PLAN; v.resize(i); go(v); if (i < PLAN.size()) { v = PLAN; v.erase(v.begin() + i); go(v); v = PLAN; v.insert(v.begin() + i, v[i]); go(v); for (auto &t : TOK) { v = PLAN; v[i] = t; go(v); v = PLAN; v.insert(v.begin() + i, t); go(v); } if (i + 1 < PLAN.size()) { v = PLAN; std::swap(v[i], v[i + 1]); go(v); v = PLAN; v.erase(v.begin() + i, v.begin() + i + 2); go(v); } }
    for (auto c : {"@", "$", "?", "~", "^", "`", "\\", "&", "#", "\"", "'", "0x", "/*"}) { vector<string> v = PLAN; v.insert(v.begin() + i, c); bool comment = !strcmp(c, "/*"); one("CX", text(v), comment && i >= PLAN.size() ? "!" : "!"); } }
  // names nothing stands behind
  for (size_t i = 37; i < PLAN.size(); ++i) { auto &t = PLAN[i]; if ((t == "x" || t == "s" || t == "r" || t == "b" || t == "arr" || t == "N1" || t == "gm" || t == "ci" || t == "cd" || t == "temp" || t == "Lib") && PLAN[i - 1] != "Integer" && PLAN[i - 1] != "Real" && PLAN[i - 1] != "Boolean" && PLAN[i - 1] != "String" && PLAN[i + 1] != ":" && PLAN[i + 1] != "[" ) { auto v = PLAN; v[i] = "nowhere"; bool var = t == "x" || t == "s" || t == "r" || t == "b" || t == "gm"; one("CX", text(v), var ? "!" : "?"); } }
  struct { char const *s, *w; } const F[] = {{"x = nowhere;", "!"}, {"nowhere = 1;", "!"}, {"x = nowhere[1];", "!"}, {"nowhere[0] = 1;", "!"}, {"x = s[1];", "!"}, {"x = r.state;", "!"}, {"N: { Start nowhere; x = 1; }", "!"}, {"N: { Start nowhere.state == FINISHED; x = 1; }", "!"}, {"N: { Start NodeFinished(nowhere); x = 1; }", "!"}, {"N: { Start Child(nowhere).state == FINISHED; x = 1; }", "!"}, {"N: { Start Sibling(nowhere).state == FINISHED; x = 1; }", "!"}, {"N: { Using nowhere; x = 1; }", "!"}, {"N: { Integer k; Integer k; x = 1; }", "!"}, {"N: { Integer k; Real k; x = 1; }", "!"}, {"N: { In Integer k; k = 1; }", "!"}, {"N: { Integer k; x = 1; } M: { x = k; }", "!"}, {"N: { Start b; Start c; x = 1; }", "!"}, {"N: { Priority 1; Priority 2; x = 1; }", "!"}, {"ci(1);", "!"}, {"ci(1, s, 2);", "!"}, {"ci();", "!"}, {"x = c0();", "!"}, {"s = cb();", "!"}, {"r = Lookup(temp);", "!"}, {"r = Lookup(temp(1, 2));", "!"}, {"s = Lookup(temp(1));", "!"}, {"LibraryCall Lib(p = x, q = r, w = 1);", "!"}, {"LibraryCall Lib(p = s, q = r);", "!"}, {"LibraryCall Lib(p = x, p = x, q = r);", "!"}, {"LibraryCall Lib(p = x, q = 2.5);", "!"}, {"x = cd;", "!"}, {"for (Integer i = 0; i < 3; i + 1) x = 1; x = i;", "!"}, {"x = arr;", "!"}, {"N: { Integer k[2] = #(1 2 3); x = 1; }", "!"}, {"N: { Integer k = \"a\"; x = 1; }", "!"}, {"N: { Integer k = 1.5; x = 1; }", "!"}, {"N: { Boolean k = \"a\"; x = 1; }", "!"}, {"N: { String k = 1; x = 1; }", "!"}, {"N: { Integer k = #(1 2); x = 1; }", "!"}, {"N: { Integer k[2] = #(1 true); x = 1; }", "!"}, {"N: { String k[2] = #(1 \"a\"); x = 1; }", "!"}, {"N: x = 1; N: x = 2;", "!"}};
  for (auto &f : F) { plans("CX", f.s, f.w); plans("CX", string("W: { x = 1; ") + f.s + " }", f.w); plans("CX", string("if (b) { x = 2; ") + f.s + " } endif", f.w); }
  one("CX", "", "!"); one("CX", "\n", "!"); one("CX", "// nothing\n", "!"); one("CX", "Root: { } Other: { }", "!"); one("CX", DECLS, "!"); for (auto d : {"Command k; Command k;", "Integer Lookup k; Real Lookup k;", "LibraryNode k; LibraryNode k;"}) one("CX", string(d) + " Root: { }", "!"); for (auto d : {"Mutex k; Mutex k;", "Mutex k, k;"}) one("CX", string(d) + " Root: { }", "?"); }
}
int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN); auto rp = [](char const *f) { return [f](string const &b) { string m = "\n--- stands for\n"; size_t i = b.find(m); string w = i == string::npos ? "?" : b.substr(i + m.size()); while (!w.empty() && w.back() == '\n') w.pop_back(); runIt(f, b.substr(0, i), w); }; };
  return H::run(argc, argv, {{"CA", exploreCA, rp("CA")}, {"CE", exploreCE, rp("CE")}, {"CL", exploreCL, rp("CL")}, {"CN", exploreCN, rp("CN")}, {"CS", exploreCS, rp("CS")}, {"CR", exploreCR, rp("CR")}, {"CT", exploreCT, rp("CT")}, {"CX", exploreCX, rp("CX")}, {"CV", exploreCV, rp("CV")}}); }
