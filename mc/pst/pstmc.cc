// The translator of simulation scripts (C36): the real program, run again and again in one Java virtual machine per process, against a translator written from the description of the language.
// PG well-formed elements, PS structures and sequences, PL layout, PX faulty scripts (every edit of a token or character).
#include "harness.hh"
#include "pugixml.hpp"
#include <climits>
#include <memory>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
using H::string; using H::vector; using std::to_string;
namespace {
// --- the real translator
string exeDir() { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; string s = b; return s.substr(0, s.rfind('/')); }
struct Answer { int status = 0; string out, err; bool dead = false; };
struct Server { pid_t pid = 0; int in = -1, out = -1;
  vector<string> cp(bool driver) { string d = exeDir() + "/../java"; vector<string> v{"java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xss1m"}; if (driver) v.push_back("-Djava.security.manager=allow"); v.insert(v.end(), {"-cp", d + "/plexilscript:" + d + "/driver:" + d + "/antlr.jar"}); if (driver) v.push_back("Driver"); v.push_back("plexilscript.PlexilScriptParse"); return v; }
  pid_t spawn(bool driver, int *i, int *o, int *e) { int a[2], b[2], c[2]; if (pipe(a) || pipe(b) || pipe(c)) exit(64); vector<string> v = cp(driver); vector<char *> w; for (auto &x : v) w.push_back((char *)x.c_str()); w.push_back(nullptr);
    pid_t p = fork(); if (!p) { dup2(a[0], 0); dup2(b[1], 1); if (driver) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); } else dup2(c[1], 2); for (int f = 3; f < 64; ++f) close(f); execvp("java", w.data()); _exit(127); }
    close(a[0]); close(b[1]); close(c[1]); *i = a[1]; *o = b[0]; if (e) *e = c[0]; else close(c[0]); return p; }
  void stop() { if (pid) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); close(in); close(out); pid = 0; } }
  ~Server() { stop(); }
  bool get(void *p, size_t n) { char *c = (char *)p; while (n) { struct pollfd f = {out, POLLIN, 0}; if (poll(&f, 1, 40000) <= 0) return false; ssize_t k = read(out, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
  bool num(uint32_t &x) { unsigned char b[4]; if (!get(b, 4)) return false; x = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; return true; }
  Answer ask(string const &s) { if (!pid) pid = spawn(true, &in, &out, nullptr); Answer a; uint32_t n = s.size(), x; string m{(char)(n >> 24), (char)(n >> 16), (char)(n >> 8), (char)n}; m += s; if (write(in, m.data(), m.size()) != (ssize_t)m.size()) a.dead = true;
    auto str = [&](string &t) { uint32_t k; if (!num(k)) return false; t.resize(k); return get(&t[0], k); }; if (a.dead || !num(x) || !str(a.out) || !str(a.err)) { a.dead = true; stop(); return a; } a.status = (int)x; return a; }
  // the program by itself
  Answer alone(string const &s) { int i, o, e; pid_t p = spawn(false, &i, &o, &e); Answer a; if (write(i, s.data(), s.size()) < 0) {} close(i); char b[4096]; bool oo = true, ee = true; while (oo || ee) { struct pollfd f[2] = {{oo ? o : -1, POLLIN, 0}, {ee ? e : -1, POLLIN, 0}}; if (poll(f, 2, 40000) <= 0) { a.dead = true; kill(p, SIGKILL); break; }
      if (f[0].revents) { ssize_t k = read(o, b, sizeof b); if (k <= 0) oo = false; else a.out.append(b, k); } if (f[1].revents) { ssize_t k = read(e, b, sizeof b); if (k <= 0) ee = false; else a.err.append(b, k); } }
    close(o); close(e); int st = 0; waitpid(p, &st, 0); a.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128; return a; } };
Server &server() { static Server s; return s; }
// --- the language
struct Tok { char k; string s; }; // w name or keyword, n number, s string, u unknown, or the character itself
bool lex(string const &t, vector<Tok> &v) { for (size_t i = 0; i < t.size();) { unsigned char c = t[i]; if (strchr(" \t\r\n", c) && c) { ++i; continue; }
    if (c == '/') { if (t.compare(i, 2, "//")) return false; size_t e = t.find('\n', i); if (e == string::npos) return false; i = e + 1; continue; }
    if (c && strchr("{}();,:=", c)) { v.push_back({(char)c, ""}); ++i; continue; }
    if (c == '"') { size_t e = t.find('"', i + 1); if (e == string::npos) return false; v.push_back({'s', t.substr(i + 1, e - i - 1)}); i = e + 1; continue; }
    if (c == '<') { if (t.compare(i, 9, "<unknown>")) return false; v.push_back({'u', ""}); i += 9; continue; }
    size_t b = i; if (isdigit(c) || c == '-') { if (c == '-') ++i; size_t d = i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i; if (i == d) return false; if (i < t.size() && t[i] == '.') { d = ++i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i; if (i == d) return false; } v.push_back({'n', t.substr(b, i - b)}); continue; }
    if (isalpha(c) && c < 128) { while (i < t.size() && (unsigned char)t[i] < 128 && (isalnum((unsigned char)t[i]) || strchr("_-.", t[i]))) ++i; v.push_back({'w', t.substr(b, i - b)}); continue; }
    return false; } return true; }
struct Kind { char const *word, *tag, *result, *fixed; };
Kind const CMD[] = {{"state", "State", "Value", nullptr}, {"function-call", "FunctionCall", "Result", nullptr}, {"command", "Command", "Result", nullptr}, {"command-abort", "CommandAbort", "Result", nullptr}, {"command-ack", "CommandAck", "Result", nullptr},
  {"command-accepted", "CommandAck", "Result", "COMMAND_ACCEPTED"}, {"command-denied", "CommandAck", "Result", "COMMAND_DENIED"}, {"command-sent-to-system", "CommandAck", "Result", "COMMAND_SENT_TO_SYSTEM"}, {"command-rcvd-by-system", "CommandAck", "Result", "COMMAND_RCVD_BY_SYSTEM"}, {"command-success", "CommandAck", "Result", "COMMAND_SUCCESS"}, {"command-failed", "CommandAck", "Result", "COMMAND_FAILED"}};
char const *const TYPES[] = {"int", "real", "bool", "string", "int-array", "real-array", "bool-array", "string-array"};
char const *const OTHER[] = {"initial-state", "script", "simultaneous", "update-ack", "delay", "true", "false"};
bool keyword(string const &w) { for (auto &k : CMD) if (w == k.word) return true; for (auto k : TYPES) if (w == k) return true; for (auto k : OTHER) if (w == k) return true; return false; }
string esc(string const &s) { string o; for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : string(1, c); return o; }
struct Bad {};
struct Model { vector<Tok> v; size_t i = 0; bool odd = false; int level = 0; // odd: grammatical, but no script the executive would take
  bool at(char k) { return i < v.size() && v[i].k == k; } bool word(char const *w) { return at('w') && v[i].s == w; } void need(char k) { if (!at(k)) throw Bad(); ++i; }
  string id() { if (!at('w') || keyword(v[i].s)) throw Bad(); return v[i++].s; }
  string type() { if (at('w')) for (auto t : TYPES) if (v[i].s == t) { ++i; return t; } throw Bad(); }
  char last; string value() { if (i >= v.size()) throw Bad(); Tok t = v[i++]; if (t.k == 'w' && (t.s == "true" || t.s == "false")) { last = 'b'; return t.s; } if (t.k == 'u') { last = 'u'; return "Plexil_Unknown"; } if (t.k == 's') { last = 's'; return t.s; } if (t.k == 'n') { last = t.s.find('.') == string::npos ? 'i' : 'r'; if ((t.s == "1" || t.s == "0")) last = 'o'; return t.s; } throw Bad(); }
  bool fits(char k, string const &t) { string b = t.substr(0, t.find('-')); return k == 'u' || (b == "int" && (k == 'i' || k == 'o')) || (b == "real" && (k == 'i' || k == 'o' || k == 'r')) || (b == "bool" && (k == 'b' || k == 'o')) || (b == "string" && k == 's'); }
  string params() { string x; need('('); if (!at(')')) for (;;) { string s = value(); char k = last; need(':'); string t = type(); if (!fits(k, t) || t.find('-') != string::npos) odd = true; x += "<Param type=\"" + t + "\">" + esc(s) + "</Param>"; if (!at(',')) break; ++i; } need(')'); return x; }
  string element(int lv) { if (!at('w')) throw Bad(); string w = v[i].s;
    for (auto &k : CMD) if (w == k.word) { if (lv == 0) odd = true; ++i; string n = id(), p = params(), r, t = "string"; if (k.fixed) r = string("<Result>") + k.fixed + "</Result>"; else { need('='); vector<string> rs; string ks; bool par = at('('); if (par) ++i; for (;;) { rs.push_back(value()); ks += last; if (!par || !at(',')) break; ++i; } if (par) need(')'); need(':'); t = type(); bool arr = t.find('-') != string::npos; if (!arr && rs.size() != 1) odd = true; for (char c : ks) if (!fits(c, t)) odd = true; for (auto &x : rs) r += string("<") + k.result + ">" + esc(x) + "</" + k.result + ">"; }
      need(';'); return string("<") + k.tag + " name=\"" + n + "\" type=\"" + t + "\">" + p + r + "</" + k.tag + ">"; }
    if (w == "update-ack") { if (lv == 0) odd = true; ++i; string n = id(); need(';'); return "<UpdateAck name=\"" + n + "\"/>"; }
    if (w == "delay") { if (lv == 0) odd = true; ++i; need(';'); return "<Delay/>"; }
    char const *tag = w == "initial-state" ? "InitialState" : w == "script" ? "Script" : w == "simultaneous" ? "Simultaneous" : nullptr; if (!tag) throw Bad(); bool sim = w == "simultaneous"; if (sim ? lv != 2 : lv != 0) odd = true; ++i; need('{'); string x = elements(sim ? 3 : w == "script" ? 2 : 1); need('}'); return string("<") + tag + ">" + x + "</" + tag + ">"; }
  string elements(int lv) { string x; int n = 0; bool script = false; while (at('w')) { if (!lv) { if (word("initial-state") ? n > 0 : script) odd = true; script |= word("script"); } x += element(lv); ++n; } if (!lv && !script) odd = true; if (lv == 1 && x.find("<Delay") != string::npos) odd = true; return x; }
  string top() { string x = elements(0); if (i != v.size()) throw Bad(); return "<PLEXILScript>" + x + "</PLEXILScript>"; } };
unsigned const PARSE = pugi::parse_default | pugi::parse_ws_pcdata_single;
string canon(pugi::xml_node n) { string x = "<" + string(n.name()); std::map<string, string> a; for (auto t : n.attributes()) a[t.name()] = t.value(); for (auto &t : a) x += " " + t.first + "=" + t.second; x += ">"; bool el = strcmp(n.name(), "Param") && strcmp(n.name(), "Value") && strcmp(n.name(), "Result"); for (auto c : n.children()) { if (c.type() == pugi::node_element) x += canon(c); else if (el) { string s = c.value(); if (s.find_first_not_of(" \t\r\n") != string::npos) x += "[" + s + "]"; } else x += "[" + string(c.value()) + "]"; } return x + "</>"; }
bool xmlText(string const &m) { for (size_t i = 0; i < m.size(); ++i) { if (m[i] == '&') { size_t j = m.find(';', i); string e = j == string::npos ? "" : m.substr(i + 1, j - i - 1); if (!(e == "lt" || e == "gt" || e == "amp" || e == "quot" || e == "apos" || (e.size() > 1 && e[0] == '#'))) return false; } if (m.compare(i, 3, "]]>") == 0) return false; } return true; }
bool canonical(string const &m, string &c) { if (!xmlText(m)) return false; pugi::xml_document d; if (!d.load_buffer(m.data(), m.size(), PARSE)) return false; int n = 0; for (auto x : d.children()) { if (x.type() == pugi::node_element) { ++n; c = canon(x); } else if (x.type() == pugi::node_pcdata) return false; } return n == 1; }
string judge(string const &t, Answer const &a) { if (a.dead) return "the translator does not end"; Model m; bool good = lex(t, m.v); string want; if (good) try { want = m.top(); } catch (Bad) { good = false; }
  if (!good) { if (a.status == 0) return "a faulty script is accepted (exit status 0)"; if (a.err.empty() && a.out.empty()) return "a faulty script is refused without a message"; return ""; }
  if (a.status) return m.odd ? "" : "a good script is refused: " + a.err.substr(0, 200); string got, w; if (!canonical(want, w)) return "internal: model"; if (!canonical(a.out, got)) return "the translation is not well-formed"; if (got != w) return "the translation is wrong\nis        " + got + "\nshould be " + w; if (!a.err.empty() && !m.odd) return "a good script is complained about: " + a.err.substr(0, 200); return ""; }
void runIt(string const &fam, string const &t) { H::cell(fam, t); H::st.executions++; H::st.traces++; H::st.evaluations += t.size() ? 1 : 0; Answer a = server().ask(t); string bad = judge(t, a); H::distinct(t); H::st.counters[a.status ? "refused" : "translated"]++;
  static std::map<string, int> tried; string key = bad.substr(0, bad.find_first_of("\n:"));
  if (!bad.empty() && tried[key]++ > 20) H::st.counters["more of the same"]++; else if (!bad.empty()) { Answer b = server().alone(t); bad = judge(t, b); if (bad.empty()) { H::st.counters["only in one machine"]++; return; } H::violate(fam + " " + bad.substr(0, bad.find_first_of("\n:")), t + "\n" + bad + "\n" + b.out.substr(0, 600) + b.err.substr(0, 300), t); } else H::sample(t); }
uint64_t g_i; bool stop() { if (H::full() || H::st.capped) return true; if (H::timeUp()) H::st.capped = true; return H::st.capped; }
void one(string const &fam, string const &t) { if (!stop() && H::mine(g_i++)) runIt(fam, t); }
// PG: single elements
vector<string> const VAL = {"true", "false", "<unknown>", "\"\"", "\"abc\"", "\"a & b\"", "\"<x>\"", "\"x > 1; // no 'comment'\"", "\" two  blanks \"", "\"&amp;\"", "\"]]>\"", "\"<unknown>\"", "\"%s %n\"", "\"a\\\\b\"", "\"two\n lines\"", "\"\ttab\"", "\"it is 'so'\"", "0", "1", "12", "-3", "1.5", "-0.25", "007"};
vector<string> const NAMES = {"x", "a-b", "a.b", "A_1", "state-1", "truer", "delays"};
string wrap(string const &e) { return "script { " + e + " }\n"; }
void explorePG() { g_i = 0; vector<string> P; for (auto &v : VAL) for (auto t : TYPES) { if (!strchr(t, '-')) P.push_back(v + ":" + t); else if (v.size() < 4) P.push_back(v + " : " + t); }
  auto fit = [](string const &v, string t) { char c = v[0]; string b = t.substr(0, t.find('-')); return v == "<unknown>" || (b == "string" ? c == '"' : b == "bool" ? c == 't' || c == 'f' || v == "1" || v == "0" : b == "int" ? (isdigit(c) || c == '-') && v.find('.') == string::npos : isdigit(c) || c == '-'); };
  for (auto &k : CMD) for (auto &n : NAMES) { string e = k.fixed ? ";" : " = 1 : int;"; one("PG", wrap(string(k.word) + " " + n + " ()" + e)); one("PG", wrap(string(k.word) + " " + n + "(1:int)" + e)); one("PG", wrap(string(k.word) + " " + n + " (\"" + n + "\":string, 2 : int)" + e)); }
  for (auto &n : NAMES) one("PG", wrap("update-ack " + n + ";")); for (auto k : OTHER) { one("PG", wrap(string("update-ack ") + k + ";")); one("PG", wrap(string("state ") + k + "() = 1 : int;")); } for (auto &k : CMD) one("PG", wrap(string("command ") + k.word + "() = 1 : int;"));
  for (auto &k : CMD) { string e = k.fixed ? ";" : " = \"r\" : string;"; for (auto &p : P) { one("PG", wrap(string(k.word) + " c (" + p + ")" + e)); for (auto &q : P) { if (&k - CMD > 5 && !H::args.thorough && (&p - &P[0]) % 7) continue; one("PG", wrap(string(k.word) + " c (" + p + ", " + q + ")" + e)); } } }
  for (auto &k : CMD) if (!k.fixed) for (auto t : TYPES) for (auto &v : VAL) { for (string o : {"", "("}) one("PG", wrap(string(k.word) + " c () = " + o + v + (o.empty() ? "" : ")") + " : " + t + ";"));
      if (strchr(t, '-')) for (auto &w : VAL) { if (!fit(v, t) && !fit(w, t)) continue; one("PG", wrap(string(k.word) + " c (7 : int) = (" + v + ", " + w + ") : " + t + ";")); for (auto &x : VAL) if (fit(v, t) && fit(w, t) && fit(x, t)) one("PG", wrap(string(k.word) + " c () = (" + v + ", " + w + ", " + x + ") : " + t + ";")); } }
  vector<string> few = {"1:int", "\"a\":string", "<unknown>:real", "true:bool"}; std::function<void(string, int)> go = [&](string s, int n) { if (n) for (auto &k : CMD) one("PG", wrap(string(k.word) + " c (" + s + ")" + (k.fixed ? ";" : " = 0:int;"))); if (n < 4 + H::args.thorough) for (auto &f : few) go(s + (n ? "," : "") + f, n + 1); }; go("", 0); }
// PS: structures
void explorePS() { g_i = 0; vector<string> L = {"delay;", "update-ack u;", "state s () = 1 : int;", "state s () = 2 : int;", "command c (1:int) = true : bool;", "command-ack c () = \"COMMAND_SUCCESS\" : string;", "command-success c ();", "command-denied c (\"x\":string);", "command-abort c () = true : bool;", "function-call f () = (1, 2) : int-array;", "command-failed c ();", "simultaneous { }", "simultaneous { delay; }", "simultaneous { state s () = 3 : int; command-accepted c (); }"};
  int depth = H::args.thorough ? 5 : 4; std::function<void(string, int, char const *)> go = [&](string s, int n, char const *where) { one("PS", strcmp(where, "initial-state") ? strcmp(where, "simultaneous") ? "script { " + s + "}" : "script { delay; simultaneous { " + s + "} delay; }\n" : "initial-state { " + s + "} script { delay; }\n"); if (stop()) return; if (n < depth) for (auto &l : L) { if (n > 2 && &l - &L[0] > 5) continue; go(s + l + " ", n + 1, where); } };
  for (auto w : {"script", "initial-state", "simultaneous"}) go("", 0, w);
  vector<string> T = {"initial-state { }", "initial-state { state s () = 1 : int; }", "script { }", "script { delay; }", "simultaneous { delay; }", "delay;", "state s () = 1 : int;", "{", "}", ";", "script {", "initial-state {"}; std::function<void(string, int)> top = [&](string s, int n) { one("PS", s); if (stop()) return; if (n < 4 + H::args.thorough) for (auto &t : T) top(s + t + "\n", n + 1); }; top("", 0); }
// PL: layout
vector<string> const SCRIPT = {"initial-state", "{", "state", "s", "(", "\"a  b\"", ":", "string", ",", "-1", ":", "int", ")", "=", "(", "1.5", ",", "<unknown>", ")", ":", "real-array", ";", "}", "script", "{", "simultaneous", "{", "update-ack", "u", ";", "command-success", "c", "(", ")", ";", "}", "delay", ";", "command", "c", "(", "true", ":", "bool", ")", "=", "0", ":", "int", ";", "}"};
void explorePL() { g_i = 0; vector<string> const G = {"", " ", "\n", "\t", "\r\n", "// note\n", "//\n", " // a { \"quote ; \n// b }\n ", "   \n\n  ", "//// \t\n"}; size_t n = SCRIPT.size(); auto text = [&](size_t a, int x, size_t b, int y, int base) { string s; for (size_t k = 0; k <= n; ++k) { s += k == a ? G[x] : k == b ? G[y] : G[base]; if (k < n) s += SCRIPT[k]; } return s; };
  for (int base = 1; base < (int)G.size(); ++base) for (size_t a = 0; a <= n; ++a) for (int x = 0; x < (int)G.size(); ++x) { one("PL", text(a, x, n + 9, 0, base)); if (base == 1) for (size_t b = a + 1; b <= n; ++b) { if (!H::args.thorough && b > a + 4 && b != n) continue; for (int y = 0; y < (int)G.size(); ++y) one("PL", text(a, x, b, y, base)); } }
  for (string s : {"// only\n", "", " ", "\n", "// first\nscript{delay;}", "script{delay;}// last\n", "script{delay;}\n\n", "/", "/ /", "script{delay;} /", "script{delay;} / note\n", "script{/* */}", "#", "script{delay;}\\"}) one("PL", s); }
// PX: faulty scripts
vector<vector<string>> const CORPUS = {SCRIPT, {"script", "{", "command-ack", "c", "(", "1", ":", "int", ",", "\"x\"", ":", "string", ")", "=", "\"COMMAND_SUCCESS\"", ":", "string", ";", "delay", ";", "}"}, {"initial-state", "{", "}", "script", "{", "}"}, {"script", "{", "command-abort", "a", "(", ")", "=", "false", ":", "bool", ";", "function-call", "f", "(", "<unknown>", ":", "real", ")", "=", "(", "1", ",", "2", ")", ":", "int-array", ";", "}"}, {"script", "{", "simultaneous", "{", "state", "s", "(", ")", "=", "3", ":", "int", ";", "}", "command-denied", "c", "(", ")", ";", "update-ack", "u", ";", "}"}};
vector<string> const TOKS = {"{", "}", "(", ")", ";", ",", ":", "=", "x", "12", "-1.5", "\"s\"", "<unknown>", "true", "int", "string-array", "initial-state", "script", "simultaneous", "state", "command", "command-success", "command-sent-to-system", "update-ack", "delay", "scripts", "Script", "-", "\"", "<", "<unknown", "1.", "1.2.3", "1e5", "@", "/", "integer", "//"};
string join(vector<string> const &t) { string s; for (auto &x : t) s += x + " "; return s + "\n"; }
vector<vector<string>> edits(vector<string> const &t, size_t from, size_t to, vector<string> const &toks) { vector<vector<string>> r; for (size_t i = from; i <= t.size() && i < to; ++i) { auto v = t; for (auto &x : toks) { v = t; v.insert(v.begin() + i, x); r.push_back(v); if (i < t.size() && t[i] != x) { v = t; v[i] = x; r.push_back(v); } } if (i < t.size()) { v = t; v.erase(v.begin() + i); r.push_back(v); v = t; v.insert(v.begin() + i, t[i]); r.push_back(v); if (i + 1 < t.size()) { v = t; std::swap(v[i], v[i + 1]); r.push_back(v); } v.assign(t.begin(), t.begin() + i); r.push_back(v); v.assign(t.begin() + i, t.end()); r.push_back(v); } } return r; }
void explorePX() { g_i = 0; vector<string> few = {"}", ")", ";", ",", ":", "x", "1", "script", "delay", "{"};
  for (auto &c : CORPUS) { auto e = edits(c, 0, 1000, TOKS); for (auto &v : e) one("PX", join(v)); size_t step = H::args.thorough ? 12 : 5; for (size_t i = 0; i <= c.size(); ++i) { auto e1 = edits(c, i, i + 1, few); for (auto &v : e1) { if (v.size() + 3 < c.size()) continue; for (auto &w : edits(v, i, i + step, few)) if (w.size() + 4 > c.size()) one("PX", join(w)); if (stop()) return; } } }
  string const chars = "{}();,:=\"<>-./ \na1@%"; for (auto &c : CORPUS) { string t = join(c); for (size_t i = 0; i <= t.size(); ++i) { one("PX", t.substr(0, i)); one("PX", t.substr(i)); if (i < t.size()) { string s = t; s.erase(i, 1); one("PX", s); } for (char x : chars) { string s = t; s.insert(i, 1, x); one("PX", s); if (i < t.size()) { s = t; s[i] = x; one("PX", s); } } } }
  int depth = H::args.thorough ? 4 : 3; std::function<void(string, int)> go = [&](string s, int n) { if (stop()) return; one("PX", s); one("PX", "script { " + s + "}"); if (n < depth) for (auto &t : TOKS) { if (n > 2 && t.size() > 1) continue; go(s + t + " ", n + 1); } }; go("", 0); }
}
int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN); auto rp = [](char const *f) { return [f](string const &b) { string t = b; if (!t.empty() && t.back() == '\n') t.pop_back(); runIt(f, t); if (!t.empty()) runIt(f, b); }; };
  return H::run(argc, argv, {{"PG", explorePG, rp("PG")}, {"PS", explorePS, rp("PS")}, {"PL", explorePL, rp("PL")}, {"PX", explorePX, rp("PX")}}); }
