// The stand-alone simulator: scripts read by the real reader, and the real simulator on a virtual clock, under every
// bounded sequence of commands, lookups and passing time, and every schedule of its two threads up to a preemption bound.
#include "explore.hh"
#include "Agenda.hh"
#include "CommRelayBase.hh"
#include "CommandResponseManager.hh"
#include "GenericResponse.hh"
#include "PlexilSimResponseFactory.hh"
#include "PlanError.hh"
#include "ResponseMessage.hh"
#include "Simulator.hh"
#include "SimulatorScriptReader.hh"
#include "Value.hh"
#include "Error.hh"
#include <algorithm>
#include <csignal>
#include <memory>
#include <sys/time.h>
#include <thread>
using namespace PLEXIL;
namespace {
char g_script[16]; char g_ops[64];
uint64_t const US = 1000, SEC = 1000000000ull;
string rel(uint64_t ns) { char b[60]; snprintf(b, sizeof b, "%+.6f", (double)(int64_t)(ns - R::epoch()) / 1e9); return b; }
string show(Value const &v) { std::ostringstream o; o << valueTypeName(v.valueType()) << ' ' << v; return o.str(); }

// ---- scripts ----
struct Msg { double at; string name; Value val; };
struct Resp { bool some = false; int n = 1; double delay = 0; Value val; };
struct Item { char const *text; char kind; char const *name; int type; double at; int index, n; Value val; }; // kinds: d declare, t telemetry, c command, x noise, T/C mode lines, e error
enum { B_, I_, R_, S_, V_ };
Item const ITEMS[] = {
  {"Real Lookup x\n", 'd', "x", R_}, {"Integer Command c\n", 'd', "c", I_}, {"String Command s\n", 'd', "s", S_}, {"Boolean Lookup b\n", 'd', "b", B_}, {"Command v\n", 'd', "v", V_},
  {"x 3\n2.5\n", 't', "x", R_, 3, 0, 0, Value(2.5)}, {"x 0.25\n4\n", 't', "x", R_, 0.25, 0, 0, Value(4.0)}, {"x 3.0\n# a comment\n\n-1.5\n", 't', "x", R_, 3, 0, 0, Value(-1.5)}, {"  b   1\ttrue\ntrue\n", 't', "b", B_, 1, 0, 0, Value(true)},
  {"c 1 1 0\n7\n", 'c', "c", I_, 0, 1, 1, Value((Integer)7)}, {"c 0 1 1.5\n  8\n", 'c', "c", I_, 1.5, 0, 1, Value((Integer)8)}, {"c 1 1 2\n9\n", 'c', "c", I_, 2, 1, 1, Value((Integer)9)}, {"c 3 0 0.0\n-10\n", 'c', "c", I_, 0, 3, 0, Value((Integer)-10)},
  {"s 2 1 0.5\nhello world\n", 'c', "s", S_, 0.5, 2, 1, Value("hello world")},
  {"# Real Lookup x\n", 'x'}, {"\n   \n\t# note\n", 'x'},
  {"BEGIN_TELEMETRY\n", 'T'}, {"BEGIN_COMMANDS\n", 'C'},
  {"zz 1 1 0\n1\n", 'c', "zz", R_, 0, 1, 1, Value(1.0)}, {"Real Gadget x\n", 'e'}};
int const NITEMS = sizeof ITEMS / sizeof *ITEMS;
struct Script { std::map<string, char> sym; vector<Msg> agenda; std::map<string, std::map<int, Resp>> cmd; bool ok = true, care = true; };
// one file read into what earlier files left; the flag says whether it is a telemetry script
void model(Script &m, vector<int> const &items, bool telemetry, bool finalNewline) {
  bool compat = telemetry; auto add = [&](Item const &i, Value v) { auto &t = m.cmd[i.name]; if (t.count(i.index)) { if (i.index == 0) m.care = false; return; } t[i.index] = {true, i.n, i.at, v}; };
  for (size_t k = 0; k < items.size() && m.ok && m.care; ++k) { Item const &i = ITEMS[items[k]];
    auto number = [&](Value const &v) { Real r; Integer n; if (v.valueType() == REAL_TYPE) return v; if (v.valueType() == INTEGER_TYPE && v.getValue(n)) return Value((Real)n); m.care = false; return v; }; // old scripts: everything is a real
    switch (i.kind) {
    case 'x': break;
    case 'T': telemetry = compat = true; break;
    case 'C': telemetry = false; compat = true; break;
    case 'd': case 'e': if (compat) { m.care = false; break; } if (i.kind == 'e' || m.sym.count(i.name)) m.ok = false; else m.sym[i.name] = strstr(i.text, "Command") ? 'c' : 't'; break;
    case 't': if (compat) { if (!telemetry) { m.care = false; break; } m.agenda.push_back({i.at, i.name, number(i.val)}); break; }
      if (m.sym.count(i.name)) m.agenda.push_back({i.at, i.name, i.val}); else if (m.sym.empty()) m.care = false; else m.ok = false; break;
    case 'c': if (compat) { if (telemetry) { m.care = false; break; } add(i, number(i.val)); break; }
      if (m.sym.count(i.name)) add(i, i.val); else if (m.sym.empty()) { compat = true; add(i, number(i.val)); } else m.ok = false; break; } }
  (void)finalNewline; }
string fileText(vector<int> const &items, bool finalNewline) { string t; for (int i : items) t += ITEMS[i].text; if (!finalNewline && !t.empty() && t.back() == '\n') t.pop_back(); return t; }
string g_dir; 
string code(vector<vector<int>> const &files, bool nl, bool tel) { string s = string(nl ? "n" : "-") + (tel ? "t" : "-"); for (auto &f : files) { s += '/'; for (int i : f) s += char('a' + i); } return s; }
void runScript(vector<vector<int>> const &files, bool nl, bool telLast) {
  Script m; vector<bool> want; for (size_t f = 0; f < files.size() && m.care && m.ok; ++f) { model(m, files[f], telLast && f + 1 == files.size(), nl); want.push_back(m.ok); }
  if (!m.care) { H::st.skipped++; return; }
  string id = code(files, nl, telLast), text; for (auto &f : files) text += "--- script\n" + fileText(f, nl) + "\n"; H::cell("SP", id); H::st.executions++;
  std::ostringstream q; std::streambuf *ob = std::cout.rdbuf(q.rdbuf()), *eb = std::cerr.rdbuf(q.rdbuf());
  string bad; 
  try {
    ResponseManagerMap map; std::unique_ptr<Agenda> agenda(makeAgenda()); std::unique_ptr<SimulatorScriptReader> rd(makeScriptReader(&map, agenda.get(), makePlexilSimResponseFactory()));
    for (size_t f = 0; f < want.size() && bad.empty(); ++f) { string p = g_dir + "/s" + std::to_string(f); { std::ofstream o(p); o << fileText(files[f], nl); } bool r = rd->readScript(p, telLast && f + 1 == files.size()); if (r != want[f]) bad = "reading script " + std::to_string(f) + (r ? " succeeded" : " failed"); }
    if (bad.empty() && m.ok) {
      std::stable_sort(m.agenda.begin(), m.agenda.end(), [](Msg const &a, Msg const &b) { return a.at < b.at; });
      if (agenda->size() != m.agenda.size()) bad = "the agenda has " + std::to_string(agenda->size()) + " entries instead of " + std::to_string(m.agenda.size());
      for (auto &e : m.agenda) { if (!bad.empty()) break; timeval t = agenda->nextResponseTime(); std::unique_ptr<ResponseMessage> r(agenda->popResponse()); double d = t.tv_sec + t.tv_usec / 1e6;
        if (d != e.at || r->getName() != e.name || !(r->getValue() == e.val) || r->getValue().valueType() != e.val.valueType() || r->getMessageType() != MSG_TELEMETRY) bad = "agenda: " + r->getName() + " = " + show(r->getValue()) + " at " + std::to_string(d) + " instead of " + e.name + " = " + show(e.val) + " at " + std::to_string(e.at); H::st.transitions++; }
      for (auto &c : m.cmd) { auto it = map.find(c.first); if (it == map.end()) { if (bad.empty()) bad = "no responses for " + c.first; continue; }
        for (int n = 1; n <= 4 && bad.empty(); ++n) { Resp w = c.second.count(n) ? c.second[n] : c.second.count(0) ? c.second[0] : Resp(); timeval t; GenericResponse const *g = it->second->getResponses(t); H::st.transitions++;
          string want = w.some && w.n ? show(w.val) + " after " + std::to_string(w.delay) : "nothing", got = g ? show(g->value) + " after " + std::to_string(t.tv_sec + t.tv_usec / 1e6) : "nothing"; if (got != want) bad = c.first + ", call " + std::to_string(n) + ": " + got + " instead of " + want; } }
      for (auto &c : map) if (!m.cmd.count(c.first) && bad.empty()) bad = "responses for " + c.first + " which the script does not mention"; }
  } catch (std::exception const &e) { bad = string("exception: ") + e.what(); }
  std::cout.rdbuf(ob); std::cerr.rdbuf(eb); H::distinct(id);
  if (!bad.empty()) H::violate("script: " + bad.substr(0, 60), bad + "\n" + text + "printed: " + q.str().substr(0, 600), id);
}
void dir() { char b[] = "/tmp/simmcXXXXXX"; g_dir = mkdtemp(b); }
void rmdirs() { for (int i = 0; i < 3; ++i) unlink((g_dir + "/s" + std::to_string(i)).c_str()); rmdir(g_dir.c_str()); }
void sp() { dir(); int depth = H::args.thorough ? 5 : 4; vector<int> s; uint64_t n = 0;
  std::function<void()> go = [&] { if (H::full() || H::timeUp()) { H::st.capped |= H::timeUp(); return; }
    if (!s.empty() && H::mine(n++)) { for (bool nl : {true, false}) runScript({s}, nl, false); if (s.size() <= 3) runScript({s}, true, true);
      if (s.size() >= 2 && s.size() <= 4) for (size_t k = 1; k < s.size(); ++k) runScript({vector<int>(s.begin(), s.begin() + k), vector<int>(s.begin() + k, s.end())}, true, s.size() == 3); }
    if ((int)s.size() < depth) for (int i = 0; i < NITEMS; ++i) { if (ITEMS[i].kind == 'x' && !s.empty() && ITEMS[s.back()].kind == 'x') continue; s.push_back(i); go(); s.pop_back(); } };
  go(); H::st.counters["scripts"] = H::st.executions; rmdirs(); }
void spReplay(string const &b) { dir(); vector<vector<int>> f; for (size_t i = 2; i < b.size(); ++i) { if (b[i] == '/') f.push_back({}); else if (b[i] >= 'a' && b[i] < 'a' + NITEMS) f.back().push_back(b[i] - 'a'); } runScript(f, b[0] == 'n', b[1] == 't'); rmdirs(); }

// ---- the running simulator ----
struct Sent { char name[8]; uint64_t at; double val; long id; int type; };
struct { int n; Sent m[64]; } g_sent;
NOSAN void sent(char const *n, double v, long id, int type) { if (g_sent.n < 64) { Sent &s = g_sent.m[g_sent.n++]; snprintf(s.name, sizeof s.name, "%s", n); s.at = R::now(); s.val = v; s.id = id; s.type = type; } char b[24]; snprintf(b, sizeof b, "%s=%g#%ld@%.6f", n, v, id, (double)(R::now() - R::epoch()) / 1e9); lg(b); }
struct Relay : CommRelayBase { Relay() : CommRelayBase("relay") {} void sendResponse(ResponseMessage const *m) override { double v = -1; Real r; if (m->getValue().getValue(r)) v = r; sent(m->getName().c_str(), v, (long)m->getId(), m->getMessageType()); delete m; } };
struct Due { uint64_t lo, hi; int seq; string name; double val; long id; int type; };
struct ScriptCmd { char const *name; int index, n; double delay, val; };
ScriptCmd const CMDS[] = {{"c", 1, 1, 0, 1}, {"c", 2, 1, 1, 2}, {"c", 3, 0, 0, 3}, {"c", 0, 1, 0.5, 4}, {"d", 1, 1, 1, 11}, {"d", 2, 1, 0.5, 12}, {"d", 3, 1, 2, 13}};
vector<std::pair<double, double>> tele() { switch (g_script[0]) { case '0': return {}; case '1': return {{0, 1}, {1, 2}, {2.5, 3}}; case '2': return {{0.5, 1}, {0.5, 2}, {1, 3}, {1.5, 4}}; default: return {{2, 1}, {2, 2}, {1, 3}}; } }
uint64_t slack() { return g_script[1] == 'd' ? 200 * US : 0; }
void simBody() {
  g_sent.n = 0; Relay relay; auto *map = new ResponseManagerMap; Agenda *ag = makeAgenda(); auto us = [](double d) { return (uint64_t)(d * 1e6 + 0.5); }; auto tv = [&](double d) { timeval t; t.tv_sec = us(d) / 1000000; t.tv_usec = us(d) % 1000000; return t; };
  for (auto &c : CMDS) { auto &m = (*map)[c.name]; if (!m) m.reset(makeCommandResponseManager(c.name)); m->addResponse(new GenericResponse(c.name, Value(c.val), tv(c.delay), c.n), c.index); }
  auto T = tele(); for (auto &t : T) ag->scheduleResponse(tv(t.first), new ResponseMessage("x", Value(t.second)));
  if (g_script[1] == 'd') R::setDrift(US); if (g_script[1] == 'h') R::advanceTo(R::now() + SEC / 2); if (g_script[1] == 'q') R::advanceTo(R::now() + 999999 * US);
  std::unique_ptr<Simulator> sim(makeSimulator(&relay, map, ag)); uint64_t D = slack(); vector<Due> due; int seq = 0, seen = 0; std::map<string, int> calls; long id = 0; bool racing = false; double last = -1, lastMaybe = -1;
  uint64_t s0 = R::now(); std::thread th([&] { sim->simulatorTopLevel(); }); R::idleRest();
  for (auto &t : T) due.push_back({s0 + us(t.first) * US, s0 + us(t.first) * US + D, seq++, "x", t.second, 0, MSG_TELEMETRY});
  auto settle = [&](string const &when) { uint64_t now = R::now();
    for (; seen < g_sent.n; ++seen) { Sent &s = g_sent.m[seen]; string what = when + ": response " + s.name + "=" + std::to_string(s.val) + " at " + rel(s.at);
      size_t k = 0; while (k < due.size() && !(due[k].name == s.name && due[k].val == s.val && due[k].id == s.id)) ++k;
      expect(k < due.size(), what + " which nobody asked for, or a second time"); expect(s.type == due[k].type, what + " of the wrong kind"); expect(s.at >= due[k].lo, what + " before its time " + rel(due[k].lo)); expect(racing || s.at <= due[k].hi + D, what + " after its time " + rel(due[k].hi));
      if (!racing) for (size_t j = 0; j < due.size(); ++j) if (j != k) expect(!(due[j].hi < due[k].lo || (due[j].lo == due[k].lo && due[j].hi == due[k].hi && due[j].seq < due[k].seq)), what + " before " + due[j].name + "=" + std::to_string(due[j].val) + " which was due at " + rel(due[j].lo));
      if (s.name[0] == 'x') last = s.val; due.erase(due.begin() + k); }
    for (auto &d : due) expect(d.hi + D > now || (D == 0 && d.hi > now), when + " at " + rel(now) + ": response " + d.name + "=" + std::to_string(d.val) + " was due at " + rel(d.lo) + " and was not sent"); };
  settle("start");
  auto command = [&](char const *c) { ++id; int n = ++calls[c]; ScriptCmd const *r = nullptr; for (auto &x : CMDS) if (c == string(x.name) && (x.index == n || (x.index == 0 && !r))) { if (x.index == n) { r = &x; break; } r = &x; }
    for (auto &x : CMDS) if (c == string(x.name) && x.index == n) r = &x;
    uint64_t t0 = R::now(); sim->scheduleResponseForCommand(c, (void *)id); uint64_t t1 = R::now(); if (r && r->n) due.push_back({t0 + us(r->delay) * US, t1 + us(r->delay) * US + D, seq++, r->name, r->val, id, MSG_COMMAND}); };
  auto lookup = [&] { ++id; std::unique_ptr<ResponseMessage> m(sim->getLookupNowResponse("x", (void *)id)); std::unique_ptr<ResponseMessage> o(sim->getLookupNowResponse("y", (void *)id)); expect(!o, "a lookup of a name without telemetry has an answer"); double v = -1; Real r; if (m && m->getValue().getValue(r)) v = r;
    double now = last; for (int i = seen; i < g_sent.n; ++i) if (g_sent.m[i].name[0] == 'x') now = g_sent.m[i].val; // sent meanwhile
    bool ok = v == now || (racing && (v == lastMaybe || v == last)); if (racing) for (auto &d : due) ok |= d.name == "x" && d.lo <= R::now() && d.val == v; expect(ok, "the lookup answered " + std::to_string(v) + " instead of " + std::to_string(now)); if (m) expect(m->getName() == "x" && m->getId() == (void *)id && m->getMessageType() == MSG_LOOKUP, "answer to another lookup"); };
  for (char const *o = g_ops; *o; ++o) { char b[2] = {*o, 0}; lg(b); string when = string("after '") + *o + "'"; racing = *o == 't' || racing; lastMaybe = last;
    switch (*o) { case 'c': command("c"); break; case 'd': command("d"); break; case 'z': command("z"); break; case 'l': lookup(); break;
      case 'A': R::advanceTo(R::now() + SEC / 2); break; case 'B': R::advanceTo(R::now() + SEC); break; case 't': R::tick(R::now() + SEC / 2); break; }
    if (*o == 't') continue; // together with what follows
    R::idleRest(); settle(when); racing = false; }
  R::idleRest(); racing = true; settle("at the end"); racing = false; R::advanceTo(R::now() + 6 * SEC); settle("after a rest"); expect(due.empty(), "a response was never sent"); lookup();
  kill(getpid(), SIGINT); th.join(); sim.reset(); R::advanceTo(R::now() + 3 * SEC); expect(seen == g_sent.n, "a response after the simulator was destroyed");
}
void runCase(string const &fam, string const &script, string const &ops, vector<uint8_t> const &pre, int pb) {
  static string name; name = fam + ":" + script + ":" + ops; snprintf(g_script, sizeof g_script, "%s", script.c_str()); snprintf(g_ops, sizeof g_ops, "%s", ops.c_str());
  Scenario sc = {name.c_str(), simBody, 0, 0}; g_split = false; if (pb < 0) one(sc, pre); else rec(sc, {}, pb, 0, 0); }
void seqs(string const &fam, string const &script, string const &alphabet, int depth, int pb, bool (*ok)(string const &)) {
  string s; H::st.counters["sequences"] += 0;
  std::function<void()> go = [&] { if (g_dirty || H::st.capped) return; if (!s.empty() && H::mine(H::hash(s + script))) { runCase(fam, script, s, {}, pb); H::st.counters["sequences"]++; } if ((int)s.size() < depth) for (char c : alphabet) { s.push_back(c); if (ok(s)) go(); s.pop_back(); } };
  go(); }
void warm(string const &f) { prepare(); if (getenv("NORACE")) R::collectRaces = false; for (char const *k : {"1-", "2d"}) if (!g_dirty) runCase(f, k, "cdzlAB", {}, -1); if (g_dirty) H::st.capped = true; }
void st() { warm("ST"); bool th = H::args.thorough; for (char const *k : {"0-", "0h", "0q", "0d", "1-", "1h", "1d", "2-", "2h", "2d", "3-", "3q"}) seqs("ST", k, "cdzlAB", th ? 6 : 5, 0, [](string const &) { return true; }); if (g_dirty) H::st.capped = true; }
void ss() { warm("SS"); bool th = H::args.thorough; for (char const *k : {"2-", "1h", "3-"}) seqs("SS", k, "cdlt", th ? 5 : 4, th ? 4 : 3, [](string const &s) { return std::count(s.begin(), s.end(), 't') <= 2 && (s.size() < 2 || s.substr(s.size() - 2) != "tt"); }); if (g_dirty) H::st.capped = true; }
void replay(string const &b) { std::istringstream in(b); string n, d; std::getline(in, n); std::getline(in, d); vector<uint8_t> p; for (char c : d) if (c >= '0' && c <= '9') p.push_back(c - '0');
  warm(n.substr(0, 2)); if (g_dirty) return; size_t i = n.find(':'), j = n.find(':', i + 1); runCase(n.substr(0, i), n.substr(i + 1, j - i - 1), n.substr(j + 1), p, -1); if (H::args.verbose) std::cout << all() << std::endl; }
}
int main(int argc, char **argv) { PlanError::doThrowExceptions(); Error::doThrowExceptions(); return H::run(argc, argv, {{"SP", sp, spReplay}, {"ST", st, replay}, {"SS", ss, replay}}); }
