// Time bases and timed lookups under a virtual clock: every bounded sequence of operations, and every schedule of the
// timer threads against the others up to a preemption bound.
#include "explore.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "Command.hh"
#include "ExecApplication.hh"
#include "InterfaceManager.hh"
#include "LookupReceiver.hh"
#include "PlanError.hh"
#include "State.hh"
#include "Timebase.hh"
#include "TimebaseFactory.hh"
#include "pugixml.hpp"
#include <cmath>
#include <memory>
#include <thread>
using namespace PLEXIL;
namespace {
char g_kind[16]; char g_ops[64];               // the current case
uint64_t const US = 1000, SEC = 1000000000ull;
double dbl(uint64_t ns) { return (double)(ns % SEC) / 1e9 + (double)(ns / SEC); }
uint64_t nsUp(double d) { double f = std::floor(d); uint64_t n = (uint64_t)f * SEC + (uint64_t)std::ceil((d - f) * 1e9); while (dbl(n - 1) >= d) --n; return n; } // the first instant that reads as d or later
string rel(uint64_t ns) { char b[60]; snprintf(b, sizeof b, "%+.9f", (double)(int64_t)(ns - R::epoch()) / 1e9); return b; }
void mark(char const *w, uint64_t at) { char b[24]; snprintf(b, sizeof b, "%s@%.6f", w, (double)(at - R::epoch()) / 1e9); lg(b); }

// ---- a time base by itself ----
struct Wakes { int n; uint64_t at[64]; } g_w;
NOSAN void wake() { if (g_w.n < 64) g_w.at[g_w.n++] = R::now(); mark("wake", R::now()); }
struct Model { bool on = false; uint32_t tick = 0; uint64_t wanted = 0, next = 0; vector<uint64_t> stale; int seen = 0; bool owed = false; } ;
uint64_t const SLACK = 2 * US;
NOSAN void settle(Model &m, char op, bool together = false) { // judge the wake-ups since the last call
  for (; m.seen < g_w.n; ++m.seen) {
    uint64_t w = g_w.at[m.seen]; string s = string("after '") + op + "': wake-up at " + rel(w);
    if (!m.on) expect(false, s + " while stopped");
    if (m.tick) { expect(w >= m.next, s + ", next tick is " + rel(m.next)); m.next += m.tick * US; continue; }
    if (m.owed) { m.owed = false; continue; }
    if (m.wanted && w >= m.wanted) { m.wanted = 0; continue; }
    bool ok = false; for (size_t i = 0; i < m.stale.size() && !ok; ++i) if (w >= m.stale[i]) { ok = true; m.stale.erase(m.stale.begin() + i); }
    expect(ok, s + " which nobody asked for; the deadline is " + (m.wanted ? rel(m.wanted) : "none"));
  }
  if (together && m.on) { expect(!m.owed, string("after '") + op + "': a deadline in the past was not delivered at once"); return; }
  expect(!m.owed, string("after '") + op + "': a deadline in the past was not delivered at once");
  if (m.on && !m.tick && m.wanted) expect(R::now() <= m.wanted + SLACK, string("after '") + op + "' at " + rel(R::now()) + ": the wake-up asked for " + rel(m.wanted) + " was not delivered");
  if (m.on && m.tick) expect(R::now() < m.next + SLACK, string("after '") + op + "' at " + rel(R::now()) + ": the tick of " + rel(m.next) + " was not delivered");
}
bool valid(string const &ops) { bool on = false; for (char c : ops) { if (c == 's') on = true; else if (c == 'p') on = false; else if ((c == '0' || c == '1' || c == '5') && on) return false; else if (islower(c) && !on) return false; } return true; }
void tbBody() {
  g_w.n = 0; Model m; std::unique_ptr<Timebase> tb(TimebaseFactory::get(g_kind)->create([] { wake(); }));
  for (char const *o = g_ops; *o; ++o) { char b[2] = {*o, 0}; lg(b); double now = dbl(R::now());
    auto set = [&](double d) { if (!m.tick) { if (m.wanted) m.stale.push_back(m.wanted); m.wanted = 0; if (d < now) m.owed = true; else if (d < 1e12) m.wanted = std::max(R::now(), nsUp(d)); } 
      tb->setTimer(d); if (!m.tick && d > now && d < 1e12) expect(std::fabs(tb->getNextWakeup() - d) < 3e-6, "getNextWakeup() is not the deadline just set"); };
    switch (*o) {
    case 's': if (!m.on) { m.on = true; m.wanted = 0; if (m.tick) m.next = R::now() + m.tick * US; } tb->start(); break;
    case 'p': tb->stop(); settle(m, 'p', true); m.on = false; m.wanted = 0; m.stale.clear(); break;
    case '0': tb->setTickInterval(m.tick = 0); break; case '1': tb->setTickInterval(m.tick = 1000000); break; case '5': tb->setTickInterval(m.tick = 5000000); break;
    case 'a': set(now - 1); break; case 'b': set(now); break; case 'c': set(now + 0.1); break; case 'd': set(now + 1); break; case 'e': set(now + 2); break; case 'h': set(1e30); break;
    case 'X': R::advanceTo(R::now() + SEC); break; case 'A': R::advanceTo(R::now() + SEC / 20 + 3 * US); break; case 'B': R::advanceTo(R::now() + SEC + 3 * US); break; case 'C': R::advanceTo(R::now() + 5 * SEC + 3 * US); break;
    case 'T': R::tick(R::now() + SEC + 1 * US); break; // what goes off runs together with what follows
    }
    expect(tb->getTickInterval() == m.tick, "getTickInterval()"); expect(std::fabs(tb->getTime() - dbl(R::now())) < 3e-7, "getTime()"); if (m.tick && m.on) expect(tb->getNextWakeup() == 0, "getNextWakeup() in tick mode");
    settle(m, *o, *o == 'T' || (o > g_ops && o[-1] == 'T'));
  }
  R::idleRest(); settle(m, '.'); tb.reset(); m.on = false; int n = g_w.n; R::advanceTo(R::now() + 20 * SEC); expect(g_w.n == n, "wake-up after the time base was destroyed");
}

// ---- the application with timed plans ----
string look(char const *op, double t, double tol) { char b[300]; snprintf(b, sizeof b, "<%s><LookupOnChange><Name><StringValue>time</StringValue></Name><Tolerance><RealValue>%.9g</RealValue></Tolerance></LookupOnChange><RealValue>%.9f</RealValue></%s>", op, tol, t, op); return b; }
string cmd(string const &id, string const &start) { return "<Node NodeType='Command'><NodeId>" + id + "</NodeId><StartCondition>" + start + "</StartCondition><NodeBody><Command><Name><StringValue>" + id + "</StringValue></Name></Command></NodeBody></Node>"; }
string list(string const &id, string const &start, string const &kids) { return "<Node NodeType='NodeList'><NodeId>" + id + "</NodeId><StartCondition>" + start + "</StartCondition><NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>"; }
string const X = "<LookupOnChange><Name><StringValue>x</StringValue></Name></LookupOnChange>", TRUE = "<BooleanValue>true</BooleanValue>";
struct Watch { char name; double at, tol; bool inList; bool active; double cache; bool done; uint64_t expected; };
struct Seen { int n; char who[32]; uint64_t at[32]; } g_s;
NOSAN void seen(char c) { if (g_s.n < 32) { g_s.who[g_s.n] = c; g_s.at[g_s.n++] = R::now(); } char w[2] = {c, 0}; mark(w, R::now()); }
uint64_t const LATE = 15 * US;
struct Sim { vector<Watch> w; bool x = false, susp = false; uint64_t t; vector<std::pair<char, uint64_t>> starts;
  void step() { double s = dbl(t); bool again = true; while (again) { again = false;
      for (auto &i : w) { if (!i.active && !i.done && (!i.inList || x)) { i.active = true; i.cache = s; again = true; } if (i.active && s >= i.cache + i.tol - s * 1e-13 /* the lookup's own comparison tolerance */) i.cache = s; if (i.active && i.cache >= i.at) { i.active = false; i.done = true; starts.push_back({i.name, t}); again = true; } } } }
  void advance(uint64_t to) { if (!susp) for (;;) { double b = 1e30; for (auto &i : w) if (i.active) b = std::min(b, i.cache + i.tol); if (b > 1e12) break; uint64_t n = nsUp(b); if (n > to) break; t = std::max(t, n); step(); } t = to; } };
NOSAN void compare(Sim &s, char op) { string got; for (int i = 0; i < g_s.n; ++i) got += string(1, g_s.who[i]) + "@" + rel(g_s.at[i]) + " "; string want; for (auto &x : s.starts) want += string(1, x.first) + "@" + rel(x.second) + " ";
  bool ok = (size_t)g_s.n == s.starts.size(); for (auto &x : s.starts) { bool f = false; for (int i = 0; i < g_s.n; ++i) f |= g_s.who[i] == x.first && g_s.at[i] >= x.second && g_s.at[i] <= x.second + LATE; ok &= f; }
  expect(ok, string("after '") + op + "' at " + rel(R::now()) + ": started " + got + "; expected " + want); }
void taBody() {
  g_s.n = 0; std::unique_ptr<ExecApplication> a(makeExecApplication()); auto *c = a->configuration(); double E = dbl(R::epoch());
  c->setDefaultLookupHandler([](State const &, LookupReceiver *r) { r->setUnknown(); });
  c->setDefaultCommandHandlerFunction([](Command *k, AdapterExecInterface *i) { seen(k->getName()[0]); i->handleCommandAck(k, COMMAND_SUCCESS); });
  pugi::xml_document d; d.load_string((string("<Interfaces><Adapter AdapterType='Time'><Timebase Type='") + g_kind + "'/></Adapter></Interfaces>").c_str());
  expect(a->initialize(d.document_element()), "initialize"); expect(a->startInterfaces(), "startInterfaces"); expect(a->run(), "run");
  Sim s; s.t = R::now(); s.w = {{'P', E + 2, 1, false, false, 0, false, 0}, {'Q', E + 0.2, 0.3, false, false, 0, false, 0}, {'V', E + 1.4, 0.4, true, false, 0, false, 0}, {'W', E + 2.1, 0.25, true, false, 0, false, 0}};
  string top, in; for (auto &w : s.w) (w.inList ? in : top) += cmd(string(1, w.name), look("GE", w.at, w.tol));
  pugi::xml_document p; p.load_string(("<PlexilPlan>" + list("R", TRUE, top + list("Y", X, in)) + "</PlexilPlan>").c_str()); expect(a->addPlan(&p), "addPlan"); a->manager()->notifyOfExternalEvent(); R::idleRest(); s.step(); compare(s, '^');
  auto rep = [&] { a->manager()->handleValueChange(State("x"), Value(true)); a->manager()->notifyOfExternalEvent(); };
  for (char const *o = g_ops; *o; ++o) { char b[2] = {*o, 0}; lg(b); uint64_t t;
    switch (*o) {
    case 'A': case 'B': case 'D': t = R::now() + (*o == 'A' ? SEC / 2 : *o == 'B' ? SEC : 3 * SEC) + 1000 * US; R::advanceTo(t); s.advance(t); break;
    case 'x': rep(); R::idleRest(); s.x = true; if (!s.susp) s.step(); break;
    case 'n': a->manager()->notifyOfExternalEvent(); R::idleRest(); if (!s.susp) s.step(); break;
    case 'e': R::fireEarly(); R::idleRest(); break;
    case 't': case 'u': { uint64_t nx = ~0ull; if (!s.susp) { double q = 1e30; for (auto &i : s.w) if (i.active) q = std::min(q, i.cache + i.tol); if (q < 1e12) nx = nsUp(q); } t = nx == ~0ull ? R::now() + SEC / 2 : std::max(R::now(), nx) + LATE; // a timer goes off, and something else happens at the same time
      R::tick(t); if (*o == 't') { rep(); s.x = true; } else a->manager()->notifyOfExternalEvent(); R::idleRest(); s.t = t; if (!s.susp) s.step(); break; }
    case 'S': a->suspend(); s.susp = true; break;
    case 'R': a->resume(); R::idleRest(); s.susp = false; s.step(); break;
    }
    compare(s, *o); }
  if (s.susp) { a->resume(); R::idleRest(); s.susp = false; s.step(); compare(s, 'r'); }
  uint64_t t = R::now() + 4 * SEC; R::advanceTo(t); s.advance(t); compare(s, '.');
  if (g_kind[0] == 'P' && !s.x) R::tick(R::now() + 10 * SEC);
  a->stop(); a.reset(); R::advanceTo(R::now() + 20 * SEC);
}
// stopping while a timer goes off
void tsBody() {
  std::unique_ptr<ExecApplication> a(makeExecApplication()); auto *c = a->configuration(); double E = dbl(R::epoch()); if (g_ops[0] == 'f') a->setRunExecInBkgndOnly(false);
  c->setDefaultCommandHandlerFunction([](Command *k, AdapterExecInterface *i) { i->handleCommandAck(k, COMMAND_SUCCESS); });
  pugi::xml_document d; d.load_string((string("<Interfaces><Adapter AdapterType='Time'><Timebase Type='") + g_kind + "'/></Adapter></Interfaces>").c_str());
  expect(a->initialize(d.document_element()) && a->startInterfaces() && a->run(), "start");
  pugi::xml_document p; p.load_string(("<PlexilPlan>" + cmd("P", look("GE", E + 10, 1)) + "</PlexilPlan>").c_str()); expect(a->addPlan(&p), "addPlan"); a->manager()->notifyOfExternalEvent(); R::idleRest();
  R::tick(R::now() + SEC + LATE); a->stop(); a.reset(); R::advanceTo(R::now() + 20 * SEC);
}

void runCase(string const &fam, string const &kind, string const &ops, vector<uint8_t> const &pre, int pb) {
  static string name; name = fam + ":" + kind + ":" + ops; snprintf(g_kind, sizeof g_kind, "%s", kind.c_str()); snprintf(g_ops, sizeof g_ops, "%s", ops.c_str());
  Scenario sc = {name.c_str(), fam == "TB" ? tbBody : fam == "TA" ? taBody : tsBody, 0, 0}; g_split = false;
  if (pb < 0) one(sc, pre); else rec(sc, {}, pb, 0, 0); }
void seqs(string const &fam, string const &kind, string const &alphabet, int depth, int pb, bool (*ok)(string const &)) {
  uint64_t i = 0; string s; H::st.counters["sequences"] += 0;
  std::function<void()> go = [&] { if (g_dirty || H::st.capped) return; if (!s.empty() && H::mine(H::hash(s + kind))) { runCase(fam, kind, s, {}, pb); H::st.counters["sequences"]++; } if ((int)s.size() < depth) for (char c : alphabet) { s.push_back(c); if (ok(s)) go(); s.pop_back(); } };
  go(); (void)i; }
void warm(string const &f) { prepare(); if (getenv("NORACE")) R::collectRaces = false; initTimebaseFactories(); for (char const *k : {"Posix", "Itimer"}) if (!g_dirty) runCase(f, k, f == "TB" ? "s" : f == "TA" ? "x" : "b", {}, -1); if (g_dirty) H::st.capped = true; }
bool taOk(string const &s) { bool susp = false; for (char c : s) { if (c == 'S') { if (susp) return false; susp = true; } else if (c == 'R') { if (!susp) return false; susp = false; } else if (susp && (c == 't' || c == 'u')) return false; } return s.find('x') == s.rfind('x') && s.find('t') == s.rfind('t'); }
bool tOk(string const &s) { return valid(s) && s[0] != 'p'; }
void tb() { warm("TB"); bool th = H::args.thorough; for (char const *k : {"Posix", "Itimer"}) { seqs("TB", k, "sp015abcdehXABC", th ? 6 : 5, 0, tOk); seqs("TB", k, "spade1TB", th ? 5 : 4, th ? 3 : 2, tOk); if (g_dirty) H::st.capped = true; } }
void ta() { warm("TA"); bool th = H::args.thorough; for (char const *k : {"Posix", "Itimer"}) { seqs("TA", k, "ABDxneSRtu", th ? 5 : 4, 0, taOk); seqs("TA", k, "Aetu", th ? 3 : 2, th ? 3 : 2, taOk); if (g_dirty) H::st.capped = true; } }
void ts() { warm("TS"); bool th = H::args.thorough; for (char const *k : {"Posix", "Itimer"}) for (char const *m : {"b", "f"}) { if (H::mine(H::hash(string(k) + m))) runCase("TS", k, m, {}, th ? 4 : 3); } if (g_dirty) H::st.capped = true; }
void replay(string const &b) { std::istringstream in(b); string n, d; std::getline(in, n); std::getline(in, d); vector<uint8_t> p; for (char c : d) if (c >= '0' && c <= '9') p.push_back(c - '0');
  warm(n.substr(0, 2)); if (g_dirty) return; size_t i = n.find(':'), j = n.find(':', i + 1); runCase(n.substr(0, i), n.substr(i + 1, j - i - 1), n.substr(j + 1), p, -1); if (H::args.verbose) std::cout << all() << std::endl; }
}
int main(int argc, char **argv) { PlanError::doThrowExceptions(); return H::run(argc, argv, {{"TB", tb, replay}, {"TA", ta, replay}, {"TS", ts, replay}}); }
