// The real UDP adapter, message queues and event loop, with the network replaced by local datagram socket pairs.
// UE encode/decode, UW refused arguments, UX datagram lengths, UC configuration, UT transport failures (C29);
// UR receive sequences, UL event loop sequences (C28).
#include "plexil-config.h"
#include "harness.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandHandler.hh"
#include "Configuration.hh"
#include "InterfaceAdapter.hh"
#include "LookupHandler.hh"
#include "State.hh"
#include "UdpAdapter.h"
#include "UdpEventLoop.hh"
#include "udp-utils.hh"
#include "pugixml.hpp"
#include <arpa/inet.h>
#include <cfloat>
#include <cmath>
#include <climits>
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace PLEXIL; using std::string; using std::vector;

// ---- the network ----
struct Sock { int peer = -1; bool connected = false; string host; int port = 0, bound = 0; };
static std::mutex g_net; static std::map<int, Sock> g_socks;      // open sockets
static bool f_socket, f_connect, f_send, f_short, f_bind; static string g_lastHost; static int g_hosts = 0;
struct Sent { string host; int port; string data; }; static vector<Sent> g_sent;
static int rawclose(int fd) { return (int) syscall(SYS_close, fd); }
static string ipname(in_addr_t a) { in_addr x; x.s_addr = a; return inet_ntoa(x); }
extern "C" {
int socket(int d, int type, int proto) noexcept {
  if (f_socket) { errno = EMFILE; return -1; }
  int p[2]; if (syscall(SYS_socketpair, AF_UNIX, type & 0xff, 0, p)) return -1;
  std::lock_guard<std::mutex> g(g_net); Sock s; s.peer = p[1]; g_socks[p[0]] = s; return p[0];
}
int setsockopt(int fd, int, int, const void *, socklen_t) noexcept { return 0; }
int connect(int fd, const struct sockaddr *a, socklen_t) {
  if (f_connect) { errno = ENETUNREACH; return -1; }
  std::lock_guard<std::mutex> g(g_net); auto i = (const sockaddr_in *) a; Sock &s = g_socks[fd]; s.connected = true; s.host = ipname(i->sin_addr.s_addr); s.port = ntohs(i->sin_port); return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t) noexcept {
  if (f_bind) { errno = EADDRINUSE; return -1; }
  std::lock_guard<std::mutex> g(g_net); int p = ntohs(((const sockaddr_in *) a)->sin_port);
  g_socks[fd].bound = p; return 0;      // SO_REUSEADDR lets several datagram sockets share a port; the last one bound receives
}
ssize_t sendto(int fd, const void *b, size_t n, int, const struct sockaddr *a, socklen_t) {
  if (f_send) { errno = EPERM; return -1; }
  std::lock_guard<std::mutex> g(g_net); Sock &s = g_socks[fd]; Sent m; m.data.assign((const char *) b, n);
  if (a) { auto i = (const sockaddr_in *) a; m.host = ipname(i->sin_addr.s_addr); m.port = ntohs(i->sin_port); } else { m.host = s.host; m.port = s.port; }
  if (f_short && n) { m.data.resize(n - 1); --n; }
  g_sent.push_back(m); return (ssize_t) n;
}
ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, nullptr, 0); }
int close(int fd) {
  { std::lock_guard<std::mutex> g(g_net); auto i = g_socks.find(fd); if (i != g_socks.end()) { rawclose(i->second.peer); g_socks.erase(i); } }
  int r = rawclose(fd); if (r < 0) { H::violate("close of a closed descriptor", "close(" + std::to_string(fd) + ") failed", ""); }
  return r;
}
struct hostent *gethostbyname(const char *n) {
  static hostent h; static in_addr a; static char *l[2]; ++g_hosts;
  string s = n; if (s == "localhost") s = "127.0.0.1"; if (s == "six") { h.h_addrtype = AF_INET6; return &h; }
  if (!inet_aton(s.c_str(), &a)) return nullptr;
  h.h_addrtype = AF_INET; h.h_length = 4; l[0] = (char *) &a; l[1] = nullptr; h.h_addr_list = l; return &h;
}
}
static size_t openSocks() { std::lock_guard<std::mutex> g(g_net); return g_socks.size(); }

// ---- stand-ins around the adapter ----
struct Cmd : Command { State s; Cmd(string const &n, vector<Value> const &a) : s(n, a.size()) { for (size_t i = 0; i < a.size(); ++i) s.setParameter(i, a[i]); }
  State const &getCommand() const override { return s; } string const &getName() const override { return s.name(); }
  vector<Value> const &getArgValues() const override { return s.parameters(); } bool isReturnExpected() const override { return true; } };
struct Ev { char k; Command *c; Value v; };
struct Intf : AdapterExecInterface {
  vector<Ev> ev; int woken = 0;
  void handleValueChange(State const &, const Value &) override {} void handleValueChange(State const &, Value &&) override {} void handleValueChange(State &&, const Value &) override {} void handleValueChange(State &&, Value &&) override {}
  void handleCommandAck(Command *c, CommandHandleValue v) override { ev.push_back({'a', c, Value(v)}); woken = 0; }
  void handleCommandReturn(Command *c, Value const &v) override { ev.push_back({'r', c, v}); woken = 0; }
  void handleCommandReturn(Command *c, Value &&v) override { ev.push_back({'r', c, v}); woken = 0; }
  void handleCommandAbortAck(Command *c, bool a) override { ev.push_back({'x', c, Value(a)}); woken = 0; }
  void handleUpdateAck(Update *, bool) override {} void notifyMessageReceived(Message *) override {} void notifyMessageQueueEmpty() override {}
  void notifyMessageAccepted(Message *, string const &) override {} void notifyMessageHandleReleased(string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {} bool handleAddLibrary(pugi::xml_document *) override { return true; }
  void notifyOfExternalEvent() override { ++woken; } void notifyAndWaitForCompletion() override {}
};
struct Conf : AdapterConfiguration {
  std::map<string, ExecuteCommandHandler> ex; std::map<string, AbortCommandHandler> ab; vector<string> none;
  bool constructInterfaces(pugi::xml_node const, InterfaceManager &, ExecListenerHub &) override { return true; }
  bool initialize() override { return true; } bool start() override { return true; } void stop() override {}
  void reg(CommandHandlerPtr h, string const &n) { ex[n] = [h](Command *c, AdapterExecInterface *i) { h->executeCommand(c, i); }; ab[n] = [h](Command *c, AdapterExecInterface *i) { h->abortCommand(c, i); }; }
  void registerCommandHandler(CommandHandlerPtr h, vector<string> const &v) override { for (auto &n : v) reg(h, n); }
  void registerCommandHandler(CommandHandlerPtr h, string const &n) override { reg(h, n); }
  void registerCommandHandlerFunction(string const &n, ExecuteCommandHandler e, AbortCommandHandler a) override { ex[n] = e; ab[n] = a; }
  void setDefaultCommandHandler(CommandHandlerPtr) override {} void setDefaultCommandHandlerFunction(ExecuteCommandHandler, AbortCommandHandler) override {}
  void registerLookupHandler(LookupHandlerPtr, vector<string> const &) override {} void registerLookupHandler(LookupHandlerPtr, string const &) override {}
  void registerLookupHandlerFunction(string const &, LookupNowHandler, SetThresholdsHandlerReal, SetThresholdsHandlerInteger, ClearThresholdsHandler) override {}
  void setDefaultLookupHandler(LookupHandlerPtr) override {} void setDefaultLookupHandler(LookupNowHandler, SetThresholdsHandlerReal, SetThresholdsHandlerInteger, ClearThresholdsHandler) override {}
  void registerPlannerUpdateHandler(PlannerUpdateHandler) override {} void addExecListener(ExecListener *) override {} void addInterfaceAdapter(InterfaceAdapter *) override {}
  CommandHandler *getCommandHandler(string const &) const override { return nullptr; } LookupHandler *getLookupHandler(string const &) const override { return nullptr; }
  PlannerUpdateHandler getPlannerUpdateHandler() const override { return PlannerUpdateHandler(); }
  void addPlanPath(const vector<string> &) override {} void addPlanPath(const string &) override {} void addLibraryPath(const vector<string> &) override {} void addLibraryPath(const string &) override {}
  const vector<string> &getPlanPath() const override { return none; } const vector<string> &getLibraryPath() const override { return none; }
  InputQueue *makeInputQueue() const override { return nullptr; }
  void lookupNow(State const &, LookupReceiver *) override {} void setThresholds(const State &, Real, Real) override {} void setThresholds(const State &, Integer, Integer) override {} void clearThresholds(const State &) override {}
  void executeCommand(Command *) override {} void reportCommandArbitrationFailure(Command *) override {} void invokeAbort(Command *) override {} void executeUpdate(Update *) override {}
};
// A stand-in for the event loop, used by every family but UL.
struct Loop : UdpEventLoop {
  struct L { size_t max; ListenerFunction fn; }; std::map<int, L> open; bool running = false, fail = false; int opened = 0;
  bool openListener(in_port_t p, size_t n, ListenerFunction f) override { if (!running || fail || open.count(p)) return false; open[p] = {n, f}; ++opened; return true; }
  void closeListener(in_port_t p) override { open.erase(p); }
  bool start() override { running = true; return true; } void stop() override { running = false; open.clear(); }
  bool deliver(int p, string const &d) {
    auto i = open.find(p); if (i == open.end()) return false;
    size_t n = std::min(d.size(), i->second.max); char *b = (char *) malloc(n); memcpy(b, d.data(), n); sockaddr_in a = {};
    auto fn = i->second.fn; fn(p, b, n, (sockaddr *) &a, sizeof a); free(b); return true; }
};
static Loop *g_loop; static bool g_realLoop;
namespace PLEXIL { std::unique_ptr<UdpEventLoop> realLoop() __asm__("__real__ZN6PLEXIL16makeUdpEventLoopEv"); std::unique_ptr<UdpEventLoop> wrapLoop() __asm__("__wrap__ZN6PLEXIL16makeUdpEventLoopEv");
  std::unique_ptr<UdpEventLoop> wrapLoop() { if (g_realLoop) return realLoop(); g_loop = new Loop; return std::unique_ptr<UdpEventLoop>(g_loop); } }
struct Rig {
  pugi::xml_document d; Intf in; Conf cf; std::unique_ptr<InterfaceAdapter> a; bool ok = false; vector<std::unique_ptr<Cmd>> cmds;
  Rig(string const &xml) {
    static bool once = (initUdpAdapter(), true); (void) once;
    d.load_string(xml.c_str()); a.reset(AdapterFactory::createInstance(d.document_element(), in));
    if (!a) { H::violate("no adapter", xml, ""); return; }
    ok = a->initialize(&cf) && a->start();
  }
  ~Rig() { if (ok) a->stop(); }
  Cmd *mk(string const &n, vector<Value> const &args) { cmds.emplace_back(new Cmd(n, args)); return cmds.back().get(); }
  Cmd *exec(string const &n, vector<Value> const &args, string const &as = "") { Cmd *c = mk(n, args); auto i = cf.ex.find(as.empty() ? n : as); if (i != cf.ex.end()) i->second(c, &in); return c; }
};
static string hex(string const &s) { string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x ", c); r += b; } return r; }
static string vs(Value const &v) { std::ostringstream o; o << valueTypeName(v.valueType()) << " " << v; return o.str(); }
static string evs(vector<Ev> const &e, std::map<Command *, string> const &nm = {}) { string r; for (auto &x : e) { auto i = nm.find(x.c); r += string(1, x.k) + (i == nm.end() ? string("?") : i->second) + "=" + vs(x.v) + "; "; } return r; }
static vector<int> ints(string const &s) { vector<int> v; std::istringstream i(s); int x; while (i >> x) v.push_back(x); return v; }
static string strs(vector<int> const &v) { string s; for (int x : v) s += std::to_string(x) + " "; return s; }

// ---- field kinds, their values and an independent encoding ----
struct FieldK { char t; int len, n; bool arr; };        // t: i f b s
static const vector<FieldK> FK = {{'i',2,1,0},{'i',4,1,0},{'f',4,1,0},{'b',1,1,0},{'b',2,1,0},{'b',4,1,0},{'s',1,1,0},{'s',3,1,0},
  {'i',2,1,1},{'i',2,3,1},{'i',4,2,1},{'f',4,2,1},{'b',1,3,1},{'b',2,2,1},{'b',4,2,1},{'s',2,2,1},{'s',5,3,1},{'f',4,1,1},{'s',1,1,1},{'s',300,1,0}};
static string fxml(FieldK const &f) { string t = f.t == 'i' ? "int" : f.t == 'f' ? "float" : f.t == 'b' ? "bool" : "string"; if (f.arr) t += "-array";
  return "<Parameter type=\"" + t + "\" bytes=\"" + std::to_string(f.len) + "\"" + (f.arr ? " elements=\"" + std::to_string(f.n) + "\"" : "") + "/>"; }
struct Sc { long long i = 0; double f = 0; string s; };  // one scalar
static vector<Sc> scalars(FieldK const &f) {
  vector<Sc> r; auto I = [&](long long v) { Sc s; s.i = v; r.push_back(s); }; auto F = [&](double v) { Sc s; s.f = v; r.push_back(s); }; auto S = [&](string const &v) { if ((int) v.size() <= f.len) { Sc s; s.s = v; r.push_back(s); } };
  if (f.t == 'b') { I(1); I(0); }
  if (f.t == 'i') { for (long long v : {258LL, -2LL, 0LL, 1LL, -1LL, 127LL, 128LL, 255LL, 256LL, -128LL, -129LL, -256LL, 32767LL, -32768LL}) I(v); if (f.len == 4) for (long long v : {16909060LL, 32768LL, -32769LL, 65535LL, 65536LL, 16777216LL, 2147483647LL, -2147483648LL}) I(v); }
  if (f.t == 'f') for (double v : {1.5, -2.25, 0.0, -0.0, 1.0, 0.1, 3.14159265358979, (double) FLT_MAX, -(double) FLT_MAX, (double) FLT_MIN, 1e-40, 1e-46, 16777217.0, -1e10}) F(v);
  if (f.t == 's') { S(string(f.len, 'x').replace(0, 1, "A")); S(string(f.len - 1, 'q')); S("a"); S(""); S("\xff\x80"); S("ab"); S(" \x01"); S(string(f.len, '\xfe')); }
  return r;
}
static string be(long long v, int n) { string s; for (int i = n - 1; i >= 0; --i) s += (char) ((unsigned long long) v >> (8 * i)); return s; }
static string enc1(FieldK const &f, Sc const &s) {
  if (f.t == 's') return s.s + string(f.len - s.s.size(), '\0');
  if (f.t == 'f') { float x = (float) s.f; int32_t b; memcpy(&b, &x, 4); return be(b, 4); }
  return be(s.i, f.len); }
typedef vector<Sc> FV;                                   // value of a field: n scalars
static vector<FV> values(FieldK const &f, int reduce) {
  auto s = scalars(f); vector<FV> r;
  if (!f.arr) for (auto &x : s) r.push_back({x});
  else for (size_t k = 0; k < s.size(); ++k) { FV v; for (int i = 0; i < f.n; ++i) v.push_back(s[(k + i) % s.size()]); r.push_back(v); }
  if (reduce && (int) r.size() > reduce) r.resize(reduce);
  return r; }
static FV first(FieldK const &f) { return values(f, 1)[0]; }
static Value pv(FieldK const &f, FV const &v, bool decoded) {
  auto fl = [&](double x) { return decoded ? (double) (float) x : x; };
  if (!f.arr) switch (f.t) { case 'i': return Value((Integer) v[0].i); case 'f': return Value(fl(v[0].f)); case 'b': return Value((Boolean) (v[0].i != 0)); default: return Value(v[0].s); }
  switch (f.t) {
  case 'i': { IntegerArray a(f.n); for (int i = 0; i < f.n; ++i) a.setElement(i, (Integer) v[i].i); return Value(a); }
  case 'f': { RealArray a(f.n); for (int i = 0; i < f.n; ++i) a.setElement(i, fl(v[i].f)); return Value(a); }
  case 'b': { BooleanArray a(f.n); for (int i = 0; i < f.n; ++i) a.setElement(i, (Boolean) (v[i].i != 0)); return Value(a); }
  default: { StringArray a(f.n); for (int i = 0; i < f.n; ++i) a.setElement(i, v[i].s); return Value(a); } } }
static bool same(Value const &a, Value const &b) { return a.valueType() == b.valueType() && a.isKnown() == b.isKnown() && a == b && vs(a) == vs(b); }
static string layoutXml(vector<int> const &lay, string const &attrs = "local_port=\"5001\" peer_port=\"6001\" peer=\"10.1.2.3\"") {
  string x = "<Adapter AdapterType=\"UdpAdapter\"><Message name=\"M\" " + attrs + ">"; for (int k : lay) x += fxml(FK[k]); return x + "</Message></Adapter>"; }

// UE: layout, then a value index per field
static void runUE(Rig &r, vector<int> const &lay, vector<vector<FV>> const &vals, vector<int> const &ix) {
  string body; { vector<int> b = {(int) lay.size()}; b.insert(b.end(), lay.begin(), lay.end()); b.insert(b.end(), ix.begin(), ix.end()); body = strs(b); }
  H::cell("UE", body); ++H::st.executions;
  string bytes; vector<Value> args; for (size_t i = 0; i < lay.size(); ++i) { auto &f = FK[lay[i]]; auto &v = vals[i][ix[i]]; for (auto &s : v) bytes += enc1(f, s); args.push_back(pv(f, v, false)); }
  string what = layoutXml(lay) + "\n arguments:"; for (auto &a : args) what += " " + vs(a);
  auto bad = [&](string const &k, string const &t) { H::violate(k, what + "\n" + t, body); };
  g_sent.clear(); r.in.ev.clear(); size_t o = openSocks();
  Cmd *c = r.exec("M", args);
  if (g_sent.size() != 1) { bad("message not sent once", std::to_string(g_sent.size()) + " datagrams; " + evs(r.in.ev)); return; }
  if (g_sent[0].data != bytes) bad("wrong bytes sent", "sent " + hex(g_sent[0].data) + "\nwant " + hex(bytes));
  if (g_sent[0].host != "10.1.2.3" || g_sent[0].port != 6001) bad("sent to the wrong peer", g_sent[0].host + ":" + std::to_string(g_sent[0].port));
  if (r.in.ev.size() != 1 || r.in.ev[0].k != 'a' || r.in.ev[0].c != c || !same(r.in.ev[0].v, Value(COMMAND_SUCCESS)) || !r.in.woken) bad("sent message not acknowledged once", evs(r.in.ev));
  if (openSocks() != o) bad("descriptor leak on sending", std::to_string(openSocks() - o));
  // and back
  r.in.ev.clear(); Cmd *rc = r.exec("ReceiveCommand", {Value("M")});
  if (!g_loop->open.count(5001)) { bad("not listening after ReceiveCommand", evs(r.in.ev)); return; }
  g_loop->deliver(5001, bytes); string label; int n = 0;
  for (auto &e : r.in.ev) if (e.k == 'r' && e.c == rc) { ++n; e.v.getValue(label); }
  if (n != 1 || label.empty()) { bad("received message not returned once", evs(r.in.ev)); return; }
  for (size_t i = 0; i < lay.size(); ++i) {
    r.in.ev.clear(); vector<Value> ga = {Value(label)}; if (i || ix[0] % 2) ga.push_back(Value((Integer) i));
    Cmd *g = r.exec("GetParameter", ga); n = 0; Value got; for (auto &e : r.in.ev) if (e.k == 'r' && e.c == g) { ++n; got = e.v; }
    Value want = pv(FK[lay[i]], vals[i][ix[i]], true);
    if (n != 1) bad("parameter not returned once", "parameter " + std::to_string(i) + ": " + evs(r.in.ev));
    else if (!same(got, want)) bad("wrong parameter received", "parameter " + std::to_string(i) + " is " + vs(got) + " want " + vs(want)); }
  H::st.transitions += 2 + lay.size(); r.cmds.clear();
  H::distinct(hex(bytes) + "/" + strs(lay));
}
static void layouts(int maxn, std::function<void(vector<int> const &)> f) {
  int K = FK.size(); for (int a = 0; a < K; ++a) f({a});
  if (maxn > 1) for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) f({a, b});
  if (maxn > 2) for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int c = 0; c < K; ++c) f({a, b, c});
  if (maxn > 3) for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) for (int c = 0; c < 16; ++c) for (int d = 0; d < 16; ++d) f({a, b, c, d});
}
static void exploreUE() {
  uint64_t n = 0;
  layouts(H::args.thorough ? 4 : 3, [&](vector<int> const &lay) {
    if (H::full() || H::timeUp() || !H::mine(n++)) return;
    vector<vector<FV>> vals; for (int k : lay) vals.push_back(values(FK[k], lay.size() <= 2 ? 0 : lay.size() == 3 && H::args.thorough ? 4 : 2));
    Rig r(layoutXml(lay)); H::cell("UE", strs({(int) lay.size()}) + strs(lay)); if (!r.ok) { H::violate("layout refused", layoutXml(lay), strs({(int) lay.size()}) + strs(lay)); return; }
    vector<int> ix(lay.size(), 0);
    for (;;) { runUE(r, lay, vals, ix); if (H::full()) return; size_t i = 0; while (i < ix.size() && ++ix[i] == (int) vals[i].size()) ix[i++] = 0; if (i == ix.size()) break; } });
}
static void replayUE(vector<int> v) { int n = v[0]; vector<int> lay(v.begin() + 1, v.begin() + 1 + n), ix(v.begin() + 1 + n, v.end()); vector<vector<FV>> vals; for (int k : lay) vals.push_back(values(FK[k], 0)); Rig r(layoutXml(lay)); if (!r.ok) { H::violate("layout refused", layoutXml(lay), strs(v)); return; } if ((int) ix.size() == n) runUE(r, lay, vals, ix); }

// UW: arguments that cannot be sent: the command fails and nothing is sent; the next valid command is sent
static vector<std::pair<string, Value>> wrongs(FieldK const &f) {
  vector<std::pair<string, Value>> r; auto W = [&](string const &n, Value const &v) { r.push_back({n, v}); };
  W("unknown", Value());
  if (f.t != 'i' || f.arr) if (!(f.t == 'f' && !f.arr)) W("integer", Value((Integer) 1));
  if (f.t != 'f' || f.arr) W("real", Value(1.0)); if (f.t != 'b' || f.arr) W("boolean", Value(true)); if (f.t != 's' || f.arr) W("string", Value("a"));
  { IntegerArray a(f.n + 1); for (int i = 0; i <= f.n; ++i) a.setElement(i, (Integer) i); if (!(f.t == 'f')) W(f.t == 'i' && f.arr ? "larger array" : "integer array", Value(a)); }
  if (f.arr) for (int d : {-1, 1}) if (f.n + d > 0) { FieldK g = f; g.n += d; W("array size", pv(g, values(g, 1)[0], false)); }
  if (f.arr) for (int i = 0; i < f.n; ++i) { Value ok = pv(f, values(f, 1)[0], false); 
    switch (f.t) { case 'i': { IntegerArray const *p; ok.getValuePointer(p); IntegerArray a(*p); a.setElementUnknown(i); W("unknown element", Value(a)); break; } case 'f': { RealArray const *p; ok.getValuePointer(p); RealArray a(*p); a.setElementUnknown(i); W("unknown element", Value(a)); break; }
      case 'b': { BooleanArray const *p; ok.getValuePointer(p); BooleanArray a(*p); a.setElementUnknown(i); W("unknown element", Value(a)); break; } default: { StringArray const *p; ok.getValuePointer(p); StringArray a(*p); a.setElementUnknown(i); W("unknown element", Value(a)); } } }
  auto put = [&](string const &n, Sc const &s) { for (int i = 0; i < f.n; ++i) { FV v = values(f, 1)[0]; v[i] = s; W(n, pv(f, v, false)); } };
  if (f.t == 'i' && f.len == 2) for (long long x : {32768LL, -32769LL, 65535LL, 65536LL, 2147483647LL, -2147483648LL}) { Sc s; s.i = x; put("out of range", s); }
  if (f.t == 'f') for (double x : {1e39, -1e39, DBL_MAX, -DBL_MAX, HUGE_VAL, -HUGE_VAL}) { Sc s; s.f = x; put("out of range", s); }
  if (f.t == 's') for (int x : {1, 2, 700}) { Sc s; s.s = string(f.len + x, 'z'); put("string too long", s); }
  return r; }
static void runUW(vector<int> const &v) {    // layout, position, wrong index; position = -1: too few, n: too many
  int n = v[0]; vector<int> lay(v.begin() + 1, v.begin() + 1 + n); int pos = v[1 + n], wi = v[2 + n]; H::cell("UW", strs(v)); ++H::st.executions;
  Rig r(layoutXml(lay)); if (!r.ok) { H::violate("layout refused", layoutXml(lay), strs(v)); return; }
  vector<Value> good, args; for (int k : lay) good.push_back(pv(FK[k], values(FK[k], 1)[0], false)); args = good; string w;
  if (pos == -1) { args.resize(wi); w = "too few"; } else if (pos == n) { args.push_back(wi ? Value() : Value("a")); w = "too many"; } else { auto x = wrongs(FK[lay[pos]])[wi]; args[pos] = x.second; w = x.first; }
  string what = layoutXml(lay) + "\n arguments:"; for (auto &a : args) what += " " + vs(a).substr(0, 60);
  auto bad = [&](string const &k, string const &t) { H::violate(k + " (" + w + ")", what + "\n" + t, strs(v)); };
  g_sent.clear(); Cmd *c = r.exec("M", args);
  if (!g_sent.empty()) bad("sent although the arguments do not fit", hex(g_sent[0].data).substr(0, 200));
  if (r.in.ev.size() != 1 || r.in.ev[0].k != 'a' || r.in.ev[0].c != c || !same(r.in.ev[0].v, Value(COMMAND_FAILED)) || !r.in.woken) bad("unfit arguments not refused once", evs(r.in.ev));
  r.in.ev.clear(); g_sent.clear(); r.exec("M", good); string bytes; for (int k : lay) for (auto &s : first(FK[k])) bytes += enc1(FK[k], s);
  if (g_sent.size() != 1 || g_sent[0].data != bytes) bad("next message wrong", g_sent.empty() ? "none" : hex(g_sent[0].data)); H::distinct(w + strs(v)); }
static void exploreUW() {
  uint64_t n = 0;
  auto go = [&](vector<int> const &lay) { vector<int> b = {(int) lay.size()}; b.insert(b.end(), lay.begin(), lay.end()); auto run = [&](int p, int w) { if (H::full() || !H::mine(n++)) return; auto c = b; c.push_back(p); c.push_back(w); runUW(c); };
    for (int w = 0; w < (int) lay.size(); ++w) run(-1, w); run(lay.size(), 0); run(lay.size(), 1);
    for (size_t p = 0; p < lay.size(); ++p) { int k = wrongs(FK[lay[p]]).size(); for (int w = 0; w < k; ++w) run(p, w); } };
  layouts(2, go); if (H::args.thorough) layouts(3, [&](vector<int> const &l) { if (l.size() == 3) go(l); });
}
// UX: datagrams of every length; only whole messages are received, and nothing outside the datagram is read
static void runUX(vector<int> const &v) {      // layout, length (longer than the message: cut by the event loop)
  int n = v[0]; vector<int> lay(v.begin() + 1, v.begin() + 1 + n); int len = v[1 + n]; H::cell("UX", strs(v)); ++H::st.executions;
  Rig r(layoutXml(lay)); if (!r.ok) { H::violate("layout refused", layoutXml(lay), strs(v)); return; }
  string bytes, before; for (int k : lay) { auto x = values(FK[k], 2); for (auto &s : x[0]) bytes += enc1(FK[k], s); for (auto &s : x[x.size() - 1]) before += enc1(FK[k], s); }
  auto bad = [&](string const &k, string const &t) { H::violate(k, layoutXml(lay) + "\nlength " + std::to_string(len) + "\n" + t, strs(v)); };
  Cmd *c1 = r.exec("ReceiveCommand", {Value("M")});
  if (!g_loop->open.count(5001)) { bad("not listening", evs(r.in.ev)); return; }
  if (g_loop->open[5001].max < bytes.size()) bad("receive buffer too small", std::to_string(g_loop->open[5001].max));
  r.in.ev.clear(); string d = bytes; d.resize(len, 'Z'); bool whole = len >= (int) bytes.size(); g_loop->deliver(5001, d);
  if (!whole && !r.in.ev.empty()) { bad("incomplete message accepted", evs(r.in.ev)); return; }
  if (!whole) g_loop->deliver(5001, bytes);
  string label; if (r.in.ev.size() == 1 && r.in.ev[0].k == 'r' && r.in.ev[0].c == c1) r.in.ev[0].v.getValue(label); if (label.empty()) { bad("message not returned once", evs(r.in.ev)); return; }
  for (int i = 0; i < n; ++i) { r.in.ev.clear(); Cmd *g = r.exec("GetParameter", {Value(label), Value((Integer) i)}); Value got; for (auto &e : r.in.ev) if (e.k == 'r' && e.c == g) got = e.v; Value want = pv(FK[lay[i]], values(FK[lay[i]], 2)[0], true); if (!same(got, want)) bad("wrong parameter after an incomplete message", vs(got) + " want " + vs(want)); }
  H::distinct(strs(v)); }
static void exploreUX() { uint64_t n = 0; layouts(H::args.thorough ? 3 : 2, [&](vector<int> const &lay) { int len = 0; for (int k : lay) len += FK[k].len * FK[k].n; if (len > 330) return; for (int l = 0; l <= len + 2; ++l) { if (len > 60 && l > 3 && l < len - 3 && l % 37) continue; if (H::full() || H::timeUp() || !H::mine(n++)) continue; vector<int> b = {(int) lay.size()}; b.insert(b.end(), lay.begin(), lay.end()); b.push_back(l); runUX(b); } }); }

// UC: configurations
struct CC { string xml; bool ok; };
static vector<CC> confs() {
  vector<CC> r; auto A = [&](string const &attrs, string const &body, bool ok) { r.push_back({"<Adapter AdapterType=\"UdpAdapter\" " + attrs + ">" + body + "</Adapter>", ok}); };
  string P = "<Parameter type=\"int\" bytes=\"2\"/>"; A("", "", true);
  auto M = [&](string const &attrs, string const &body, bool ok, string const &aa = "") { A(aa, "<Message " + attrs + ">" + body + "</Message>", ok); };
  string pp = "local_port=\"5001\" peer_port=\"6001\"";
  M("name=\"M\" " + pp, P, true); M(pp, P, false); M("name=\"\" " + pp, P, false); M("name=\"M\" " + pp, "", true);
  for (string port : {"0", "65536", "-1", "x", "", "99999999999", "4294967297"}) { M("name=\"M\" local_port=\"" + port + "\" peer_port=\"6001\"", P, false); M("name=\"M\" local_port=\"5001\" peer_port=\"" + port + "\"", P, false); }
  for (string port : {"1", "65535", "1024"}) { M("name=\"M\" local_port=\"" + port + "\" peer_port=\"6001\"", P, true); M("name=\"M\" local_port=\"5001\" peer_port=\"" + port + "\"", P, true); }
  M("name=\"M\" peer_port=\"6001\"", P, false); M("name=\"M\" local_port=\"5001\"", P, false); M("name=\"M\"", P, true, "default_local_port=\"5001\" default_peer_port=\"6001\""); M("name=\"M\"", P, false, "default_local_port=\"5001\""); M("name=\"M\"", P, false, "default_peer_port=\"6001\"");
  struct T { string t; std::set<int> ok; }; vector<T> ts = {{"int", {2, 4}}, {"bool", {1, 2, 4}}, {"float", {4}}, {"string", {1, 2, 3, 4, 5, 8, 16}}};
  for (auto &t : ts) for (int arr = 0; arr < 2; ++arr) for (int b : {0, 1, 2, 3, 4, 5, 8, 16}) { if (t.t == "float" && b == 2) continue;      // accepted, though such a value can be neither sent nor received
    string ty = t.t + (arr ? "-array" : ""); bool ok = t.ok.count(b); string base = "<Parameter type=\"" + ty + "\" bytes=\"" + std::to_string(b) + "\"";
    M("name=\"M\" " + pp, base + (arr ? " elements=\"3\"/>" : "/>"), ok); M("name=\"M\" " + pp, base + (arr ? "/>" : " elements=\"3\"/>"), false); if (arr) for (string e : {"0", "x", ""}) M("name=\"M\" " + pp, base + " elements=\"" + e + "\"/>", false);
    M("name=\"M\" " + pp, P + base + (arr ? " elements=\"3\"/>" : "/>"), ok); M("name=\"M\" " + pp, base + (arr ? " elements=\"1\"/>" : "/>") + P, ok);
    A("", "<Message name=\"A\" " + pp + ">" + P + "</Message><Message name=\"B\" " + pp + ">" + base + (arr ? " elements=\"2\"/>" : "/>") + "</Message>", ok); }
  for (string t : {"", "integer", "Int", "array", "int-arrays", "date"}) { M("name=\"M\" " + pp, "<Parameter type=\"" + t + "\" bytes=\"4\"/>", false); M("name=\"M\" " + pp, "<Parameter type=\"" + t + "\" bytes=\"4\" elements=\"2\"/>", false); }
  M("name=\"M\" " + pp, "<Parameter bytes=\"4\"/>", false); M("name=\"M\" " + pp, "<Parameter type=\"int\"/>", false); M("name=\"M\" " + pp, "<Parameter type=\"int\" bytes=\"x\"/>", false); M("name=\"M\" " + pp, "<Parameter type=\"string\" bytes=\"0\"/>", false);
  M("name=\"M\" peer=\"localhost\" " + pp, P, true); M("name=\"M\" " + pp, "<Parameter type=\"int\" bytes=\"4\" desc=\"d\"/>", true);
  return r; }
static void runUC(int k) {
  auto c = confs()[k]; H::cell("UC", std::to_string(k)); ++H::st.executions; Rig r(c.xml);
  if (r.ok != c.ok) H::violate(c.ok ? "configuration refused" : "configuration accepted", c.xml, std::to_string(k));
  if (r.ok) { bool hasM = r.d.document_element().find_child_by_attribute("Message", "name", "M"); if (r.cf.ex.count("M") != (hasM ? 1u : 0u)) H::violate("message command not registered", c.xml, std::to_string(k)); for (auto n : {"SendMessage", "ReceiveCommand", "GetParameter", "SendReturnValue"}) if (!r.cf.ex.count(n)) H::violate("command not registered", n, std::to_string(k)); }
  H::distinct(c.xml); }
static void exploreUC() { auto v = confs(); for (size_t i = 0; i < v.size(); ++i) if (H::mine(i)) runUC(i); }

// UT: where messages go, failures of the transport, and malformed uses of the other commands
static void runUT(int k) {
  H::cell("UT", std::to_string(k)); ++H::st.executions; string body = std::to_string(k); string what;
  auto bad = [&](string const &key, string const &t) { H::violate(key + ": " + what, t, body); };
  f_socket = f_connect = f_send = f_short = false; int fault = k % 5, peer = (k / 5) % 5, lay = k / 25;
  static const char *peers[] = {"", "peer=\"10.9.8.7\"", "peer=\"nowhere\"", "peer=\"six\"", "peer=\"localhost\""}; static const char *ips[] = {"10.0.0.9", "10.9.8.7", nullptr, nullptr, "127.0.0.1"};
  vector<vector<int>> lays = {{1}, {0, 7}, {}}; string x = "<Adapter AdapterType=\"UdpAdapter\" default_peer=\"10.0.0.9\" default_peer_port=\"7007\" default_local_port=\"7008\"><Message name=\"N\"><Parameter type=\"int\" bytes=\"4\"/></Message><Message name=\"M\" " + string(peers[peer]) + ">"; for (int f : lays[lay]) x += fxml(FK[f]); x += "</Message></Adapter>";
  what = "fault " + std::to_string(fault) + " " + peers[peer] + " layout " + std::to_string(lay);
  Rig r(x); if (!r.ok) { bad("refused", x); return; }
  vector<Value> args; string bytes; for (int f : lays[lay]) { args.push_back(pv(FK[f], values(FK[f], 1)[0], false)); for (auto &s : first(FK[f])) bytes += enc1(FK[f], s); }
  size_t o = openSocks(); g_sent.clear(); f_socket = fault == 1; f_connect = fault == 2; f_send = fault == 3; f_short = fault == 4 && !bytes.empty();
  Cmd *c = r.exec("M", args); bool viaConnect = true; (void) viaConnect; f_socket = f_connect = f_send = f_short = false;
  bool ok = ips[peer] && (fault == 0 || (fault == 4 && bytes.empty()));
  if (r.in.ev.size() != 1 || r.in.ev[0].k != 'a' || r.in.ev[0].c != c || !r.in.woken) bad("not acknowledged once", evs(r.in.ev));
  else if (!same(r.in.ev[0].v, Value(ok ? COMMAND_SUCCESS : COMMAND_FAILED))) bad("wrong acknowledgement", evs(r.in.ev));
  if (ok && (g_sent.size() != 1 || g_sent[0].data != bytes || g_sent[0].host != ips[peer] || g_sent[0].port != 7007)) bad("wrong datagram", g_sent.empty() ? "none" : g_sent[0].host + ":" + std::to_string(g_sent[0].port) + " " + hex(g_sent[0].data));
  if (openSocks() != o) bad("descriptor leak", std::to_string(openSocks() - o));
  g_sent.clear(); r.exec("N", {Value((Integer) 7)}); if (g_sent.size() != 1 || g_sent[0].data != be(7, 4) || g_sent[0].host != "10.0.0.9") bad("next message wrong", std::to_string(g_sent.size())); H::distinct(what); }
static void exploreUT() { for (int k = 0; k < 75; ++k) if (H::mine(k)) runUT(k); }

// UR: sequences of datagrams and commands.  Messages: A (int 2, string 3) on 5001, B (int 4) on 5002, C (bool 1) on 5001 too
enum { DA, DB, RA, RB, XA, XB, GP, BADR, FAILR, RC_, NOPS };
static const char *OPN[] = {"datagram A", "datagram B", "ReceiveCommand A", "ReceiveCommand B", "abort A", "abort B", "GetParameter", "ReceiveCommand unknown", "ReceiveCommand A, port unavailable", "ReceiveCommand C (port of A)"};
static void runUR(vector<int> const &ops) {
  H::cell("UR", strs(ops)); ++H::st.executions;
  Rig r("<Adapter AdapterType=\"UdpAdapter\"><Message name=\"A\" local_port=\"5001\" peer_port=\"6001\"><Parameter type=\"int\" bytes=\"2\"/><Parameter type=\"string\" bytes=\"3\"/></Message><Message name=\"B\" local_port=\"5002\" peer_port=\"6001\"><Parameter type=\"int\" bytes=\"4\"/></Message>"
    "<Message name=\"C\" local_port=\"5001\" peer_port=\"6001\"><Parameter type=\"bool\" bytes=\"1\"/></Message></Adapter>");
  string log; auto bad = [&](string const &k, string const &t) { H::violate(k, log + t, strs(ops)); };
  if (!r.ok) { bad("refused", ""); return; }
  std::map<Command *, string> nm; struct Msg { int m, num; vector<bool> got; }; std::map<string, Msg> labels; string last; int num = 0, made = 0;
  vector<int> pend[3]; vector<Cmd *> wait[3]; int owner = -1;    // owner: whose listener has port 5001
  auto listening = [&](int m) { return g_loop->open.count(m == 1 ? 5002 : 5001) && (m == 1 || owner == m); };
  auto returned = [&](Cmd *c, int m, int n, size_t at) { string l; if (at >= r.in.ev.size() || r.in.ev[at].k != 'r' || r.in.ev[at].c != c || !r.in.ev[at].v.getValue(l) || labels.count(l)) { bad("message not returned to the right command", nm[c] + " should get message " + std::to_string(n) + ", got " + evs(r.in.ev, nm)); return; } labels[l] = {m, n, vector<bool>(m == 0 ? 2 : 1)}; last = l; };
  for (int op : ops) {
    r.in.ev.clear(); ++H::st.transitions; log += string(OPN[op]) + "\n";
    switch (op) {
    case DA: case DB: { int m = op - DA, n = ++num; bool lis = listening(m); string d = m ? be(100000 + n, 4) : be(n, 2) + string("m") + (char) ('a' + n) + '\0';
      if (!lis) { if (!wait[m].empty()) { bad("a waiting command's port is not open", ""); return; } break; }
      g_loop->deliver(m ? 5002 : 5001, d);
      if (wait[m].empty()) { pend[m].push_back(n); if (!r.in.ev.empty()) { bad("nobody waits, yet something was returned", evs(r.in.ev, nm)); return; } }
      else { Cmd *c = wait[m].front(); wait[m].erase(wait[m].begin()); if (r.in.ev.size() != 1) { bad("message not returned once", evs(r.in.ev, nm)); return; } returned(c, m, n, 0); if (!r.in.woken) bad("exec not notified", ""); } break; }
    case RA: case RB: case FAILR: case RC_: { int m = op == RB ? 1 : op == RC_ ? 2 : 0; bool was = listening(m); g_loop->fail = op == FAILR; bool can = was || (op != FAILR && !g_loop->open.count(m == 1 ? 5002 : 5001));
      Cmd *c = r.exec("ReceiveCommand", {Value(m == 0 ? "A" : m == 1 ? "B" : "C")}); g_loop->fail = false; nm[c] = "R" + std::to_string(++made);
      size_t na = 0; Value ack; for (auto &e : r.in.ev) if (e.k == 'a' && e.c == c) { ++na; ack = e.v; }
      if (na != 1 || !same(ack, Value(can ? COMMAND_SENT_TO_SYSTEM : COMMAND_FAILED))) { bad(can ? "ReceiveCommand not accepted" : "ReceiveCommand did not fail", evs(r.in.ev, nm)); return; }
      if (!can) { if (r.in.ev.size() != 1) bad("failed ReceiveCommand returned something", evs(r.in.ev, nm)); break; }
      if (m != 1) owner = m; if (!g_loop->open.count(m == 1 ? 5002 : 5001)) { bad("not listening after ReceiveCommand", ""); return; }
      if (pend[m].empty()) { wait[m].push_back(c); if (r.in.ev.size() != 1) bad("returned from nowhere", evs(r.in.ev, nm)); }
      else { int n = pend[m].front(); pend[m].erase(pend[m].begin()); size_t at = 0; while (at < r.in.ev.size() && r.in.ev[at].k != 'r') ++at; if (r.in.ev.size() != 2) bad("pending message not returned once", evs(r.in.ev, nm)); else returned(c, m, n, at); }
      if (!r.in.woken) bad("exec not notified", ""); break; }
    case XA: case XB: { int m = op - XA; if (wait[m].empty()) { ++H::st.skipped; return; } Cmd *c = wait[m].front(); wait[m].erase(wait[m].begin()); r.cf.ab["ReceiveCommand"](c, &r.in);
      if (r.in.ev.size() != 1 || r.in.ev[0].k != 'x' || r.in.ev[0].c != c || !same(r.in.ev[0].v, Value(true)) || !r.in.woken) bad("abort not acknowledged once", evs(r.in.ev, nm)); if (m == 0 && !g_loop->open.count(5001)) owner = -1; break; }
    case GP: { if (last.empty()) { ++H::st.skipped; return; } auto &l = labels[last]; size_t i = 0; while (i < l.got.size() && l.got[i]) ++i; if (i == l.got.size()) { ++H::st.skipped; return; } l.got[i] = true;
      Cmd *c = r.exec("GetParameter", {Value(last), Value((Integer) i)}); nm[c] = "G"; Value got; int n = 0; for (auto &e : r.in.ev) if (e.k == 'r') { ++n; got = e.v; if (e.c != c) n = 9; }
      Value want = l.m == 1 ? Value((Integer) (100000 + l.num)) : i == 0 ? Value((Integer) l.num) : Value(string("m") + (char) ('a' + l.num));
      if (n != 1 || !same(got, want)) { bad("wrong parameter", "message " + std::to_string(l.num) + " parameter " + std::to_string(i) + " want " + vs(want) + " got " + evs(r.in.ev, nm)); return; } break; }
    case BADR: { int w = made % 4; vector<Value> a; if (w == 0) a = {Value("nosuch")}; if (w == 1) a = {Value((Integer) 3)}; if (w == 2) a = {Value()}; Cmd *c = r.exec("ReceiveCommand", a); nm[c] = "bad"; ++made;
      if (r.in.ev.size() != 1 || r.in.ev[0].k != 'a' || !same(r.in.ev[0].v, Value(COMMAND_FAILED))) { bad("bad ReceiveCommand did not fail", evs(r.in.ev, nm)); return; } break; }
    }
    if (H::full()) return;
  }
  H::distinct(strs(ops)); }
static void exploreUR() { int depth = H::args.thorough ? 7 : 6; vector<int> ops; uint64_t n = 0;
  std::function<void()> rec = [&]() { if (H::full() || H::timeUp()) return; if ((int) ops.size() == depth) { if (H::mine(n++)) runUR(ops); return; }
    for (int o = 0; o < NOPS; ++o) { // nothing can happen to A or B before a ReceiveCommand; an aborted or fetched thing must exist
      int ra = 0, rb = 0, xa = 0, xb = 0, b = 0; for (int p : ops) { ra += p == RA || p == FAILR; rb += p == RB; xa += p == XA; xb += p == XB; b += p == BADR || p == FAILR || p == RC_; }
      if ((o == XA && xa >= ra) || (o == XB && xb >= rb) || (o == GP && ops.empty()) || ((o == BADR || o == FAILR || o == RC_) && b >= 2) || (o == DB && !rb && !ops.empty())) continue;
      ops.push_back(o); rec(); ops.pop_back(); } }; rec(); }

// UL: the real event loop: start, stop, listeners on two ports, datagrams
enum { START, STOP, OPEN1, OPEN2, OPENB, CLOSE1, CLOSE2, DG1, DG2, DG0, LOPS };
static const char *LN[] = {"start", "stop", "open 5001", "open 5002", "open 5001, bind fails", "close 5001", "close 5002", "datagram to 5001", "datagram to 5002", "empty datagram to 5001"};
struct Got { int port; string data; }; static std::mutex g_gm; static std::condition_variable g_gc; static vector<Got> g_got;
static int peerOf(int port) { std::lock_guard<std::mutex> g(g_net); int best = -1, p = -1; for (auto &s : g_socks) if (s.second.bound == port && s.first > best) { best = s.first; p = s.second.peer; } return p; }
static void runUL(vector<int> const &ops) {
  H::cell("UL", strs(ops)); ++H::st.executions; string log; auto bad = [&](string const &k, string const &t) { H::violate(k, log + t, strs(ops)); };
  size_t o0 = openSocks(); g_got.clear(); bool running = false; std::set<int> open; int num = 0; vector<Got> want;
  { g_realLoop = true; auto lp = realLoop(); g_realLoop = false;
    for (int op : ops) { log += string(LN[op]) + "\n"; ++H::st.transitions;
      auto fn = [&](int tag) { return [tag](in_port_t p, const void *b, size_t n, const struct sockaddr *, socklen_t) { std::lock_guard<std::mutex> g(g_gm); g_got.push_back({(int) p == tag ? tag : -1, string((const char *) b, n)}); g_gc.notify_all(); }; };
      switch (op) {
      case START: if (!lp->start()) bad("start failed", ""); running = true; break;
      case STOP: lp->stop(); running = false; open.clear(); break;
      case OPEN1: case OPEN2: case OPENB: { int p = op == OPEN2 ? 5002 : 5001; f_bind = op == OPENB; bool r = lp->openListener(p, p == 5001 ? 4 : 2, fn(p)); f_bind = false; bool w = running && op != OPENB && !open.count(p); if (r != w) { bad("openListener gave the wrong result", r ? "true" : "false"); } if (w) open.insert(p); break; }
      case CLOSE1: case CLOSE2: { int p = op == CLOSE1 ? 5001 : 5002; lp->closeListener(p); open.erase(p); break; }
      default: { int p = op == DG2 ? 5002 : 5001; if (!open.count(p)) break; int peer = peerOf(p); if (peer < 0) { bad("no socket for an open listener", ""); break; }
        string d = op == DG0 ? "" : string(1, (char) ('a' + ++num)) + "xyzw"; d.resize(std::min<size_t>(d.size(), p == 5001 ? 4 : 3)); if (syscall(SYS_sendto, peer, d.data(), d.size(), 0, nullptr, 0) < 0) break; d.resize(std::min<size_t>(d.size(), p == 5001 ? 4 : 2)); want.push_back({p, d});
        std::unique_lock<std::mutex> g(g_gm); if (!g_gc.wait_for(g, std::chrono::seconds(20), [&] { return g_got.size() >= want.size(); })) { g.unlock(); bad("a datagram to an open listener was not delivered", ""); } }
      }
      if (openSocks() - o0 != open.size()) bad("sockets open: " + std::to_string(openSocks() - o0) + " listeners: " + std::to_string(open.size()), "");
      if (H::full()) break;
    }
    if (running) lp->stop();
  }
  if (openSocks() != o0) bad("sockets leaked at the end", std::to_string(openSocks() - o0));
  std::lock_guard<std::mutex> g(g_gm); string a, b; for (auto &x : g_got) a += std::to_string(x.port) + ":" + hex(x.data) + "; "; for (auto &x : want) b += std::to_string(x.port) + ":" + hex(x.data) + "; "; if (a != b) { H::violate("datagrams delivered differ", log + a + "\nwant " + b, strs(ops)); }
  H::distinct(strs(ops)); }
static void exploreUL() { int depth = H::args.thorough ? 6 : 5; vector<int> ops; uint64_t n = 0;
  std::function<void()> rec = [&]() { if (H::full() || H::timeUp()) return; if ((int) ops.size() == depth) { if (H::mine(n++)) runUL(ops); return; } 
    for (int o = 0; o < LOPS; ++o) { bool run = false, o1 = false, o2 = false; for (int p : ops) { if (p == START) run = true; if (p == STOP) run = o1 = o2 = false; if (p == OPEN1 && run) o1 = true; if (p == OPEN2 && run) o2 = true; if (p == CLOSE1) o1 = false; if (p == CLOSE2) o2 = false; }
      if (((o == DG1 || o == DG0) && !o1) || (o == DG2 && !o2)) continue; if (!run && ops.size() && o >= OPEN1 && o != OPEN1 && o != CLOSE1) continue;
      ops.push_back(o); rec(); ops.pop_back(); } }; rec(); }

int main(int argc, char **argv) {
  if (!getenv("UDP_NOISY")) { int n = ::open("/dev/null", O_WRONLY); (void) n; }
  vector<H::Family> f = {
    {"UE", exploreUE, [](string const &b) { replayUE(ints(b)); }}, {"UW", exploreUW, [](string const &b) { runUW(ints(b)); }}, {"UX", exploreUX, [](string const &b) { runUX(ints(b)); }},
    {"UC", exploreUC, [](string const &b) { runUC(ints(b)[0]); }}, {"UT", exploreUT, [](string const &b) { runUT(ints(b)[0]); }},
    {"UR", exploreUR, [](string const &b) { runUR(ints(b)); }}, {"UL", exploreUL, [](string const &b) { runUL(ints(b)); }}};
  return H::run(argc, argv, f);
}
