#include "real.hh"
#include "Array.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandImpl.hh"
#include "CommandNode.hh"
#include "Debug.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExecListenerBase.hh"
#include "Expression.hh"
#include "InterfaceError.hh"
#include "LookupReceiver.hh"
#include "NodeImpl.hh"
#include "parsePlan.hh"
#include "PlanError.hh"
#include "planLibrary.hh"
#include "PlexilExec.hh"
#include "ResourceArbiterInterface.hh"
#include "StateCache.hh"
#include "Update.hh"
#include "pugixml.hpp"
#include <algorithm>
#include <cmath>
#include <new>
using namespace PLEXIL;
// Live allocation counting: the leak oracle.
static long g_live = 0;
static std::string g_suffix;
#ifndef __SANITIZE_ADDRESS__
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); ++g_live; return p; }
void operator delete(void *p) noexcept { if (p) { --g_live; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { --g_live; free(p); } }
#endif
namespace X {
struct Livelock { };
static string numStr(double d) { std::ostringstream o; o << d; return o.str(); }
static string valueStr(Value const &v) {
  if (!v.isKnown()) return "UNKNOWN";
  switch (v.valueType()) {
  case REAL_TYPE: { Real r; v.getValue(r); return numStr(r); }
  case DATE_TYPE: case DURATION_TYPE: { Real r; v.getValue(r); return numStr(r); }
  default: { std::ostringstream o; o << v; return o.str(); }
  }
}
static string exprStr(Expression const *e) { return valueStr(e->toValue()); }

struct RMacro { vector<vector<string>> micro; vector<vector<int>> ids; vector<string> fx; bool empty() const { return micro.empty() && fx.empty(); } };

static int g_uniq = 0;
class RealRun : public Dispatcher, public ExecListenerBase {
public:
  Ref &ref; vector<V> env; RMacro cur; int microCap = 60;
  std::map<string, int> pathId; vector<NodeImpl *> nodeOf;
  std::map<string, Command *> cmds; std::map<string, Update *> upds; vector<Command *> denied;
  vector<int> planOf; std::unique_ptr<PlexilExec> exec; double t = 1; int microCount = 0;
  string suffix; std::map<string, int> rootPlan;
  std::map<string, int> lkIdx;
  vector<string> xml;
  vector<string> badCalls;
  RealRun(Ref &r, vector<string> const &x) : ref(r), env(r.s.lkv), exec(makePlexilExec()), xml(x) {
    for (size_t i = 0; i < ref.N.size(); ++i) pathId[ref.N[i].path] = i;
    nodeOf.assign(ref.N.size(), nullptr);
    for (size_t l = 0; l < ref.lkName.size(); ++l) lkIdx[ref.lkName[l]] = l;
    for (size_t p = 0; p < ref.roots.size(); ++p) rootPlan[ref.N[ref.roots[p]].id] = p;
    StateCache::instance().incrementCycleCount();
    g_exec = exec.get(); g_dispatcher = this;
    exec->setDispatcher(this); exec->setExecListener(this);
    suffix = g_suffix.empty() ? std::to_string(g_uniq++) : g_suffix;
    if (!ref.sys->hier.empty()) {
      std::ostringstream o; o << "% comment\n";
      for (auto &h : ref.sys->hier) { o << h.name << " " << h.max; for (auto &k : h.kids) o << " " << k.first << " " << k.second; o << "\n"; }
      std::istringstream in(o.str()); exec->getArbiter()->readResourceHierarchy(in);
    }
    for (size_t p = 0; p < ref.roots.size(); ++p) if (ref.s.planState[p] == 1) addPlan(p);
  }
  ~RealRun() {
    for (size_t l = 0; l < env.size(); ++l) ; // nothing
    exec.reset(); g_exec = nullptr; g_dispatcher = nullptr;
  }
  void walk(NodeImpl *n, string path) {
    path += "/" + n->getNodeId();
    auto it = pathId.find(path); if (it == pathId.end()) throw std::runtime_error("unknown node path " + path);
    nodeOf[it->second] = n;
    for (auto &c : n->getChildren()) walk(c.get(), path);
  }
  void addPlan(int p) {
    string text = xml[p];
    if (!ref.sys->globalMutexes.empty()) for (auto &m : ref.sys->globalMutexes) {
      string pat = ">" + m + "<"; for (size_t q; (q = text.find(pat)) != string::npos;) text.replace(q, pat.size(), ">" + m + "_" + suffix + "<"); }
    pugi::xml_document doc; auto res = doc.load_string(text.c_str(), (pugi::parse_default | pugi::parse_ws_pcdata_single));
    if (!res) throw std::runtime_error("XML: " + text);
    NodeImpl *n = parsePlan(doc.document_element());
    walk(n, "p" + std::to_string(p));
    exec->addPlan(n);
  }
  // ---- Dispatcher
  void give(LookupReceiver *r, int l, V v) {
    if (v == UNK) { r->setUnknown(); return; }
    switch (ref.sys->lookups[l].ty) {
    case TB: r->update((Boolean)(v != 0)); break; case TI: r->update((Integer)v); break;
    case TR: r->update((Real)v); break; case TS: r->update(String("s" + std::to_string(v))); break; }
  }
  Value val(int l, V v) {
    Ty ty = ref.sys->lookups[l].ty;
    return val(ty, v);
  }
  static Value val(Ty ty, V v) {
    if (v == UNK) return Value();
    switch (ty) { case TB: return Value((Boolean)(v != 0)); case TI: return Value((Integer)v); case TR: return Value((Real)v); default: return Value(String("s" + std::to_string(v))); }
  }
  void lookupNow(State const &s, LookupReceiver *r) override {
    auto it = lkIdx.find(s.name()); if (it == lkIdx.end()) { r->setUnknown(); return; }
    give(r, it->second, env[it->second]);
  }
  void setThresholds(const State &, Real, Real) override {}
  void setThresholds(const State &, Integer, Integer) override {}
  void clearThresholds(const State &) override {}
  string cmdStr(Command *c) {
    string o = c->getName() + "("; auto const &a = c->getArgValues();
    for (size_t i = 0; i < a.size(); ++i) { if (i) o += ","; o += valueStr(a[i]); }
    return o + ")";
  }
  void executeCommand(Command *c) override { cur.fx.push_back("CMD " + cmdStr(c)); cmds[c->getName()] = c; }
  void reportCommandArbitrationFailure(Command *c) override { cur.fx.push_back("DENY " + cmdStr(c)); cmds[c->getName()] = c; denied.push_back(c); }
  void invokeAbort(Command *c) override { cur.fx.push_back("ABORT " + c->getName()); }
  void executeUpdate(Update *u) override {
    vector<string> ps; for (auto &p : u->getPairs()) ps.push_back(p.first + "=" + valueStr(p.second));
    std::sort(ps.begin(), ps.end());
    string o = "UPDATE " + u->getNodeId(); for (auto &p : ps) o += " " + p;
    cur.fx.push_back(o); upds[u->getNodeId()] = u;
  }
  // ---- listener
  string pathOf(Node const *n) {
    string p; Node const *r = n;
    for (; n; n = n->getParent()) { p = "/" + n->getNodeId() + p; r = n; }
    auto it = rootPlan.find(r->getNodeId());
    return "p" + std::to_string(it == rootPlan.end() ? -1 : it->second) + p;
  }
  void notifyOfTransitions(vector<NodeTransition> const &v) override {
    if (++microCount > microCap) throw Livelock();
    vector<string> o; vector<int> ids;
    for (auto &t : v) {
      string p = pathOf(t.node);
      if (t.node->getState() != t.newState) o.push_back(p + ": reported state is not the node's state");
      o.push_back(p + ":" + stName[stIdx(t.oldState)] + ">" + stName[stIdx(t.newState)] + "/" + ocName[ocIdx(t.node->getOutcome())] + "/" + flName[flIdx(t.node->getFailureType())]);
      auto it = pathId.find(p); if (it != pathId.end()) ids.push_back(it->second);
    }
    std::sort(o.begin(), o.end());
    cur.micro.push_back(o); cur.ids.push_back(ids);
  }
  static int stIdx(NodeState s) {
    switch (s) { case INACTIVE_STATE: return INACTIVE; case WAITING_STATE: return WAITING; case EXECUTING_STATE: return EXECUTING; case ITERATION_ENDED_STATE: return ITER_ENDED;
    case FINISHED_STATE: return FINISHED; case FAILING_STATE: return FAILING; case FINISHING_STATE: return FINISHING; default: return ST_N; } }
  static int ocIdx(NodeOutcome o) { return o == NO_OUTCOME ? 0 : o == SUCCESS_OUTCOME ? O_SUCCESS : o == FAILURE_OUTCOME ? O_FAILURE : o == SKIPPED_OUTCOME ? O_SKIPPED : O_INTERRUPTED; }
  static int flIdx(FailureType f) {
    switch (f) { case PRE_CONDITION_FAILED: return F_PRE; case POST_CONDITION_FAILED: return F_POST; case INVARIANT_CONDITION_FAILED: return F_INV;
    case PARENT_FAILED: return F_PARENT_FAILED; case EXITED: return F_EXITED; case PARENT_EXITED: return F_PARENT_EXITED; default: return F_NONE; } }
  static int hdIdx(CommandHandleValue h) {
    switch (h) { case COMMAND_SENT_TO_SYSTEM: return H_SENT; case COMMAND_ACCEPTED: return H_ACCEPTED; case COMMAND_RCVD_BY_SYSTEM: return H_RCVD; case COMMAND_FAILED: return H_FAILED;
    case COMMAND_DENIED: return H_DENIED; case COMMAND_SUCCESS: return H_SUCCESS; case COMMAND_INTERFACE_ERROR: return H_IFERR; default: return H_NONE; } }
  static CommandHandleValue hdVal(int h) {
    switch (h) { case H_SENT: return COMMAND_SENT_TO_SYSTEM; case H_ACCEPTED: return COMMAND_ACCEPTED; case H_RCVD: return COMMAND_RCVD_BY_SYSTEM; case H_FAILED: return COMMAND_FAILED;
    case H_DENIED: return COMMAND_DENIED; case H_SUCCESS: return COMMAND_SUCCESS; case H_IFERR: return COMMAND_INTERFACE_ERROR; default: return NO_COMMAND_HANDLE; } }
  void notifyOfAssignment(Expression const *, string const &n, Value const &v) override { cur.fx.push_back("ASSIGN " + n + "=" + valueStr(v)); }
  void stepComplete(unsigned int) override {}
  // ---- events
  void apply(Ev const &e) {
    switch (e.k) {
    case E_LK: env[e.a] = e.b; StateCache::instance().lookupReturn(State(ref.lkName[e.a]), val(e.a, e.b)); break;
    case E_HANDLE: { auto it = cmds.find(cname(e.a)); if (it != cmds.end()) commandHandleReturn(it->second, hdVal(e.b)); break; }
    case E_RET: { auto it = cmds.find(cname(e.a)); if (it != cmds.end()) commandReturn(it->second, val(ref.E[ref.N[e.a].dest].ty, e.b)); break; }
    case E_ABT: { auto it = cmds.find(cname(e.a)); if (it != cmds.end()) commandAbortAcknowledge(it->second, e.b); break; }
    case E_UACK: { auto it = upds.find(ref.N[e.a].id); if (it != upds.end()) it->second->acknowledge(e.b); break; }
    case E_ADD: addPlan(e.a); break;
    }
  }
  string cname(int n) { return ref.valStr(TS, ref.eval(ref.N[n].cmdName)); }
  bool sent(int n) { return cmds.count(cname(n)); }
  string state() {   // everything a plan author can see, in the reference's format
    std::ostringstream o;
    for (size_t n = 0; n < ref.N.size(); ++n) {
      if (ref.s.planState[ref.N[n].plan] != 1) continue;
      NodeImpl *i = nodeOf[n];
      o << ref.N[n].path << " " << stName[stIdx(i->getState())] << "/" << ocName[ocIdx(i->getOutcome())] << "/" << flName[flIdx(i->getFailureType())];
      if (ref.N[n].type == N_CMD) o << " handle " << hdName[hdIdx(((CommandNode *)i)->getCommand()->getCommandHandle())];
      auto st = i->getState();
      if (st == EXECUTING_STATE || st == FINISHING_STATE || st == FAILING_STATE)
        for (int v : ref.N[n].vars) {
          Expression *e = i->findLocalVariable(ref.vars[v].name.c_str());
          o << " " << ref.vars[v].name << "=";
          if (!e) { o << "MISSING"; continue; }
          if (ref.vars[v].size) {
            Array const *a = nullptr;
            bool k = e->getValuePointer(a);
            for (int x = 0; x < ref.vars[v].size; ++x) {
              if (!k || (size_t)x >= a->size() || !a->elementKnown(x)) o << "UNKNOWN"; else o << valueStr(a->getElementValue(x));
              o << ",";
            }
          } else o << exprStr(e);
        }
      o << "\n";
    }
    return o.str();
  }
  string digest() {
    string s;
    for (size_t n = 0; n < ref.N.size(); ++n) {
      if (ref.s.planState[ref.N[n].plan] != 1 || !nodeOf[n]) continue;
      s += (char)('0' + nodeOf[n]->getQueueStatus());
    }
    for (size_t p = 0; p < ref.roots.size(); ++p) if (ref.s.planState[p] == 1 && nodeOf[ref.roots[p]]) {
      string t = nodeOf[ref.roots[p]]->toString(); string u;
      for (size_t i = 0; i < t.size(); ++i) {   // scrub addresses and times
        if (t[i] == '0' && i + 1 < t.size() && t[i + 1] == 'x') { i += 2; while (i < t.size() && isxdigit(t[i])) ++i; u += '@'; --i; continue; }
        if (t[i] == '(' ) { size_t j = t.find(')', i); bool num = j != string::npos; for (size_t k = i + 1; num && k < j; ++k) if (!isdigit(t[k]) && t[k] != '.') num = false; if (num) { i = j; continue; } }
        u += t[i];
      }
      s += u;
    }
    return s;
  }
};
static string refState(Ref &r) {
  std::ostringstream o;
  for (size_t n = 0; n < r.N.size(); ++n) {
    auto &d = r.s.d[n];
    if (r.s.planState[r.N[n].plan] != 1) continue;
    o << r.N[n].path << " " << stName[d.st] << "/" << ocName[d.out] << "/" << flName[d.fail];
    if (r.N[n].type == N_CMD) o << " handle " << hdName[d.hd];
    if (d.st == EXECUTING || d.st == FINISHING || d.st == FAILING)
      for (int v : r.N[n].vars) { o << " " << r.vars[v].name << "="; for (int i = 0; i < std::max(1, r.vars[v].size); ++i) o << r.valStr(r.vars[v].ty, r.s.slot[r.vars[v].base + i]) << (r.vars[v].size ? "," : ""); }
    o << "\n";
  }
  return o.str();
}
static string macroStr(vector<vector<string>> const &mi, vector<string> const &fx) {
  string o;
  for (auto &m : mi) { o += "   {"; for (auto &s : m) o += " " + s; o += " }\n"; }
  for (auto &f : fx) o += "   " + f + "\n";
  return o;
}
string batchStr(Batch const &b) { string o; static const char *k = "LHRAUP"; for (auto &e : b) { if (!o.empty()) o += ";"; o += k[e.k]; o += " " + std::to_string(e.a) + " " + (e.b == UNK ? "U" : std::to_string(e.b)); } return o.empty() ? "-" : o; }
Batch parseBatch(string const &s) {
  Batch b; std::stringstream ss(s); string p; if (s == "-") return b;
  while (getline(ss, p, ';')) { char k; int a; char v[32]; if (sscanf(p.c_str(), " %c %d %31s", &k, &a, v) != 3) throw std::runtime_error("bad batch " + s);
    Ev e; e.k = (int)(strchr("LHRAUP", k) - "LHRAUP"); e.a = a; e.b = v[0] == 'U' ? UNK : atoi(v); b.push_back(e); }
  return b;
}
void defaultMenu(Scenario const &sc, Ref &r, vector<Batch> &out) {
  vector<Batch> single;
  for (size_t l = 0; l < r.sys->lookups.size(); ++l) for (V v : r.sys->lookups[l].dom) if (v != r.s.lkv[l]) single.push_back({{E_LK, (int)l, v}});
  for (size_t p = 0; p < r.roots.size(); ++p) if (r.s.planState[p] == 0) out.push_back({{E_ADD, (int)p, 0}});
  for (size_t n = 0; n < r.N.size(); ++n) {
    auto &d = r.s.d[n];
    if (r.s.planState[r.N[n].plan] != 1) continue;
    if (r.N[n].type == N_CMD) {
      bool on = d.live && (d.st == EXECUTING || d.st == FINISHING || d.st == FAILING);
      if (on || sc.lateHandles) {
        for (int h : sc.handles) if (!sc.handleOnce || h != d.hd) single.push_back({{E_HANDLE, (int)n, h}});
        if (r.N[n].dest >= 0) for (V v : sc.rets) single.push_back({{E_RET, (int)n, v}});
      }
      if ((d.live && d.st == FAILING && !d.abt) || sc.lateAcks) { single.push_back({{E_ABT, (int)n, 1}}); if (sc.abortFalse) single.push_back({{E_ABT, (int)n, 0}}); }
    }
    if (r.N[n].type == N_UPD && ((d.live && !d.ack) || sc.lateAcks)) { single.push_back({{E_UACK, (int)n, 1}}); if (sc.updFalse) single.push_back({{E_UACK, (int)n, 0}}); }
  }
  for (auto &s : single) out.push_back(s);
  if (sc.pairs) for (size_t i = 0; i < single.size(); ++i) for (size_t j = i + 1; j < single.size(); ++j) {
    if (single[i][0].k == single[j][0].k && single[i][0].a == single[j][0].a) continue;
    out.push_back({single[i][0], single[j][0]});
  }
}

struct Mismatch { string key, text; };
enum RoundRes { RR_OK, RR_SKIP, RR_BAD };
class Exec {   // one execution of one scenario
public:
  Scenario const &sc; Ref &ref; RealRun real; int tm = 1; Mismatch mm; string log; vector<int> iters; vector<string> lastObs;
  Exec(Scenario const &s, Ref &r, vector<string> const &xml) : sc(s), ref((r.reset(), r)), real(r, xml), iters(r.N.size(), 0) {}
  // run macro steps to quiescence on both sides
  RoundRes settle() {
    for (int guard = 0; guard < 12; ++guard) {
      // reference, unguided, on a copy: does it converge?
      auto before = ref.s;
      vector<Macro> want; bool div = false; int tt = tm;
      try {
        for (int i = 0;; ++i) { Macro m; if (i > 30 || !ref.macro(tt, m, nullptr, 50)) { div = true; break; } if (m.empty()) break; want.push_back(m); ++tt; }
      } catch (OutOfModel &e) { H::st.counters[string("out of model: ") + e.what()]++; return RR_SKIP; }
      if (div) { H::st.counters["divergent (livelocking plan) skipped"]++; return RR_SKIP; }
      auto after = ref.s;
      vector<RMacro> got; bool live = false;
      real.denied.clear();
      try {
        for (int i = 0; real.exec->needsStep(); ++i) {
          if (i > 60) { live = true; break; }
          real.cur = RMacro(); real.microCount = 0; real.exec->step(tm + (int)got.size());
          std::sort(real.cur.fx.begin(), real.cur.fx.end());
          if (!real.cur.empty()) got.push_back(real.cur);
        }
      } catch (Livelock &) { live = true; }
      auto same = [&]() {
        if (got.size() != want.size()) return false;
        for (size_t i = 0; i < got.size(); ++i) if (got[i].micro != want[i].micro || got[i].fx != want[i].fx) return false;
        return true;
      };
      bool ok = !live && same();
      if (!ok && !live) {   // ties between equal-priority waiters: follow the implementation's choice
        ref.s = before; want.clear(); tt = tm;
        try {
          for (size_t i = 0;; ++i) { Macro m; static const vector<vector<int>> none; if (i > 30 || !ref.macro(tt, m, i < got.size() ? &got[i].ids : &none, 50)) { div = true; break; } if (m.empty()) break; want.push_back(m); ++tt; }
        } catch (OutOfModel &e) { H::st.counters[string("out of model: ") + e.what()]++; return RR_SKIP; }
        ok = !div && same();
        if (ok) H::st.counters["priority ties resolved as the implementation did"]++;
        after = ref.s;
      }
      if (live) {   // is it the plan itself that never settles, once ties are resolved as the implementation did?
        ref.s = before; bool agree = true; tt = tm; vector<vector<int>> part = real.cur.ids;
        try {
          size_t i = 0;
          for (; agree && i < got.size(); ++i, ++tt) { Macro m; if (!ref.macro(tt, m, &got[i].ids, 70)) { agree = false; break; } agree = got[i].micro == m.micro && got[i].fx == m.fx; }
          if (agree && got.size() <= 60) { Macro m; agree = !ref.macro(tt, m, &part, 50); }
        } catch (OutOfModel &e) { agree = true; }
        if (agree) { H::st.counters["divergent (livelocking plan) skipped"]++; return RR_SKIP; }
      }
      if (got.size() > 14) got.resize(14);
      string g, w; for (auto &m : got) g += macroStr(m.micro, m.fx) + "   --\n"; for (auto &m : want) w += macroStr(m.micro, m.fx) + "   --\n";
      log += g;
      if (!ok) {
        mm.text = string(live ? "executive does not settle\n" : "") + "history:\n" + log + "expected last round:\n" + w + "got:\n" + g;
        // key: first differing micro step content
        string k = live ? "livelock" : "trace";
        if (!live) for (size_t i = 0; i <= std::max(got.size(), want.size()); ++i) {
          bool gi = i < got.size(), wi = i < want.size();
          if (gi && wi && got[i].micro == want[i].micro && got[i].fx == want[i].fx) continue;
          k = string("want[") + (wi ? macroStr(want[i].micro, want[i].fx) : "") + "]got[" + (gi ? macroStr(got[i].micro, got[i].fx) : "") + "]"; break;
        }
        mm.key = k; return RR_BAD;
      }
      tm += got.size();
      for (auto &m : got) { H::st.transitions += m.micro.size(); for (auto &mi : m.micro) for (auto &s : mi) { lastObs.push_back(s); }
        for (auto &ids : m.ids) for (int id : ids) if (ref.s.d[id].st != INACTIVE) ; }
      for (auto &m : got) for (size_t i = 0; i < m.micro.size(); ++i) for (auto &s : m.micro[i]) { size_t c = s.find(":"); if (s.find(">EXECUTING/", c) != string::npos) { auto it = real.pathId.find(s.substr(0, c)); if (it != real.pathId.end() && iters[it->second] < 2) ++iters[it->second]; } }
      string a = real.state(), b = refState(ref);
      if (a != b) { mm.key = "state"; mm.text = "history:\n" + log + "expected state:\n" + b + "got state:\n" + a;
        std::stringstream sa(a), sb(b); string la, lb; while (getline(sa, la) && getline(sb, lb)) if (la != lb) { mm.key = "want " + lb + " got " + la; break; }
        return RR_BAD; }
      ref.removeFinished();
      real.exec->deleteFinishedPlans();
      size_t alive = 0; for (auto ps : ref.s.planState) if (ps == 1) ++alive;
      if (real.exec->getPlans().size() != alive) { mm.key = "plans"; mm.text = "history:\n" + log + "number of plans still loaded: expected " + std::to_string(alive) + " got " + std::to_string(real.exec->getPlans().size()); return RR_BAD; }
      if (ref.roots.size() > 1) {   // "true if at least one plan has been run and all have finished"
        bool over = false; for (auto ps : ref.s.planState) over = over || ps == 2; over = over && !alive;
        if (real.exec->allPlansFinished() != over) { mm.key = "allfinished"; mm.text = "history:\n" + log + "allPlansFinished() is " + (over ? "false although every plan has finished" : "true although " + string(alive ? "a plan is still running" : "no plan has run")); return RR_BAD; }
      }
      if (ref.s.denied.empty()) return RR_OK;
      // commands denied by the arbiter: the application reports COMMAND_DENIED for them
      auto dn = ref.s.denied; ref.s.denied.clear();
      for (int n : dn) if (ref.s.planState[ref.N[n].plan] == 1) { ref.cmdHandle(n, H_DENIED); real.apply({E_HANDLE, n, H_DENIED}); }
      log += "   (denied commands reported)\n";
    }
    return RR_SKIP;
  }
  RoundRes round(Batch const &b) {
    log += " event " + batchStr(b) + "\n";
    try {
      for (auto &e : b) {
        if (e.k == E_HANDLE || e.k == E_RET || e.k == E_ABT || e.k == E_UACK) {
          if (ref.s.planState[ref.N[e.a].plan] != 1) continue;
          bool sent = e.k == E_UACK ? real.upds.count(ref.N[e.a].id) : real.sent(e.a);
          if (!sent) continue;     // never issued: nothing can report on it
        }
        real.apply(e);
        switch (e.k) {
        case E_LK: ref.setLookup(e.a, e.b); break; case E_HANDLE: ref.cmdHandle(e.a, e.b); break; case E_RET: ref.cmdReturn(e.a, e.b); break;
        case E_ABT: ref.cmdAbortAck(e.a, e.b); break; case E_UACK: ref.updAck(e.a, e.b); break; case E_ADD: ref.addPlan(e.a); break; }
      }
    } catch (OutOfModel &) { return RR_SKIP; }
    return settle();
  }
};
static void initPlexil() {
  static bool done = false; if (done) return; done = true;
  if (char const *d = getenv("PLEXIL_DEBUG")) { std::istringstream in(d); readDebugConfigStream(in); }
  Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions();
}
static vector<FamilyDef> const *g_fams;
static void loadLibs(System const &s) {
  for (auto &l : s.libs) {
    auto *doc = new pugi::xml_document; if (!doc->load_string(libXml(s, l.second).c_str(), (pugi::parse_default | pugi::parse_ws_pcdata_single))) throw std::runtime_error("lib xml");
    loadLibraryDocument(doc);
  }
}
struct Built { Scenario sc; std::unique_ptr<Ref> ref; vector<string> xml; };
static Built prepare(FamilyDef const &f, size_t i) {
  initPlexil();
  Built b; b.sc = f.make(i); 
  for (auto &p : b.sc.sys.plans) b.xml.push_back(planXml(b.sc.sys, p));
  loadLibs(b.sc.sys);
  return b;
}
static string replayText(size_t i, vector<Batch> const &h) { string s = std::to_string(i) + "\n"; for (auto &b : h) s += batchStr(b) + "\n"; return s; }
static void report(FamilyDef const &f, Built &b, size_t i, vector<Batch> const &h, Mismatch const &m) {
  string t = "scenario " + f.name + "#" + std::to_string(i) + " " + b.sc.sys.label + "\nplan: ";
  for (auto &x : b.xml) t += x + "\n";
  H::violate(f.name + ": " + b.sc.sys.label + ": " + m.key, t + m.text, replayText(i, h));
}
// Nothing may be left behind by a completed run: the same history, run again and again in fresh executives sharing the
// process-wide state (state cache, global mutexes, name tables), must behave the same each time and leave the same number of
// live allocations; values arriving for the removed plans' lookups must do nothing.
static bool leftBehind(FamilyDef const &f, Built &b, size_t idx, vector<Batch> const &h) {
  Ref &ref = *b.ref; long live[4]; string what; static uint64_t serial = 0; g_suffix = "again" + std::to_string(serial++);
  for (int rep = 0; rep < 4 && what.empty(); ++rep) {
    { Exec x(b.sc, ref, b.xml); RoundRes r = x.settle();
      for (size_t k = 0; r == RR_OK && k < h.size(); ++k) r = x.round(h[k]);
      if (r == RR_BAD) what = "run " + std::to_string(rep + 1) + " of the same history differs: " + x.mm.text;
      else if (r == RR_OK) {
        size_t n = x.real.lkIdx.size(); x.real.cur = RMacro(); x.real.microCount = 0;
        for (size_t l = 0; l < n; ++l) for (V v : b.sc.sys.lookups[l].dom) x.real.apply({E_LK, (int)l, v});
        for (int i = 0; i < 3 && x.real.exec->needsStep(); ++i) x.real.exec->step(x.tm + i);
        if (!x.real.cur.empty()) what = "something still runs after the plans were removed";
        if (!x.real.exec->getPlans().empty()) what = "plans left";
      }
    }
    live[rep] = g_live;
  }
  g_suffix.clear();
  if (what.empty() && live[3] != live[2]) what = "live allocations grow by " + std::to_string(live[3] - live[2]) + " with every run";
  ++H::st.counters["completed runs repeated to look for remains"];
  if (what.empty()) return false;
  report(f, b, idx, h, {what.substr(0, 60), what}); return true;
}
// Runs history h; continues with menu's first entry; collects alternatives.
static void exploreScenario(FamilyDef const &f, size_t idx) {
  string s0 = std::to_string(idx); H::cell(f.name, s0 + "\n");
  Built b = prepare(f, idx);
  try { b.ref.reset(new Ref(b.sc.sys)); } catch (std::exception &e) { throw std::runtime_error(f.name + "#" + s0 + " " + b.sc.sys.label + ": " + e.what()); }
  Ref &ref = *b.ref; Scenario &sc = b.sc;
  std::set<uint64_t> seen;
  struct Item { vector<Batch> h; };
  vector<Item> stack{{{}}};
  uint64_t execs = 0; size_t viol0 = H::st.viol.size();
  while (!stack.empty()) {
    if (execs >= sc.cap) { H::st.capped = true; H::note("execution cap " + std::to_string(sc.cap) + " reached in a scenario of " + f.name); break; }
    if (H::st.viol.size() >= viol0 + 2 || H::full()) break;
    Item it = stack.back(); stack.pop_back();
    ++execs; ++H::st.executions;
    string rt = replayText(idx, it.h); H::cell(f.name, rt);
    vector<Batch> h; bool complete = false;
    try {
      { Exec x(sc, ref, b.xml);
      RoundRes r = x.settle();
      auto bad = [&]() { report(f, b, idx, h, x.mm); };
      if (r == RR_BAD) { bad(); continue; }
      if (r == RR_SKIP) { ++H::st.skipped; continue; }
      bool dead = false;
      for (auto &p : sc.prefix) { h.push_back(p); r = x.round(p); if (r != RR_OK) { dead = true; break; } }
      size_t base = sc.prefix.size();
      // replay recorded part (it.h holds the complete history including the prefix)
      for (size_t k = base; !dead && k < it.h.size(); ++k) { h.push_back(it.h[k]); H::cell(f.name, replayText(idx, h)); r = x.round(it.h[k]); if (r != RR_OK) dead = true; }
      if (dead) { if (r == RR_BAD) bad(); else ++H::st.skipped; continue; }
      for (;;) {
        string k = ref.key() + x.real.digest(); if (sc.iterKey) for (int n : x.iters) k += (char)n;
        k += (char)(sc.menu ? h.size() : 0);
        uint64_t hk = H::hash(k);
        int left = sc.depth - (int)(h.size() - base);
        // a state seen at lower remaining depth must be revisited: depth is part of the key only when bounded
        if (!seen.insert(hk * 31 + (sc.menu ? 0 : left)).second) { ++H::st.dedup; break; }
        ++H::st.states;
        if (left <= 0) break;
        bool any = false; for (auto ps : ref.s.planState) if (ps != 2) any = true;
        if (!any) { H::st.counters["ran to completion"]++; complete = true; break; }
        vector<Batch> menu; if (sc.menu) sc.menu(ref, (int)(h.size() - base), menu); else defaultMenu(sc, ref, menu);
        if (menu.empty()) break;
        for (size_t a = menu.size(); a-- > 1;) { Item n; n.h = h; n.h.push_back(menu[a]); stack.push_back(n); }
        h.push_back(menu[0]); H::cell(f.name, replayText(idx, h));
        r = x.round(menu[0]);
        if (r == RR_BAD) { bad(); break; }
        if (r == RR_SKIP) { ++H::st.skipped; break; }
      }
      for (auto &o : x.lastObs) { size_t c = o.rfind('/', o.find(':')); H::distinct(f.name + "|" + o); (void)c; }
      if (H::st.samples.size() < 3 && h.size() >= 2) H::sample(f.name + "#" + s0 + " " + sc.sys.label + " history: " + [&] { string q; for (auto &z : h) q += batchStr(z) + " | "; return q; }());
      ++H::st.traces; }
      if (complete && sc.cleanup) leftBehind(f, b, idx, h);
    } catch (std::exception const &e) {
      report(f, b, idx, h, {string("exception ") + e.what(), string("exception: ") + e.what()});
    } catch (Error const &e) {
      std::ostringstream o; e.print(o); report(f, b, idx, h, {"exception", "exception: " + o.str()});
    }
  }
}
static void replayOne(FamilyDef const &f, string const &text) {
  std::stringstream in(text); string line; getline(in, line); size_t idx = std::stoul(line);
  vector<Batch> h; while (getline(in, line)) if (!line.empty()) h.push_back(parseBatch(line));
  Built b = prepare(f, idx); b.ref.reset(new Ref(b.sc.sys));
  std::cout << "scenario " << f.name << "#" << idx << " " << b.sc.sys.label << "\n"; for (auto &x : b.xml) std::cout << x << "\n";
  try {
    Exec x(b.sc, *b.ref, b.xml);
    RoundRes r = x.settle(); vector<Batch> done;
    for (size_t i = 0; r == RR_OK && i < h.size(); ++i) { done.push_back(h[i]); r = x.round(h[i]); }
    std::cout << x.log << x.real.state();
    if (r == RR_BAD) report(f, b, idx, done, x.mm);
    bool any = false; for (auto ps : b.ref->s.planState) if (ps != 2) any = true;
    if (r == RR_OK && !any && b.sc.cleanup) leftBehind(f, b, idx, done);
    if (r == RR_SKIP) std::cout << "outside the model" << std::endl;
  } catch (std::exception const &e) { report(f, b, idx, h, {string("exception ") + e.what(), e.what()}); }
  catch (Error const &e) { std::ostringstream o; e.print(o); report(f, b, idx, h, {"exception", o.str()}); }
}
int mainFamilies(int argc, char **argv, vector<FamilyDef> const &fams) {
  g_fams = &fams; vector<H::Family> v;
  for (auto &f : fams) v.push_back({f.name, [&f] {
      size_t n = f.count(); uint64_t done = 0;
      for (size_t i = 0; i < n; ++i) {
        if (!H::mine(i)) continue;
        if (H::full()) break;
        if (H::timeUp()) { H::st.capped = true; H::note("time budget reached in " + f.name + " after " + std::to_string(done) + " of " + std::to_string(n / H::args.nshards) + " scenarios of a shard"); break; }
        exploreScenario(f, i); ++done;
      }
      H::st.counters["scenarios " + f.name] += done;
    }, [&f](string const &t) { replayOne(f, t); }});
  return H::run(argc, argv, v);
}
}
