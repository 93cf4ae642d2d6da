// Reference model of PLEXIL plan execution, written from the published
// semantics, plus the plan AST shared with the XML generator.
// The reference evaluates *every* node in *every* micro step by full scan; it
// has no notion of listeners, activation or candidate queues.
#pragma once
#include <array>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace M {

typedef int V;                       // value of any type; UNK = unknown
static const V UNK = INT_MIN;

enum Ty { TB, TI, TR, TS };
enum NT { N_EMPTY, N_LIST, N_CMD, N_ASGN, N_UPD, N_LIB };
enum CT { C_SKIP, C_START, C_PRE, C_EXIT, C_INV, C_END, C_POST, C_REPEAT, C_N };
enum St { INACTIVE, WAITING, EXECUTING, ITER_ENDED, FINISHED, FAILING, FINISHING, ST_N };
enum Oc { O_NONE, O_SUCCESS, O_FAILURE, O_SKIPPED, O_INTERRUPTED };
enum Fl { F_NONE, F_PRE, F_POST, F_INV, F_PARENT_FAILED, F_EXITED, F_PARENT_EXITED };
enum Hd { H_NONE, H_SENT, H_ACCEPTED, H_RCVD, H_FAILED, H_DENIED, H_SUCCESS, H_IFERR, H_N };
extern const char *stName[], *ocName[], *flName[], *hdName[];

enum Op { CONST, LK, VAR, NST, NOUT, NFL, NHD, TPV, NOT, AND, OR, XOR, EQ, NE, LT, LE, GT, GE,
          ADD, SUB, MUL, ISK, ELT, ISKN, AREF };

struct Ex;
typedef std::shared_ptr<const Ex> EP;
struct Ex { Op op; Ty ty; int a, b; std::string s; std::vector<EP> k; };

inline EP mk(Op o, Ty t, int a, int b, std::string s, std::vector<EP> k = {}) {
  return std::make_shared<const Ex>(Ex{o, t, a, b, std::move(s), std::move(k)});
}
inline EP B(int v) { return mk(CONST, TB, v, 0, ""); }
inline EP I(int v) { return mk(CONST, TI, v, 0, ""); }
inline EP R(int v) { return mk(CONST, TR, v, 0, ""); }
inline EP S(int v) { return mk(CONST, TS, v, 0, ""); }
inline EP lk(std::string s, Ty t = TB, bool onchange = false) { return mk(LK, t, onchange, 0, s); }
inline EP var(std::string s, Ty t) { return mk(VAR, t, 0, 0, s); }
inline EP elt(std::string s, Ty t, EP i) { return mk(ELT, t, 0, 0, s, {i}); }
inline EP aref(std::string s, Ty t) { return mk(AREF, t, 0, 0, s); }   // a whole array, as the alias of an array parameter
inline EP nst(std::string n, int st) { return mk(NST, TB, st, 0, n); }
inline EP nout(std::string n, int o) { return mk(NOUT, TB, o, 0, n); }
inline EP nfl(std::string n, int f) { return mk(NFL, TB, f, 0, n); }
inline EP nhd(std::string n, int h) { return mk(NHD, TB, h, 0, n); }
inline EP tp(std::string n, int st, bool end) { return mk(TPV, TR, st, end, n); }
inline EP NOT_(EP x) { return mk(NOT, TB, 0, 0, "", {x}); }
inline EP AND_(EP x, EP y) { return mk(AND, TB, 0, 0, "", {x, y}); }
inline EP OR_(EP x, EP y) { return mk(OR, TB, 0, 0, "", {x, y}); }
inline EP bin(Op o, EP x, EP y) { return mk(o, (o >= ADD && o <= MUL) ? x->ty : TB, 0, 0, "", {x, y}); }
inline EP eq(EP x, EP y) { return bin(EQ, x, y); }
inline EP isk(EP x) { return mk(ISK, TB, 0, 0, "", {x}); }
inline EP iskn(std::string n, int kind) { return mk(ISKN, TB, kind, 0, n); }  // 0 outcome 1 failure 2 handle

struct VarDecl { std::string name; Ty ty; EP init; int size = 0; /* >0: array */ std::vector<V> ainit; };
struct ResDecl { EP name; EP prio; EP bound; EP release; };
struct ParamDecl { std::string name; Ty ty; bool inout; EP dflt; int size = 0; /* >0: array */ std::vector<V> ainit; };

struct NodeSpec;
typedef std::shared_ptr<NodeSpec> NP;
struct NodeSpec {
  NT type = N_EMPTY; std::string id;
  bool hasPrio = false; int prio = 0;
  std::vector<std::string> using_;
  std::vector<VarDecl> vars; std::vector<std::string> mutexes;
  std::vector<ParamDecl> params;           // library interface
  EP cond[C_N];
  std::vector<NP> kids;
  EP cmdName; std::vector<EP> args; EP dest; std::vector<ResDecl> res;   // command / assignment dest
  EP rhs;
  std::vector<std::pair<std::string, EP>> pairs;
  std::string lib; std::vector<std::pair<std::string, EP>> aliases;
};
inline NP node(NT t, std::string id) { NP n = std::make_shared<NodeSpec>(); n->type = t; n->id = std::move(id); return n; }

struct LookupDecl { std::string name; Ty ty; std::vector<V> dom; V init; };
struct ResHier { std::string name; double max; std::vector<std::pair<double, std::string>> kids; };

struct System {                       // everything a run needs
  std::string label;
  std::vector<NP> plans;
  std::vector<bool> addLater;         // plan added by an explicit event
  std::map<std::string, NP> libs;
  std::vector<LookupDecl> lookups;
  std::vector<std::string> globalMutexes;
  std::vector<ResHier> hier;
};

std::string planXml(System const &, NP);
std::string libXml(System const &, NP);

// ---------------------------------------------------------------- reference

struct CEx { Op op; Ty ty; int a, b, n; std::vector<int> k; int sz; };   // compiled expression

struct RNode {
  NT type; std::string id, path; int parent = -1, plan = 0; std::vector<int> kids;
  int prio; std::vector<int> mutexes; int cond[C_N]; std::vector<int> vars;
  int cmdName = -1; std::vector<int> args; int dest = -1; int rhs = -1;
  std::vector<std::pair<std::string, int>> pairs;
  std::vector<std::array<int, 4>> res;
};
struct RVar { std::string name; Ty ty; int owner; int init; int size; int base; std::vector<V> ainit; };

struct Dyn {
  uint8_t st = INACTIVE, out = O_NONE, fail = F_NONE, ack = 0, abt = 0, hd = H_NONE, live = 0;
  V saved = UNK; int savedSlot = -1; std::vector<V> fixed; int pend = 0;
  std::vector<std::pair<std::string,double>> held; bool relAll = true;
  int tpS[ST_N], tpE[ST_N];
  Dyn() { for (int i = 0; i < ST_N; ++i) tpS[i] = tpE[i] = UNK; }
};

struct Tr { int n; uint8_t from, to, out, fail; 
  bool operator<(Tr const &o) const { return n < o.n; } };

struct Macro { std::vector<std::vector<std::string>> micro; std::vector<std::string> fx; 
  bool empty() const { return micro.empty() && fx.empty(); } };

struct OutOfModel : std::runtime_error { using std::runtime_error::runtime_error; };

class Ref {
public:
  System const *sys;
  std::vector<RNode> N; std::vector<RVar> vars; std::vector<CEx> E;
  std::vector<std::string> lkName; std::map<std::string, int> lkIdx;
  std::vector<std::string> mtxName;
  std::vector<int> roots;
  bool usesTime = false;
  // dynamic
  struct State {
    std::vector<Dyn> d; std::vector<V> slot; std::vector<V> lkv; std::vector<int> mholder, vholder;
    std::vector<uint8_t> planState;   // 0 not added, 1 running, 2 finished & removed
    std::map<std::string,double> alloc;
    int stamp = 1;
    std::vector<int> denied;          // commands denied, to be reported before next step
  } s;

  explicit Ref(System const &);
  void reset();
  void addPlan(int p);
  // environment events
  void setLookup(int l, V v) { s.lkv[l] = v; }
  void cmdHandle(int n, int h);
  void cmdReturn(int n, V v);
  void cmdAbortAck(int n, bool v);
  void updAck(int n, bool v);
  // One macro step at time t. `hint` (may be null) lists, per micro step, the
  // indices of nodes the implementation moved, used only to choose among ties.
  // Returns false if cap reached (divergent).
  bool macro(int t, Macro &m, std::vector<std::vector<int>> const *hint, int cap);
  void removeFinished();
  std::string key() const;
  std::string dump() const;
  V eval(int e) const;
  bool T(int e) const { V v = eval(e); return v != UNK && v; }
  bool Fa(int e) const { V v = eval(e); return v != UNK && !v; }
  std::string valStr(Ty t, V v) const;
private:
  struct Scope { Scope *up; int node; std::map<std::string, int> vars, aliases, mutexes; bool libBoundary; };
  int compile(EP const &, Scope *, int node);
  int build(NP, int parent, int plan, Scope *, std::string path);
  void link(int n, NP, Scope *);
  int findNode(int from, std::string const &id) const;
  int resolveDestVar(int e) const;
  int destSlot(int e) const;
  bool dest(int n, Tr &t) const;
  V anc(int n, int c) const;   // Kleene combination of ancestors' conditions
  void apply(Tr const &, int t);
  bool tryAcquire(int n);
  std::vector<int> scopeLib_;
  std::map<int, Scope *> scopes;
  std::vector<std::unique_ptr<Scope>> ownedScopes;
  bool isLibRoot(int n) const { return N[n].parent >= 0 && N[N[n].parent].type == N_LIB; }
  std::vector<int> toExec, toRetract, toCmd, toAbort, toUpd;
  mutable bool needAncCheck = false;
};

} // namespace M
