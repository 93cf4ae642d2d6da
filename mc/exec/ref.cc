#include "model.hh"
#include <algorithm>
#include <cassert>
using namespace std;
namespace M {
const char *stName[] = {"INACTIVE","WAITING","EXECUTING","ITERATION_ENDED","FINISHED","FAILING","FINISHING","BAD_STATE"};
const char *ocName[] = {"NONE","SUCCESS","FAILURE","SKIPPED","INTERRUPTED"};
const char *flName[] = {"NONE","PRE_CONDITION_FAILED","POST_CONDITION_FAILED","INVARIANT_CONDITION_FAILED","PARENT_FAILED","EXITED","PARENT_EXITED"};
const char *hdName[] = {"NONE","COMMAND_SENT_TO_SYSTEM","COMMAND_ACCEPTED","COMMAND_RCVD_BY_SYSTEM","COMMAND_FAILED","COMMAND_DENIED","COMMAND_SUCCESS","COMMAND_INTERFACE_ERROR"};

// ------------------------------------------------------------------ XML
static const char *tyName(Ty t) { return t == TB ? "Boolean" : t == TI ? "Integer" : t == TR ? "Real" : "String"; }
static void x(ostream &o, EP const &e, Ty want = TB);
static void lit(ostream &o, Ty t, V v) {
  switch (t) {
  case TB: o << "<BooleanValue>" << (v ? "true" : "false") << "</BooleanValue>"; break;
  case TI: o << "<IntegerValue>" << v << "</IntegerValue>"; break;
  case TR: o << "<RealValue>" << v << ".0</RealValue>"; break;
  case TS: o << "<StringValue>s" << v << "</StringValue>"; break;
  }
}
static void nodeVar(ostream &o, const char *tag, string const &n, const char *vtag, string const &v) {
  o << "<EQInternal><" << tag << "><NodeId>" << n << "</NodeId></" << tag << "><" << vtag << ">" << v << "</" << vtag << "></EQInternal>";
}
static void x(ostream &o, EP const &e, Ty) {
  switch (e->op) {
  case CONST: lit(o, e->ty, e->a); break;
  case LK: { const char *t = e->a ? "LookupOnChange" : "LookupNow";
    o << "<" << t << "><Name><StringValue>" << e->s << "</StringValue></Name></" << t << ">"; break; }
  case VAR: { string t = string(tyName(e->ty)) + "Variable"; o << "<" << t << ">" << e->s << "</" << t << ">"; break; }
  case AREF: o << "<ArrayVariable>" << e->s << "</ArrayVariable>"; break;
  case ELT: o << "<ArrayElement><Name>" << e->s << "</Name><Index>"; x(o, e->k[0]); o << "</Index></ArrayElement>"; break;
  case NST: nodeVar(o, "NodeStateVariable", e->s, "NodeStateValue", stName[e->a]); break;
  case NOUT: nodeVar(o, "NodeOutcomeVariable", e->s, "NodeOutcomeValue", ocName[e->a]); break;
  case NFL: nodeVar(o, "NodeFailureVariable", e->s, "NodeFailureValue", flName[e->a]); break;
  case NHD: nodeVar(o, "NodeCommandHandleVariable", e->s, "NodeCommandHandleValue", hdName[e->a]); break;
  case ISKN: { const char *t = e->a == 0 ? "NodeOutcomeVariable" : e->a == 1 ? "NodeFailureVariable" : "NodeCommandHandleVariable";
    o << "<IsKnown><" << t << "><NodeId>" << e->s << "</NodeId></" << t << "></IsKnown>"; break; }
  case TPV: o << "<NodeTimepointValue><NodeId>" << e->s << "</NodeId><NodeStateValue>" << stName[e->a]
      << "</NodeStateValue><Timepoint>" << (e->b ? "END" : "START") << "</Timepoint></NodeTimepointValue>"; break;
  case NOT: o << "<NOT>"; x(o, e->k[0]); o << "</NOT>"; break;
  case ISK: o << "<IsKnown>"; x(o, e->k[0]); o << "</IsKnown>"; break;
  default: {
    string t; Ty kt = e->k[0]->ty;
    switch (e->op) {
    case AND: t = "AND"; break; case OR: t = "OR"; break; case XOR: t = "XOR"; break;
    case EQ: t = kt == TB ? "EQBoolean" : kt == TS ? "EQString" : "EQNumeric"; break;
    case NE: t = kt == TB ? "NEBoolean" : kt == TS ? "NEString" : "NENumeric"; break;
    case LT: t = "LT"; break; case LE: t = "LE"; break; case GT: t = "GT"; break; case GE: t = "GE"; break;
    case ADD: t = "ADD"; break; case SUB: t = "SUB"; break; case MUL: t = "MUL"; break;
    default: abort();
    }
    o << "<" << t << ">"; for (auto &k : e->k) x(o, k); o << "</" << t << ">";
  } }
}
static const char *condTag[] = {"SkipCondition","StartCondition","PreCondition","ExitCondition","InvariantCondition","EndCondition","PostCondition","RepeatCondition"};
static void rhs(ostream &o, EP const &e) {
  const char *t = e->op == LK ? "LookupRHS" : e->ty == TB ? "BooleanRHS" : e->ty == TS ? "StringRHS" : "NumericRHS";
  o << "<" << t << ">"; x(o, e); o << "</" << t << ">";
}
static void declVar(ostream &o, VarDecl const &v) {
  if (v.size) {
    o << "<DeclareArray><Name>" << v.name << "</Name><Type>" << tyName(v.ty) << "</Type><MaxSize>" << v.size << "</MaxSize>";
    if (!v.ainit.empty()) { o << "<InitialValue><ArrayValue Type=\"" << tyName(v.ty) << "\">"; for (V a : v.ainit) lit(o, v.ty, a); o << "</ArrayValue></InitialValue>"; }
    o << "</DeclareArray>";
  } else {
    o << "<DeclareVariable><Name>" << v.name << "</Name><Type>" << tyName(v.ty) << "</Type>";
    if (v.init) { o << "<InitialValue>"; x(o, v.init); o << "</InitialValue>"; }
    o << "</DeclareVariable>";
  }
}
static void nodeXml(ostream &o, System const &S, NP n) {
  static const char *tn[] = {"Empty","NodeList","Command","Assignment","Update","LibraryNodeCall"};
  o << "<Node NodeType=\"" << tn[n->type] << "\"><NodeId>" << n->id << "</NodeId>";
  if (n->hasPrio) o << "<Priority>" << n->prio << "</Priority>";
  if (!n->params.empty()) {
    o << "<Interface>";
    for (int io = 0; io < 2; ++io) {
      bool any = false;
      for (auto &p : n->params) if (p.inout == io) any = true;
      if (!any) continue;
      o << (io ? "<InOut>" : "<In>");
      for (auto &p : n->params) if (p.inout == io) {
        if (p.size) { declVar(o, VarDecl{p.name, p.ty, EP(), p.size, p.ainit}); continue; }
        o << "<DeclareVariable><Name>" << p.name << "</Name><Type>" << tyName(p.ty) << "</Type>";
        if (p.dflt) { o << "<InitialValue>"; x(o, p.dflt); o << "</InitialValue>"; }
        o << "</DeclareVariable>";
      }
      o << (io ? "</InOut>" : "</In>");
    }
    o << "</Interface>";
  }
  if (!n->vars.empty() || !n->mutexes.empty()) {
    o << "<VariableDeclarations>";
    for (auto &v : n->vars) declVar(o, v);
    for (auto &m : n->mutexes) o << "<DeclareMutex><Name>" << m << "</Name></DeclareMutex>";
    o << "</VariableDeclarations>";
  }
  if (!n->using_.empty()) { o << "<UsingMutex>"; for (auto &m : n->using_) o << "<Name>" << m << "</Name>"; o << "</UsingMutex>"; }
  for (int c = 0; c < C_N; ++c) if (n->cond[c]) { o << "<" << condTag[c] << ">"; x(o, n->cond[c]); o << "</" << condTag[c] << ">"; }
  switch (n->type) {
  case N_LIST: o << "<NodeBody><NodeList>"; for (auto &k : n->kids) nodeXml(o, S, k); o << "</NodeList></NodeBody>"; break;
  case N_CMD:
    o << "<NodeBody><Command>";
    if (!n->res.empty()) {
      o << "<ResourceList>";
      for (auto &r : n->res) {
        o << "<Resource><ResourceName>"; x(o, r.name); o << "</ResourceName><ResourcePriority>"; x(o, r.prio); o << "</ResourcePriority>";
        if (r.bound) { o << "<ResourceUpperBound>"; x(o, r.bound); o << "</ResourceUpperBound>"; }
        if (r.release) { o << "<ResourceReleaseAtTermination>"; x(o, r.release); o << "</ResourceReleaseAtTermination>"; }
        o << "</Resource>";
      }
      o << "</ResourceList>";
    }
    if (n->dest) x(o, n->dest);
    o << "<Name>"; x(o, n->cmdName); o << "</Name>";
    if (!n->args.empty()) { o << "<Arguments>"; for (auto &a : n->args) x(o, a); o << "</Arguments>"; }
    o << "</Command></NodeBody>"; break;
  case N_ASGN:
    o << "<NodeBody><Assignment>"; x(o, n->dest); rhs(o, n->rhs); o << "</Assignment></NodeBody>"; break;
  case N_UPD:
    o << "<NodeBody><Update>";
    for (auto &p : n->pairs) { o << "<Pair><Name>" << p.first << "</Name>"; x(o, p.second); o << "</Pair>"; }
    o << "</Update></NodeBody>"; break;
  case N_LIB:
    o << "<NodeBody><LibraryNodeCall><NodeId>" << n->lib << "</NodeId>";
    for (auto &a : n->aliases) { o << "<Alias><NodeParameter>" << a.first << "</NodeParameter>"; x(o, a.second); o << "</Alias>"; }
    o << "</LibraryNodeCall></NodeBody>"; break;
  default: break;
  }
  o << "</Node>";
}
string planXml(System const &S, NP n) {
  ostringstream o; o << "<PlexilPlan><GlobalDeclarations>";
  for (auto &l : S.lookups)
    o << "<StateDeclaration><Name>" << l.name << "</Name><Return><Name>r</Name><Type>" << tyName(l.ty) << "</Type></Return></StateDeclaration>";
  for (auto &m : S.globalMutexes) o << "<DeclareMutex><Name>" << m << "</Name></DeclareMutex>";
  o << "</GlobalDeclarations>"; nodeXml(o, S, n); o << "</PlexilPlan>"; return o.str();
}
string libXml(System const &S, NP n) { return planXml(S, n); }

// ------------------------------------------------------------- compile
Ref::Ref(System const &S) : sys(&S) {
  for (auto &l : S.lookups) { lkIdx[l.name] = (int)lkName.size(); lkName.push_back(l.name); }
  Scope *g = new Scope{nullptr, -1, {}, {}, {}, false}; ownedScopes.emplace_back(g);
  for (auto &m : S.globalMutexes) { g->mutexes[m] = (int)mtxName.size(); mtxName.push_back(m); }
  for (size_t p = 0; p < S.plans.size(); ++p) {
    int r = build(S.plans[p], -1, (int)p, g, "p" + to_string(p));
    roots.push_back(r);
    link(r, S.plans[p], nullptr);
  }
  reset();
}
int Ref::build(NP np, int parent, int plan, Scope *up, string path) {
  int n = (int)N.size(); N.emplace_back();
  RNode &r = N.back(); r.type = np->type; r.id = np->id; r.path = path + "/" + np->id; r.parent = parent; r.plan = plan;
  r.prio = np->hasPrio ? np->prio : 100000;
  for (int &c : r.cond) c = -1;
  Scope *s = new Scope{up, n, {}, {}, {}, false}; ownedScopes.emplace_back(s); scopes[n] = s;
  auto addVar = [&](VarDecl const &v) {
    RVar rv{v.name, v.ty, n, -1, v.size, -1, v.ainit};
    s->vars[v.name] = (int)vars.size(); N[n].vars.push_back((int)vars.size()); vars.push_back(rv);
  };
  for (auto &v : np->vars) addVar(v);
  for (auto &m : np->mutexes) { s->mutexes[m] = (int)mtxName.size(); mtxName.push_back(m); }
  string pth = N[n].path;
  for (auto &k : np->kids) { int c = build(k, n, plan, s, pth); N[n].kids.push_back(c); }
  if (np->type == N_LIB) {
    Scope *b = new Scope{nullptr, n, {}, {}, {}, true}; ownedScopes.emplace_back(b);
    Scope *g = s; while (g->up) g = g->up;   // global mutexes stay visible
    b->mutexes = g->mutexes;
    NP l = sys->libs.at(np->lib);
    scopes[-1000 - n] = b;
    int c = build(l, n, plan, b, pth);
    // interface variables
    Scope *ls = scopes[c];
    for (auto &p : l->params) {
      bool given = false; for (auto &a : np->aliases) if (a.first == p.name) given = true;
      if (!given && (p.inout || p.size)) {
        RVar rv{p.name, p.ty, c, -1, p.size, -1, p.ainit};
        ls->vars[p.name] = (int)vars.size(); N[c].vars.push_back((int)vars.size()); vars.push_back(rv);
      }
    }
    N[n].kids.push_back(c);
  }
  return n;
}
int Ref::findNode(int from, string const &id) const {
  int n = from;
  while (true) {
    if (N[n].id == id) return n;
    for (int k : N[n].kids) if (N[k].id == id && N[n].type != N_LIB) return k;
    if (isLibRoot(n) || N[n].parent < 0) break;
    n = N[n].parent;
  }
  throw runtime_error("node ref " + id + " not found");
}
int Ref::compile(EP const &e, Scope *sc, int node) {
  if (e->op == VAR || e->op == ELT || e->op == AREF) {
    Scope *s = sc;
    for (; s; s = s->up) {
      auto a = s->aliases.find(e->s);
      if (a != s->aliases.end() && e->op != ELT) return a->second;
      if (a != s->aliases.end()) { CEx c{ELT, e->ty, 0, 0, E[a->second].n, {}, 0}; c.k.push_back(compile(e->k[0], sc, node)); E.push_back(c); return (int)E.size() - 1; }
      if (s->vars.count(e->s)) break;
    }
    if (!s) throw runtime_error("variable " + e->s + " not found");
    CEx c{e->op, e->ty, 0, 0, s->vars[e->s], {}, 0};
    if (e->op == ELT) c.k.push_back(compile(e->k[0], sc, node));
    E.push_back(c); return (int)E.size() - 1;
  }
  CEx c{e->op, e->ty, e->a, e->b, -1, {}, 0};
  switch (e->op) {
  case LK: c.n = lkIdx.at(e->s); break;
  case NST: case NOUT: case NFL: case NHD: case TPV: case ISKN: c.n = findNode(node, e->s); if (e->op == TPV) usesTime = true; break;
  default: break;
  }
  for (auto &k : e->k) c.k.push_back(compile(k, sc, node));
  E.push_back(c); return (int)E.size() - 1;
}
void Ref::link(int n, NP np, Scope *) {
  Scope *s = scopes[n];
  for (int c = 0; c < C_N; ++c) if (np->cond[c]) N[n].cond[c] = compile(np->cond[c], s, n);
  for (auto &v : np->vars) if (v.init) vars[s->vars[v.name]].init = compile(v.init, s->up ? s->up : s, n);
  for (auto &m : np->using_) {
    Scope *q = s; while (q && !q->mutexes.count(m)) q = q->up;
    if (!q) throw runtime_error("mutex not found");
    N[n].mutexes.push_back(q->mutexes[m]);
  }
  if (np->cmdName) N[n].cmdName = compile(np->cmdName, s, n);
  for (auto &a : np->args) N[n].args.push_back(compile(a, s, n));
  if (np->dest) N[n].dest = compile(np->dest, s, n);
  if (np->rhs) N[n].rhs = compile(np->rhs, s, n);
  for (auto &p : np->pairs) N[n].pairs.emplace_back(p.first, compile(p.second, s, n));
  for (auto &r : np->res) {
    array<int, 4> a{compile(r.name, s, n), compile(r.prio, s, n), r.bound ? compile(r.bound, s, n) : -1, r.release ? compile(r.release, s, n) : -1};
    N[n].res.push_back(a);
  }
  if (np->type == N_LIB) {
    NP l = sys->libs.at(np->lib);
    int c = N[n].kids[0]; Scope *b = scopes[-1000 - n];
    for (auto &a : np->aliases) b->aliases[a.first] = compile(a.second, s, n);
    for (auto &p : l->params) {
      if (b->aliases.count(p.name)) continue;
      if (p.size) continue;
      if (p.inout) vars[scopes[c]->vars[p.name]].init = compile(p.dflt, b, c);
      else b->aliases[p.name] = compile(p.dflt, b, c);
    }
    link(c, l, nullptr);
  } else
    for (size_t i = 0; i < np->kids.size(); ++i) link(N[n].kids[i], np->kids[i], nullptr);
}
void Ref::reset() {
  s = State();
  s.d.resize(N.size());
  int base = 0;
  for (auto &v : vars) { v.base = base; base += v.size ? v.size : 1; }
  s.slot.assign(base, UNK);
  for (auto &l : sys->lookups) s.lkv.push_back(l.init);
  s.mholder.assign(mtxName.size(), -1); s.vholder.assign(vars.size(), -1);
  s.planState.assign(roots.size(), 0);
  for (size_t p = 0; p < roots.size(); ++p)
    if (!(p < sys->addLater.size() && sys->addLater[p])) s.planState[p] = 1;
}
void Ref::addPlan(int p) { s.planState[p] = 1; }

// ------------------------------------------------------------- evaluation
static V k3and(V a, V b) { if ((a != UNK && !a) || (b != UNK && !b)) return 0; if (a == UNK || b == UNK) return UNK; return 1; }
static V k3or(V a, V b) { if ((a != UNK && a) || (b != UNK && b)) return 1; if (a == UNK || b == UNK) return UNK; return 0; }
V Ref::eval(int e) const {
  CEx const &c = E[e];
  auto enumEq = [](V a, V b) -> V { return a == UNK ? UNK : (V)(a == b); };
  switch (c.op) {
  case CONST: return c.a;
  case LK: return s.lkv[c.n];
  case VAR: return s.slot[vars[c.n].base];
  case ELT: { V i = eval(c.k[0]); if (i == UNK || i < 0 || i >= vars[c.n].size) return UNK; return s.slot[vars[c.n].base + i]; }
  case NST: return s.d[c.n].st == c.a;
  case NOUT: return enumEq(s.d[c.n].out == O_NONE ? UNK : s.d[c.n].out, c.a);
  case NFL: return enumEq(s.d[c.n].fail == F_NONE ? UNK : s.d[c.n].fail, c.a);
  case NHD: return enumEq(s.d[c.n].hd == H_NONE ? UNK : s.d[c.n].hd, c.a);
  case ISKN: return c.a == 0 ? s.d[c.n].out != O_NONE : c.a == 1 ? s.d[c.n].fail != F_NONE : s.d[c.n].hd != H_NONE;
  case TPV: return c.b ? s.d[c.n].tpE[c.a] : s.d[c.n].tpS[c.a];
  case NOT: { V a = eval(c.k[0]); return a == UNK ? UNK : !a; }
  case ISK: return eval(c.k[0]) != UNK;
  case AND: { V r = 1; for (int k : c.k) r = k3and(r, eval(k)); return r; }
  case OR: { V r = 0; for (int k : c.k) r = k3or(r, eval(k)); return r; }
  case XOR: { V r = 0; for (int k : c.k) { V v = eval(k); if (r == UNK || v == UNK) r = UNK; else r = (r != 0) != (v != 0); } return r; }
  default: {
    V a = eval(c.k[0]), b = eval(c.k[1]);
    if (a == UNK || b == UNK) return UNK;
    switch (c.op) {
    case EQ: return a == b; case NE: return a != b; case LT: return a < b; case LE: return a <= b;
    case GT: return a > b; case GE: return a >= b; case ADD: return a + b; case SUB: return a - b; case MUL: return a * b;
    default: abort();
    } }
  }
}
V Ref::anc(int n, int c) const {
  V r = c == C_INV ? 1 : 0;
  int p = N[n].parent;
  if (p >= 0) {
    // The conditions of ancestors are only defined for a child while its parent is under way.
    int ps = s.d[p].st;
    bool any = false;
    for (int q = p; q >= 0; q = N[q].parent) if (N[q].cond[c] >= 0) any = true;
    if (any && ps != EXECUTING && ps != FINISHING && ps != FAILING) throw OutOfModel("ancestor condition with idle parent");
  }
  for (; p >= 0; p = N[p].parent) {
    int e = N[p].cond[c]; if (e < 0) continue;
    V v = eval(e);
    r = c == C_INV ? k3and(r, v) : k3or(r, v);
  }
  return r;
}
bool Ref::dest(int n, Tr &t) const {
  Dyn const &d = s.d[n]; RNode const &r = N[n];
  auto go = [&](int to, int out = O_NONE, int fail = F_NONE) { t = Tr{n, d.st, (uint8_t)to, (uint8_t)out, (uint8_t)fail}; return true; };
  auto isT = [](V v) { return v != UNK && v; };
  auto isF = [](V v) { return v != UNK && !v; };
  auto cT = [&](int c) { return r.cond[c] >= 0 && T(r.cond[c]); };        // explicitly true
  auto cF = [&](int c) { return r.cond[c] >= 0 && Fa(r.cond[c]); };
  auto ok = [&](int c) { return r.cond[c] < 0 || T(r.cond[c]); };         // absent or true
  int ps = r.parent >= 0 ? s.d[r.parent].st : -1;
  auto kidsDone = [&]() { for (int k : r.kids) if (s.d[k].st != WAITING && s.d[k].st != FINISHED) return false; return true; };
  auto kidsFin = [&]() { for (int k : r.kids) if (s.d[k].st != FINISHED) return false; return true; };
  auto endPost = [&]() { return ok(C_POST) ? go(ITER_ENDED, O_SUCCESS) : go(ITER_ENDED, O_FAILURE, F_POST); };
  auto four = [&](bool &res) {   // common failure checks of non-empty nodes
    if (isT(anc(n, C_EXIT))) { res = go(FAILING, O_INTERRUPTED, F_PARENT_EXITED); return true; }
    if (cT(C_EXIT)) { res = go(FAILING, O_INTERRUPTED, F_EXITED); return true; }
    if (isF(anc(n, C_INV))) { res = go(FAILING, O_FAILURE, F_PARENT_FAILED); return true; }
    if (cF(C_INV)) { res = go(FAILING, O_FAILURE, F_INV); return true; }
    return false;
  };
  bool res;
  switch (d.st) {
  case INACTIVE:
    if (r.parent < 0) return go(WAITING);
    if (ps == FINISHED) return go(FINISHED, O_SKIPPED);
    if (ps == EXECUTING) {
      if (isT(anc(n, C_EXIT)) || isF(anc(n, C_INV)) || isT(anc(n, C_END))) return go(FINISHED, O_SKIPPED);
      return go(WAITING);
    }
    return false;
  case WAITING:
    if (isT(anc(n, C_EXIT)) || cT(C_EXIT) || isF(anc(n, C_INV)) || isT(anc(n, C_END)) || cT(C_SKIP)) return go(FINISHED, O_SKIPPED);
    if (!ok(C_START)) return false;
    if (!ok(C_PRE)) return go(ITER_ENDED, O_FAILURE, F_PRE);
    return go(EXECUTING);
  case EXECUTING:
    switch (r.type) {
    case N_EMPTY:
      if (isT(anc(n, C_EXIT))) return go(FINISHED, O_INTERRUPTED, F_PARENT_EXITED);
      if (cT(C_EXIT)) return go(ITER_ENDED, O_INTERRUPTED, F_EXITED);
      if (isF(anc(n, C_INV))) return go(FINISHED, O_FAILURE, F_PARENT_FAILED);
      if (cF(C_INV)) return go(ITER_ENDED, O_FAILURE, F_INV);
      if (!ok(C_END)) return false;
      return endPost();
    case N_LIST: case N_LIB:
      if (four(res)) return res;
      if (r.cond[C_END] >= 0 ? T(r.cond[C_END]) : kidsFin()) return go(FINISHING);
      return false;
    case N_CMD:
      if (four(res)) return res;
      if (r.cond[C_END] >= 0) {
        V intr = d.hd == H_DENIED || d.hd == H_FAILED || d.hd == H_IFERR;
        if (!isT(k3or(intr, eval(r.cond[C_END])))) return false;
      }
      return go(FINISHING);
    case N_ASGN:
      if (!d.ack) return false;
      if (four(res)) return res;
      if (!ok(C_END)) return false;
      return endPost();
    case N_UPD:
      if (four(res)) return res;
      if (!(d.ack && ok(C_END))) return false;
      return endPost();
    }
    abort();
  case FINISHING:
    if (four(res)) return res;
    if (r.type == N_CMD ? d.hd != H_NONE : kidsDone()) return endPost();
    return false;
  case FAILING: {
    bool done = r.type == N_CMD ? d.abt : r.type == N_ASGN ? d.abt : r.type == N_UPD ? d.ack : kidsDone();
    if (!done) return false;
    return go(d.fail == F_PARENT_FAILED || d.fail == F_PARENT_EXITED ? FINISHED : ITER_ENDED);
  }
  case ITER_ENDED:
    if (isT(anc(n, C_EXIT))) return go(FINISHED, O_INTERRUPTED, F_PARENT_EXITED);
    if (isF(anc(n, C_INV))) return go(FINISHED, O_FAILURE, F_PARENT_FAILED);
    if (isT(anc(n, C_END))) return go(FINISHED);
    if (r.cond[C_REPEAT] >= 0) {
      V v = eval(r.cond[C_REPEAT]);
      if (v == UNK) return false;
      if (v) return go(WAITING);
    }
    return go(FINISHED);
  case FINISHED:
    if (ps == WAITING) return go(INACTIVE);
    return false;
  }
  return false;
}
int Ref::destSlot(int e) const {
  CEx const &c = E[e];
  if (c.op == VAR) return vars[c.n].base;
  if (c.op == ELT) { V i = eval(c.k[0]); if (i == UNK || i < 0 || i >= vars[c.n].size) throw OutOfModel("bad element index"); return vars[c.n].base + i; }
  throw runtime_error("bad assignment destination");
}
bool Ref::tryAcquire(int n) {
  for (int m : N[n].mutexes) if (s.mholder[m] >= 0) {
    for (int p = N[n].parent; p >= 0; p = N[p].parent) if (s.mholder[m] == p) throw OutOfModel("mutex held by ancestor");
    return false;
  }
  int v = -1;
  if (N[n].type == N_ASGN) { v = E[N[n].dest].n; if (s.vholder[v] >= 0) return false; }
  for (int m : N[n].mutexes) s.mholder[m] = n;
  if (v >= 0) s.vholder[v] = n;
  return true;
}
void Ref::apply(Tr const &t, int tm) {
  Dyn &d = s.d[t.n]; RNode const &r = N[t.n];
  int from = t.from, to = t.to;
  bool wasUp = from == EXECUTING || from == FINISHING || from == FAILING;
  if (wasUp && (to == ITER_ENDED || to == FINISHED)) {
    for (int &h : s.mholder) if (h == t.n) h = -1;
    for (int &h : s.vholder) if (h == t.n) h = -1;
    for (int v : r.vars) for (int i = 0; i < (vars[v].size ? vars[v].size : 1); ++i) s.slot[vars[v].base + i] = UNK;
    if (r.type == N_CMD) {
      d.live = 0;
      for (auto &h : d.held) s.alloc[h.first] -= h.second;
      d.held.clear();
    }
    if (r.type == N_UPD) d.live = 0;
    d.fixed.clear(); d.saved = UNK; d.savedSlot = -1;
  }
  if (to == INACTIVE || (from == ITER_ENDED && to == WAITING)) { d.out = O_NONE; d.fail = F_NONE; }
  d.st = to;
  if (usesTime) {
    if (to == INACTIVE) for (int i = 0; i < ST_N; ++i) d.tpS[i] = d.tpE[i] = UNK;
    d.tpE[from] = tm; d.tpS[to] = tm;
  }
  if (t.out != O_NONE) { d.out = t.out; if (t.fail != F_NONE) d.fail = t.fail; }
  if (to == EXECUTING) {
    d.pend = 0;
    for (int v : r.vars) {
      RVar const &rv = vars[v];
      if (rv.size) for (int i = 0; i < rv.size; ++i) s.slot[rv.base + i] = i < (int)rv.ainit.size() ? rv.ainit[i] : UNK;
      else s.slot[rv.base] = rv.init >= 0 ? eval(rv.init) : UNK;
    }
    d.ack = d.abt = 0;
    switch (r.type) {
    case N_CMD: d.hd = H_NONE; d.live = 1; for (int a : r.args) d.fixed.push_back(eval(a)); toCmd.push_back(t.n); break;
    case N_ASGN: d.savedSlot = destSlot(r.dest); d.saved = s.slot[d.savedSlot]; d.fixed.push_back(eval(r.rhs)); toExec.push_back(t.n); break;
    case N_UPD: d.live = 1; for (auto &p : r.pairs) d.fixed.push_back(eval(p.second)); toUpd.push_back(t.n); break;
    default: break;
    }
  }
  if (to == FAILING) {
    if (r.type == N_CMD) toAbort.push_back(t.n);
    if (r.type == N_ASGN) toRetract.push_back(t.n);
  }
}
string Ref::valStr(Ty t, V v) const {
  if (v == UNK) return "UNKNOWN";
  switch (t) {
  case TB: return v ? "true" : "false";
  case TI: return to_string(v);
  case TR: return to_string(v);
  case TS: return "s" + to_string(v);
  }
  return "?";
}
bool Ref::macro(int tm, Macro &m, vector<vector<int>> const *hint, int cap) {
  m.micro.clear(); m.fx.clear();
  toExec.clear(); toRetract.clear(); toCmd.clear(); toAbort.clear(); toUpd.clear();
  for (int micro = 0;; ++micro) {
    if (micro >= cap) return false;
    vector<Tr> tr; vector<int> pend;
    ++s.stamp;
    for (int n = 0; n < (int)N.size(); ++n) {
      if (s.planState[N[n].plan] != 1) continue;
      if (s.d[n].st == FINISHED && N[n].parent < 0) continue;
      Tr t;
      bool mv = dest(n, t);
      if (mv && t.to == EXECUTING && (N[n].type == N_ASGN || !N[n].mutexes.empty())) {
        if (!s.d[n].pend) s.d[n].pend = s.stamp;
        pend.push_back(n);
      } else {
        s.d[n].pend = 0;
        if (mv) tr.push_back(t);
      }
    }
    auto hinted = [&](int n) { if (!hint || micro >= (int)hint->size()) return 1; for (int h : (*hint)[micro]) if (h == n) return 0; return 1; };
    stable_sort(pend.begin(), pend.end(), [&](int a, int b) {
      if (N[a].prio != N[b].prio) return N[a].prio < N[b].prio;
      if (s.d[a].pend != s.d[b].pend) return s.d[a].pend < s.d[b].pend;
      return hinted(a) < hinted(b);
    });
    for (int n : pend) if (tryAcquire(n)) tr.push_back(Tr{n, WAITING, EXECUTING, O_NONE, F_NONE});
    if (tr.empty()) break;
    sort(tr.begin(), tr.end());
    vector<string> obs;
    for (auto &t : tr) apply(t, tm);
    for (auto &t : tr) {
      Dyn &d = s.d[t.n];
      obs.push_back(N[t.n].path + ":" + stName[t.from] + ">" + stName[t.to] + "/" + ocName[d.out] + "/" + flName[d.fail]);
    }
    sort(obs.begin(), obs.end());
    m.micro.push_back(obs);
    if (!toExec.empty() || !toRetract.empty() || !toCmd.empty() || !toAbort.empty()) break;
  }
  auto dname = [&](int n) { CEx const &c = E[N[n].dest]; string b = vars[c.n].name;
    if (c.op == ELT) b += "[" + to_string(s.d[n].savedSlot - vars[c.n].base) + "]"; return b; };
  for (int n : toExec) {
    Dyn &d = s.d[n];
    s.slot[d.savedSlot] = d.fixed[0]; d.ack = 1;
    m.fx.push_back("ASSIGN " + dname(n) + "=" + valStr(E[N[n].dest].ty, d.fixed[0]));
  }
  for (int n : toRetract) {
    Dyn &d = s.d[n];
    s.slot[d.savedSlot] = d.saved; d.abt = 1;
    m.fx.push_back("ASSIGN " + dname(n) + "=" + valStr(E[N[n].dest].ty, d.saved));
  }
  // command arbitration
  vector<int> acc, rej, cont;
  for (int n : toCmd) (N[n].res.empty() ? acc : cont).push_back(n);
  stable_sort(cont.begin(), cont.end(), [&](int a, int b) { return eval(N[a].res[0][1]) < eval(N[b].res[0][1]); });
  map<string, pair<double,double>> est;
  for (int n : cont) {
    map<string, pair<double,bool>> need;
    for (auto &r : N[n].res) {
      double bound = r[2] >= 0 ? eval(r[2]) : 1.0; bool rel = r[3] >= 0 ? eval(r[3]) : true;
      string nm = valStr(TS, eval(r[0]));
      vector<pair<double,string>> work{{bound, nm}};
      for (size_t i = 0; i < work.size(); ++i) {
        auto w = work[i];
        if (!need.count(w.second) || i == 0) need[w.second] = {w.first, rel};
        for (auto &h : sys->hier) if (h.name == w.second) for (auto &k : h.kids) work.push_back(k);
      }
    }
    auto save = est; bool bad = false;
    for (auto &q : need) {
      double mx = 1.0; for (auto &h : sys->hier) if (h.name == q.first) mx = h.max;
      if (!est.count(q.first)) est[q.first] = {s.alloc[q.first], s.alloc[q.first]};
      auto &e = est[q.first];
      (q.second.first < 0 ? e.first : e.second) += q.second.first;
      if (e.first < 0 || e.first > mx || e.second < 0 || e.second > mx) { bad = true; break; }
    }
    if (bad) { est = save; rej.push_back(n); }
    else { acc.push_back(n); for (auto &q : need) { s.alloc[q.first] += q.second.first; if (q.second.second) s.d[n].held.push_back({q.first, q.second.first}); } }
  }
  auto cmdStr = [&](int n) {
    string o = valStr(TS, eval(N[n].cmdName)) + "(";
    for (size_t i = 0; i < N[n].args.size(); ++i) { if (i) o += ","; o += valStr(E[N[n].args[i]].ty, s.d[n].fixed[i]); }
    return o + ")"; };
  for (int n : acc) m.fx.push_back("CMD " + cmdStr(n));
  for (int n : rej) { m.fx.push_back("DENY " + cmdStr(n)); s.denied.push_back(n); }
  for (int n : toAbort) m.fx.push_back("ABORT " + valStr(TS, eval(N[n].cmdName)));
  for (int n : toUpd) {
    string o = "UPDATE " + N[n].id; vector<string> ps;
    for (size_t i = 0; i < N[n].pairs.size(); ++i) ps.push_back(N[n].pairs[i].first + "=" + valStr(E[N[n].pairs[i].second].ty, s.d[n].fixed[i]));
    sort(ps.begin(), ps.end());
    for (auto &p : ps) o += " " + p;
    m.fx.push_back(o);
  }
  sort(m.fx.begin(), m.fx.end());
  return true;
}
void Ref::cmdHandle(int n, int h) { if (s.d[n].live) s.d[n].hd = h; }
void Ref::cmdReturn(int n, V v) { if (s.d[n].live && N[n].dest >= 0) s.slot[destSlot(N[n].dest)] = v; }
void Ref::cmdAbortAck(int n, bool v) { if (s.d[n].live) s.d[n].abt = v; }
void Ref::updAck(int n, bool v) { if (s.d[n].live) s.d[n].ack = v; }
void Ref::removeFinished() {
  for (size_t p = 0; p < roots.size(); ++p)
    if (s.planState[p] == 1 && s.d[roots[p]].st == FINISHED) {
      s.planState[p] = 2;
      for (int n = 0; n < (int)N.size(); ++n) if (N[n].plan == (int)p) { s.d[n].live = 0; }
    }
}
string Ref::key() const {
  string k; auto put = [&](int v) { k.append((char const *)&v, sizeof v); };
  // pending order matters, absolute stamps do not
  vector<int> st; for (auto &d : s.d) if (d.pend) st.push_back(d.pend);
  sort(st.begin(), st.end()); st.erase(unique(st.begin(), st.end()), st.end());
  for (auto &d : s.d) {
    k += (char)d.st; k += (char)d.out; k += (char)d.fail; k += (char)d.ack; k += (char)d.abt; k += (char)d.hd; k += (char)d.live;
    put(d.saved); put(d.savedSlot); k += (char)d.fixed.size(); for (V v : d.fixed) put(v);
    k += (char)(d.pend ? 1 + (lower_bound(st.begin(), st.end(), d.pend) - st.begin()) : 0);
    if (usesTime) for (int i = 0; i < ST_N; ++i) { put(d.tpS[i]); put(d.tpE[i]); }
  }
  for (V v : s.slot) put(v);
  for (V v : s.lkv) put(v);
  for (V v : s.mholder) put(v);
  for (V v : s.vholder) put(v);
  for (uint8_t p : s.planState) k += (char)p;
  for (auto &a : s.alloc) if (a.second != 0) { k += a.first; k.append((char const *)&a.second, sizeof(double)); }
  for (int n : s.denied) put(n);
  return k;
}
string Ref::dump() const {
  ostringstream o;
  for (size_t n = 0; n < N.size(); ++n) {
    auto &d = s.d[n];
    if (s.planState[N[n].plan] != 1) continue;
    o << N[n].path << " " << stName[d.st] << "/" << ocName[d.out] << "/" << flName[d.fail];
    if (N[n].type == N_CMD) o << " handle " << hdName[d.hd];
    for (int v : N[n].vars) { o << " " << vars[v].name << "="; for (int i = 0; i < max(1, vars[v].size); ++i) o << valStr(vars[v].ty, s.slot[vars[v].base + i]) << (vars[v].size ? "," : ""); }
    o << "\n";
  }
  return o.str();
}
} // namespace M
