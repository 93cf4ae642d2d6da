#include "fam.hh"
// one extra condition on a node, driven by lookup l (and l2); bad: an expression that becomes false by the node's own action
static const int NOPT = 11;
static void opt(System &S, NP n, int k, string l, EP own) {
  switch (k) {
  case 0: break;
  case 1: n->cond[C_EXIT] = L(S, l); break;
  case 2: n->cond[C_INV] = NOT_(L(S, l)); break;
  case 3: n->cond[C_END] = L(S, l); break;
  case 4: n->cond[C_END] = L(S, l); n->cond[C_EXIT] = L(S, l + "2"); break;
  case 5: n->cond[C_INV] = own; break;
  case 6: n->cond[C_REPEAT] = L(S, l); n->cond[C_END] = L(S, l + "2"); break;
  case 7: n->cond[C_EXIT] = NOT_(own); n->cond[C_REPEAT] = B(0); break;
  case 8: n->cond[C_POST] = L(S, l); break;
  case 9: n->cond[C_PRE] = L(S, l); break;
  case 10: n->cond[C_SKIP] = L(S, l); break;
  }
}
static void startOpt(System &S, NP n, int k, string own) { if (k == 1) n->cond[C_START] = L(S, "go"); else if (k == 2) n->cond[C_START] = L(S, own); }

// ===================================================================== F3 assignments
namespace F3 {
static EP rhsOf(System &S, Ty t, int k, EP x, int who) {
  if (k == 1) { string n = "v" + to_string(t); L(S, n, {t == TB ? 1 : 5, U}, U, t); return lk(n, t, false); }
  if (t == TI || t == TR) return k == 2 ? bin(ADD, x, mk(CONST, t, 1, 0, "")) : mk(CONST, t, 7 + who, 0, "");
  if (t == TB) return k == 2 ? NOT_(x) : B(who);
  return k == 2 ? x : mk(CONST, TS, 7 + who, 0, "");
}
// two (three) competitors for the same variable or array, under an interruptible parent
static size_t n() { return 4 * 2 * (3 * 2 * NOPT * 3) * (3 * 2 * 3 * 2) * (deep() ? 4 * 2 * 2 : 1); }
static Scenario make(size_t i) {
  Mix m(i); Ty ty = (Ty)m(4); bool known = m(2); Scenario s; System &S = s.sys; s.depth = 3;
  int at = m(3), as = m(2), ao = m(NOPT), ar = m(3), bt = m(3), bp = m(2), bo = m(3), bs = m(2), ex = m(4); if (m(2)) bp *= 2; if (m(2)) bo += 3;
  S.label = string("assign ty") + to_string(ty) + (known ? " known" : " unknown") + " A" + to_string(at) + to_string(as) + "." + to_string(ao) + to_string(ar) + " B" + to_string(bt) + to_string(bp) + "." + to_string(bo) + to_string(bs) + " x" + to_string(ex);
  V c0 = ty == TB ? 0 : 3; EP cst = mk(CONST, ty, c0, 0, "");
  auto tgt = [&](int k) { return k == 0 ? var("x", ty) : elt("a", ty, I(k - 1)); };
  NP a = node(N_ASGN, "A"), b = node(N_ASGN, "B");
  a->dest = tgt(at); a->rhs = rhsOf(S, ty, ar, tgt(at), 1); startOpt(S, a, as, "sa");
  opt(S, a, ao, "e", NOT_(eq(tgt(at), mk(CONST, ty, ty == TB ? 1 : 8, 0, ""))));
  b->dest = tgt(bt); b->rhs = rhsOf(S, ty, ex == 3 ? 2 : 0, tgt(bt), 0); startOpt(S, b, bs * 2, "sb");
  if (bs == 0) startOpt(S, b, as ? 1 : 0, "");
  if (bp) { b->hasPrio = true; b->prio = bp == 1 ? 1 : 100001; }
  static const int bos[6] = {0, 1, 5, 3, 6, 9}; opt(S, b, bos[bo], "e", NOT_(eq(tgt(bt), mk(CONST, ty, ty == TB ? 0 : 7, 0, ""))));
  NP o = node(N_EMPTY, "O"); o->cond[C_END] = eq(tgt(at), mk(CONST, ty, ty == TB ? 1 : 8, 0, ""));
  // sees the value arrive and go away again: nothing but the change of the variable can wake it
  NP o2 = node(N_EMPTY, "O2"); EP nw = eq(tgt(at), mk(CONST, ty, ty == TB ? 1 : 8, 0, ""));
  o2->cond[C_START] = nw; o2->cond[C_END] = OR_(NOT_(isk(tgt(at))), NOT_(nw));
  vector<NP> kids{a, b, o, o2};
  if (ex == 1) { NP c = node(N_ASGN, "C"); c->dest = tgt(0); c->rhs = cst; c->cond[C_START] = L(S, "sb"); kids.push_back(c); }
  NP p = list("P", kids); NP r = list("R", {p});
  if (ex == 2) p->cond[C_INV] = NOT_(eq(tgt(at), mk(CONST, ty, ty == TB ? 1 : 8, 0, ""))); else p->cond[C_EXIT] = L(S, "px");
  VarDecl x{"x", ty, known ? cst : EP()}; VarDecl arr{"a", ty, EP(), 2, known ? vector<V>{c0, c0} : vector<V>{}};
  bool arrUsed = at > 0 || bt > 0;
  r->vars.push_back(x); if (arrUsed) r->vars.push_back(arr);
  S.plans.push_back(r); return s;
}
// the index of an assigned element changes, or is itself assigned, while the assignment is under way
static size_t nI() { return 3 * 3 * 7 * 4 * 3 * 2; }
static Scenario idx(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 3; int ik = m(3), br = m(3), ao = m(7), bo = m(4), start = m(3), init = m(2);
  S.label = "index " + to_string(i);
  NP a = node(N_ASGN, "A"), b = node(N_ASGN, "B"), c = node(N_ASGN, "C");
  EP ix = ik == 0 ? var("i", TI) : ik == 1 ? bin(SUB, I(1), var("i", TI)) : L(S, "li", {0, 1}, 0, TI);
  a->dest = elt("a", TI, ix); a->rhs = I(9);
  static const int aos[7] = {0, 1, 2, 3, 4, 5, 6}; opt(S, a, aos[ao], "e", NOT_(eq(elt("a", TI, I(0)), I(9))));
  b->dest = var("i", TI); b->rhs = br == 0 ? I(1) : br == 1 ? I(0) : bin(SUB, I(1), var("i", TI));
  static const int bos[4] = {0, 1, 3, 6}; opt(S, b, bos[bo], "f", B(1)); startOpt(S, b, start, "sb"); if (start == 1) startOpt(S, a, 1, "");
  c->dest = elt("a", TI, I(1)); c->rhs = bin(ADD, elt("a", TI, I(0)), I(1)); c->cond[C_START] = nst("A", FINISHED);
  NP r = list("R", {a, b, c}); r->vars.push_back({"i", TI, I(init)}); r->vars.push_back({"a", TI, EP(), 2, {4, 5}});
  NP o = node(N_EMPTY, "O"); o->cond[C_END] = eq(elt("a", TI, var("i", TI)), I(9)); r->kids.push_back(o);
  S.plans.push_back(r); return s;
}
// chains: values flow between variables through simultaneous assignments (swap), commands and conditions
static size_t nC() { return 4 * 4 * 4 * 3 * 3; }
static Scenario chain(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 3; S.label = "chain " + to_string(i);
  NP n[3]; static const char *vs[] = {"x", "y", "z"};
  for (int k = 0; k < 3; ++k) {
    int q = m(4); n[k] = node(N_ASGN, string(1, 'A' + k)); n[k]->dest = var(vs[k], TI); n[k]->rhs = q == 3 ? bin(ADD, var("x", TI), var("y", TI)) : var(vs[q], TI);
  }
  int st = m(3), en = m(3);
  for (int k = 0; k < 3; ++k) if (st) n[k]->cond[C_START] = st == 1 ? L(S, "go") : k ? nst(string(1, 'A' + k - 1), FINISHED) : L(S, "go");
  if (en == 1) n[1]->cond[C_EXIT] = eq(var("x", TI), var("y", TI)); if (en == 2) n[2]->cond[C_INV] = bin(LT, var("z", TI), I(4));
  NP c = node(N_CMD, "D"); c->cmdName = M::S(1); c->args = {var("x", TI), var("y", TI), var("z", TI)}; c->cond[C_START] = bin(LT, var("y", TI), var("x", TI));
  NP r = list("R", {n[0], n[1], n[2], c}); r->vars = {{"x", TI, I(1)}, {"y", TI, I(2)}, {"z", TI, I(3)}};
  L(S, "go"); S.plans.push_back(r); return s;
}
}
// ===================================================================== F4 mutexes
namespace F4 {
static NP body(System &S, int t, string id) {
  switch (t) {
  case 0: { NP n = node(N_EMPTY, id); return n; }
  case 1: { NP n = node(N_CMD, id); n->cmdName = M::S(id[0]); return n; }
  case 2: { NP n = node(N_ASGN, id); n->dest = var("x", TI); n->rhs = I(id[0]); return n; }
  case 3: { NP n = list(id, {}); NP k = node(N_EMPTY, id + "k"); k->cond[C_END] = L(S, "k" + id); n->kids.push_back(k); return n; }
  case 4: { NP n = node(N_UPD, id); n->pairs = {{"k", I(1)}}; return n; }
  }
  abort();
}
static const vector<string> sets[4] = {{"m1"}, {"m2"}, {"m1", "m2"}, {"m2", "m1"}};
// three nodes, every pair of mutex sets, priorities, kinds and ways to leave
static size_t n() { return 5 * 4 * 9 * 4 * 2 * 4 * 2 * (deep() ? 3 * 5 * 2 * 2 : 2); }
static Scenario make(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 3; 
  int at = m(5), au = m(4), ao = m(9), bu = m(4), bp = m(2), cu = m(4), cp = m(2), bt = m(3), bo = m(5); if (m(2)) bp *= 2; if (m(2)) cp *= 2;
  S.label = "mutex A" + to_string(at) + to_string(au) + "." + to_string(ao) + " B" + to_string(bt) + to_string(bu) + to_string(bp) + "." + to_string(bo) + " C" + to_string(cu) + to_string(cp);
  // only assignments take a priority
  NP a = body(S, at, "A"), b = body(S, bp ? 2 : bt, "B"), c = body(S, cp ? 2 : 0, "C"); if (bp) b->dest = var("y", TI); if (cp) c->dest = var("z", TI);
  a->using_ = sets[au]; b->using_ = sets[bu]; c->using_ = sets[cu];
  static const int aos[9] = {3, 1, 2, 4, 6, 8, 9, 10, 0}; opt(S, a, aos[ao], "e", B(1)); if (!a->cond[C_END] && at == 0) a->cond[C_END] = L(S, "ea");
  if (bp) { b->hasPrio = true; b->prio = bp; } if (cp) { c->hasPrio = true; c->prio = cp; }
  b->cond[C_START] = L(S, "sb"); b->cond[C_END] = L(S, "eb"); c->cond[C_START] = L(S, "sb"); 
  static const int bos[5] = {0, 1, 9, 10, 2}; if (bo) opt(S, b, bos[bo], "f", B(1));
  NP p = list("P", {a, b, c}); p->mutexes = {"m1"}; NP r = list("R", {p}); r->mutexes = {"m2"}; r->vars = {{"x", TI, I(0)}, {"y", TI, I(0)}, {"z", TI, I(0)}};
  if (bo == 0) p->cond[C_EXIT] = L(S, "px");
  S.plans.push_back(r); return s;
}
// nested holders: parent holds a mutex while its children compete for another; shadowing; repeat loops over a mutex
static size_t nN() { return 4 * 4 * 4 * 5 * 5 * 2; }
static Scenario nest(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 4; S.label = "mutex nest " + to_string(i);
  int pu = m(4), ku = m(4), qu = m(4), po = m(5), ko = m(5), sh = m(2);
  NP k = node(N_EMPTY, "K"), k2 = node(N_EMPTY, "K2"), q = node(N_EMPTY, "Q"); NP p = list("P", {k, k2});
  static const vector<string> us[4] = {{}, {"m1"}, {"m2"}, {"m1", "m2"}};
  p->using_ = us[pu]; k->using_ = us[ku]; q->using_ = us[qu]; k2->using_ = {"m3"}; k->using_.push_back("m3");
  static const int os[5] = {3, 1, 2, 4, 6}; opt(S, p, os[po], "e", B(1)); opt(S, k, os[ko], "f", B(1));
  q->cond[C_END] = L(S, "eq"); q->cond[C_REPEAT] = L(S, "rq");
  NP r = list("R", {p, q}); r->mutexes = {"m1", "m2"}; p->mutexes = {"m3"}; if (sh) p->mutexes.push_back("m1");
  S.plans.push_back(r); return s;
}
// five waiters in one queue: order of admission
static size_t nQ() { return 81 * 4 * 4; }
static Scenario queue(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 5; S.label = "mutex queue " + to_string(i); NP r = list("R", {}); r->mutexes = {"m1", "m2"};
  int pr = m(81), us = m(4), st = m(4);
  for (int k = 0; k < 4; ++k) {
    int p = pr % 3; pr /= 3; NP n = node(p ? N_ASGN : N_EMPTY, string(1, 'A' + k));
    if (p) { n->hasPrio = true; n->prio = p; string v = string("v") + char('a' + k); n->dest = var(v, TI); n->rhs = I(1); r->vars.push_back({v, TI, I(0)}); }
    n->using_ = (us >> (k & 1) & 1) ? vector<string>{"m1", "m2"} : vector<string>{k & 1 ? "m2" : "m1"};
    if (st >> (k >> 1) & 1) n->cond[C_START] = L(S, k & 1 ? "s1" : "s2"); n->cond[C_END] = L(S, "e" + to_string(k & 1)); r->kids.push_back(n);
  }
  S.plans.push_back(r); return s;
}
// global mutexes shared by two plans
static size_t nG() { return 3 * 3 * 5 * 5 * 2 * 2; }
static Scenario glob(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 4; S.label = "mutex global " + to_string(i); S.globalMutexes = {"g1", "g2"};
  static const vector<string> us[3] = {{"g1"}, {"g2"}, {"g1", "g2"}}; static const int os[5] = {3, 1, 2, 4, 0};
  int a = m(3), b = m(3), ao = m(5), bo = m(5); bool later = m(2), lst = m(2);
  for (int p = 0; p < 2; ++p) {
    NP n = node(p ? N_CMD : N_EMPTY, p ? "B" : "A"); if (p) n->cmdName = M::S(1); n->using_ = us[p ? b : a]; opt(S, n, os[p ? bo : ao], p ? "f" : "e", B(1));
    if (!n->cond[C_END] && !p) n->cond[C_END] = L(S, "ea");
    NP r = lst ? list(p ? "R2" : "R1", {n}) : n; S.plans.push_back(r);
  }
  S.addLater = {false, later}; return s;
}
}
// ===================================================================== F5 command resources
namespace F5 {
static vector<vector<ResHier>> hiers() { string a = "s1001", b = "s1002", c = "s1003"; return {
  {}, {{a, 2, {}}, {b, 1, {}}}, {{a, 3, {{1, b}}}, {b, 2, {{0.5, c}}}, {c, 1, {}}}, {{a, 1, {{1, b}, {-1, c}}}, {b, 2, {}}, {c, 4, {}}} }; }
// the needs of one command; priorities p (lower first)
static vector<ResDecl> needs(System &S, int k, int p) {
  EP pr = I(p), two = I(2), neg = I(-1), no = B(0), yes = B(1); auto N = [](char const *x) { return M::S(x[1] == 'a' ? 1001 : x[1] == 'b' ? 1002 : 1003); };
  switch (k) {
  case 0: return {}; case 1: return {{N("ra"), pr, EP(), EP()}}; case 2: return {{N("rb"), pr, EP(), yes}}; case 3: return {{N("ra"), pr, two, EP()}};
  case 4: return {{N("ra"), pr, EP(), EP()}, {N("rb"), pr, two, EP()}}; case 5: return {{N("rc"), pr, EP(), no}}; case 6: return {{N("rc"), pr, neg, no}};
  case 9: return {{N("rb"), pr, L(S, "bd", {1, 2}, 1, TI), EP()}};
  case 7: return {{N("rb"), pr, EP(), EP()}, {N("ra"), pr, EP(), EP()}}; case 8: return {{N("ra"), pr, EP(), no}, {N("rc"), pr, EP(), yes}};
  }
  abort();
}
static const int NK = 10;
static const int prios[6][3] = {{1, 2, 3}, {3, 2, 1}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}}; static const int third[NK] = {4, 5, 1, 2, 3, 6, 7, 8, 9, 0};
static const int sts[3] = {2, 0, 1}; static const int oo[6] = {1, 3, 0, 2, 4, 4};
static const size_t NQ = 4 * NK * NK * 2 * 2 * 2;
static size_t n() { return deep() ? NQ * 2 * 3 * 2 * 3 * 5 : NQ; }
static Scenario make(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; int h = m(4), k[3]; k[0] = m(NK); k[1] = m(NK); int p = m(2), st = m(2), o = m(2), k2 = m(2); p += 2 * m(3); { int x = m(2); st = st ? sts[1 + x] : sts[0]; } o = oo[o + 2 * m(3)]; k[2] = third[k2 + 2 * m(5)];
  S.label = "resources h" + to_string(h) + " " + to_string(k[0]) + to_string(k[1]) + to_string(k[2]) + " p" + to_string(p) + " s" + to_string(st) + " o" + to_string(o);
  S.hier = hiers()[h]; s.depth = deep() ? 4 : 3; s.handles = {H_SUCCESS, H_DENIED}; s.lateHandles = false; NP r = list("R", {});
  for (int c = 0; c < 3; ++c) {
    NP n = node(N_CMD, string(1, 'A' + c)); n->cmdName = M::S(c + 1); n->res = needs(S, k[c], prios[p][c]); r->kids.push_back(n);
    if (st == 1 && c == 2) n->cond[C_START] = L(S, "go"); if (st == 2 && c) n->cond[C_START] = L(S, c == 1 ? "go" : "g2");
    if (c == 0) { static const int os[5] = {0, 1, 2, 6, 7}; opt(S, n, os[o], "e", NOT_(nhd("A", H_SUCCESS))); if (o == 4) { n->cond[C_EXIT] = EP(); n->cond[C_REPEAT] = L(S, "rp"); } }
  }
  if (o != 3) r->cond[C_EXIT] = L(S, "px"); r->kids[1]->cond[C_REPEAT] = NOT_(nout("B", O_SUCCESS)); if (o == 2) r->kids[1]->cond[C_REPEAT] = EP();
  r->kids[1]->cond[C_START] = r->kids[1]->cond[C_START] ? r->kids[1]->cond[C_START] : o == 3 ? L(S, "go") : EP();
  S.plans.push_back(r); return s;
}
}
// ===================================================================== F6 commands
namespace F6 {
static size_t n() { return 4 * NOPT * 7 * 3 * 2; }
static Scenario make(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "command " + to_string(i); int dst = m(4), o = m(NOPT), en = m(7), par = m(3); bool mon = m(2);
  s.depth = deep() ? 4 : 3; s.handles = {H_SENT, H_ACCEPTED, H_RCVD, H_FAILED, H_DENIED, H_SUCCESS, H_IFERR}; s.abortFalse = true; s.lateHandles = s.lateAcks = deep() || par == 0; s.rets = {1, U};
  NP c = node(N_CMD, "C"); c->cmdName = M::S(1); c->args = {I(4), dst == 3 ? lk("li", TI) : var("i", TI)}; if (dst == 3) L(S, "li", {1, 2, U}, U, TI);
  NP r = list("R", {c});
  if (dst == 1) c->dest = var("i", TI); if (dst == 2) { c->dest = elt("a", TI, I(1)); r->vars.push_back({"a", TI, EP(), 2, {6}}); }
  opt(S, c, o, "e", NOT_(nhd("C", H_RCVD)));
  if (!c->cond[C_END]) switch (en) {
    case 1: c->cond[C_END] = nhd("C", H_SUCCESS); break; case 2: c->cond[C_END] = B(0); break; case 3: c->cond[C_END] = eq(var("i", TI), I(1)); break;
    case 4: c->cond[C_END] = OR_(nhd("C", H_ACCEPTED), nhd("C", H_RCVD)); break; case 5: c->cond[C_END] = L(S, "end"); break; case 6: c->cond[C_END] = iskn("C", 2); break; default: break;
    }
  if (c->cond[C_END] == nullptr && en == 6) c->cond[C_INV] = NOT_(nhd("C", H_FAILED));
  if (par == 1) r->cond[C_EXIT] = L(S, "px"); if (par == 2) r->cond[C_INV] = NOT_(nhd("C", H_ACCEPTED));
  r->vars.push_back({"i", TI, I(3)});
  if (mon) { NP w = node(N_EMPTY, "W"); w->cond[C_START] = nhd("C", H_SENT); w->cond[C_END] = NOT_(nhd("C", H_SENT)); r->kids.push_back(w);
    NP d = node(N_CMD, "D"); d->cmdName = M::S(2); d->args = {var("i", TI)}; d->cond[C_START] = nst("C", FINISHED); r->kids.push_back(d); }
  S.plans.push_back(r); return s;
}
// handle and return value in the same step, aborts crossing with completion, repeats with late answers
static size_t nX() { return 6 * 6 * 4; }
static Scenario cross(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "command crossing " + to_string(i); int o = m(6), en = m(6), rp = m(4);
  NP c = node(N_CMD, "C"); c->cmdName = M::S(1); c->dest = var("i", TI); c->args = {var("i", TI)};
  static const int os[6] = {0, 1, 2, 5, 7, 8}; opt(S, c, os[o], "e", NOT_(eq(var("i", TI), I(1))));
  switch (en) { case 1: c->cond[C_END] = nhd("C", H_SUCCESS); break; case 2: c->cond[C_END] = isk(var("i", TI)); break; case 3: c->cond[C_END] = eq(var("i", TI), I(1)); break; case 4: c->cond[C_END] = AND_(nhd("C", H_SUCCESS), eq(var("i", TI), I(1))); break; case 5: c->cond[C_END] = B(0); break; default: break; }
  if (rp == 1) c->cond[C_REPEAT] = L(S, "rp"); if (rp == 2) c->cond[C_REPEAT] = NOT_(nout("C", O_SUCCESS)); if (rp == 3) { c->cond[C_REPEAT] = L(S, "rp"); c->cond[C_START] = L(S, "go"); }
  NP r = list("R", {c}); r->vars.push_back({"i", TI, EP()}); r->cond[C_EXIT] = L(S, "px"); S.plans.push_back(r);
  s.depth = deep() ? 5 : 4; s.cap = 3000000;
  s.menu = [](Ref &r, int, vector<Batch> &out) {
    for (size_t l = 0; l < r.s.lkv.size(); ++l) out.push_back({{E_LK, (int)l, !r.s.lkv[l]}});
    int n = 1; auto &d = r.s.d[n];
    for (int h : {H_SUCCESS, H_FAILED, H_ACCEPTED}) { out.push_back({{E_HANDLE, n, h}}); out.push_back({{E_HANDLE, n, h}, {E_RET, n, 1}}); out.push_back({{E_RET, n, 1}, {E_HANDLE, n, h}}); }
    out.push_back({{E_RET, n, U}}); out.push_back({{E_RET, n, 2}}); out.push_back({{E_ABT, n, 1}}); out.push_back({{E_HANDLE, n, H_SUCCESS}, {E_ABT, n, 1}}); out.push_back({{E_ABT, n, 1}, {E_HANDLE, n, H_FAILED}}); out.push_back({{E_ABT, n, 0}});
    out.push_back({{E_HANDLE, n, H_SENT}, {E_HANDLE, n, H_SUCCESS}}); (void)d;
    for (size_t l = 0; l < r.s.lkv.size(); ++l) out.push_back({{E_LK, (int)l, !r.s.lkv[l]}, {E_HANDLE, n, H_SUCCESS}});
  };
  return s;
}
}
// ===================================================================== F7 updates
namespace F7 {
static size_t n() { return NOPT * 4 * 3 * 3; }
static Scenario make(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "update " + to_string(i); int o = m(NOPT), np = m(4), par = m(3), rp = m(3);
  s.depth = deep() ? 5 : 4; s.lateAcks = true;
  NP u = node(N_UPD, "Upd"); 
  L(S, "v", {1, 2, U}, 1, TI);
  if (np) u->pairs.push_back({"a", lk("v", TI, true)}); if (np > 1) u->pairs.push_back({"b", var("x", TI)}); if (np > 2) u->pairs.push_back({"c", AND_(L(S, "e"), eq(var("x", TI), I(3)))});
  opt(S, u, o, "e", NOT_(eq(lk("v", TI, true), I(2))));
  if (rp == 1 && !u->cond[C_REPEAT]) u->cond[C_REPEAT] = L(S, "rp"); if (rp == 2) u->cond[C_START] = L(S, "go");
  NP as = node(N_ASGN, "As"); as->dest = var("x", TI); as->rhs = bin(ADD, var("x", TI), I(1)); as->cond[C_START] = nst("Upd", EXECUTING);
  NP r = list("R", {u, as}); r->vars.push_back({"x", TI, I(3)}); if (par == 1) r->cond[C_EXIT] = L(S, "px"); if (par == 2) r->cond[C_INV] = bin(LT, var("x", TI), I(4));
  S.plans.push_back(r); return s;
}
static size_t n2() { return 5 * 5 * 3; }   // two update nodes under way together
static Scenario two(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "updates " + to_string(i); int oa = m(5), ob = m(5), st = m(3); s.depth = 4; s.lateAcks = true; static const int os[5] = {0, 1, 2, 3, 6};
  NP a = node(N_UPD, "UA"), b = node(N_UPD, "UB"); a->pairs = {{"k", I(1)}}; b->pairs = {{"k", I(2)}}; opt(S, a, os[oa], "e", B(1)); opt(S, b, os[ob], "f", B(1));
  if (st) b->cond[C_START] = st == 1 ? nst("UA", FINISHED) : L(S, "go"); NP r = list("R", {a, b}); S.plans.push_back(r); return s;
}
}
// ===================================================================== F8 library calls
namespace F8 {
// caller x,y ; library parameters: in (p) and inout (q), body kinds
static NP lib(System &S, string id, int body, bool pd, bool qd, int o, int cmd = 1) {
  NP n; EP p = var("p", TI), q = var("q", TI);
  switch (body) {
  case 0: n = node(N_EMPTY, id); n->cond[C_END] = bin(LT, p, q); break;
  case 1: n = node(N_ASGN, id); n->dest = q; n->rhs = bin(ADD, p, I(10)); break;
  case 2: n = node(N_CMD, id); n->cmdName = M::S(cmd); n->args = {p, q}; n->dest = q; break;
  case 3: { NP a = node(N_ASGN, "A"); a->dest = q; a->rhs = bin(ADD, q, p); NP b = node(N_CMD, "B"); b->cmdName = M::S(cmd); b->args = {q, var("loc", TI)}; b->cond[C_START] = nst("A", FINISHED);
    n = list(id, {a, b}); n->vars.push_back({"loc", TI, p}); break; }
  default: { NP a = node(N_ASGN, "A"); a->dest = var("x", TI); a->rhs = bin(ADD, p, I(1)); NP b = node(N_EMPTY, "B"); b->cond[C_END] = bin(LT, q, var("x", TI)); n = list(id, {a, b}); n->vars.push_back({"x", TI, I(50)}); break; } // local x shadows the caller's
  }
  n->params.push_back({"p", TI, false, pd ? I(1) : EP()}); n->params.push_back({"q", TI, true, qd ? I(2) : EP()});
  opt(S, n, o, "le", NOT_(eq(q, I(13)))); return n;
}
static size_t n() { return 5 * 5 * 3 * NOPT * 6; }
static Scenario make(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "library " + to_string(i); int body = m(5), pa = m(5), qa = m(3), o = m(NOPT), co = m(6);
  s.depth = 3; s.rets = {7};
  string id = "Lib" + to_string(body) + "_" + to_string(pa == 0) + to_string(qa == 0) + "_" + to_string(o);
  S.libs[id] = lib(S, id, body, pa == 0, qa == 0, o);
  NP c = node(N_LIB, "Call"); c->lib = id;
  EP pe[5] = {EP(), elt("a", TI, bin(SUB, var("y", TI), I(3))), var("x", TI), bin(ADD, var("x", TI), var("y", TI)), L(S, "li", {0, 5, U}, 0, TI)}; EP qe[3] = {EP(), var("y", TI), var("x", TI)};   // an array element is not accepted as an InOut alias
  if (pa) c->aliases.push_back({"p", pe[pa]}); if (qa) c->aliases.push_back({"q", qe[qa]});
  static const int cos[6] = {0, 1, 2, 3, 6, 9}; opt(S, c, cos[co], "e", B(1));
  NP as = node(N_ASGN, "As"); as->dest = var("x", TI); as->rhs = bin(ADD, var("x", TI), I(1)); as->cond[C_START] = L(S, "go");
  NP r = list("R", {c, as}); r->vars = {{"x", TI, I(3)}, {"y", TI, I(4)}, {"a", TI, EP(), 2, {5, 6}}};
  S.plans.push_back(r); return s;
}
// array parameters: the caller's arrays are read and written through the library's names
static NP alib(System &S, string id, int body, bool pd, bool qd, int o) {
  EP p0 = elt("p", TI, I(0)), p1 = elt("p", TI, I(1)), q0 = elt("q", TI, I(0)), q1 = elt("q", TI, I(1)); NP n;
  switch (body) {
  case 0: n = node(N_EMPTY, id); n->cond[C_END] = bin(LT, q0, p1); break;
  case 1: n = node(N_EMPTY, id); n->cond[C_START] = eq(p1, I(7)); n->cond[C_END] = isk(q1); break;
  case 2: n = node(N_ASGN, id); n->dest = q1; n->rhs = bin(ADD, p0, I(10)); break;
  case 3: n = node(N_CMD, id); n->cmdName = M::S(1); n->args = {p1, q0}; n->dest = q1; break;
  case 4: { NP a = node(N_ASGN, "A"); a->dest = elt("q", TI, p0); a->rhs = bin(ADD, q0, p1); NP b = node(N_EMPTY, "B"); b->cond[C_START] = nst("A", FINISHED); b->cond[C_END] = eq(p1, q1); n = list(id, {a, b}); break; }
  default: { NP a = node(N_CMD, "A"); a->cmdName = M::S(1); a->args = {elt("p", TI, q0), elt("loc", TI, I(1))}; n = list(id, {a}); n->vars.push_back({"loc", TI, EP(), 2, {21, 22}}); a->cond[C_START] = bin(GT, p1, elt("loc", TI, p0)); a->cond[C_EXIT] = eq(q1, I(7)); break; }
  }
  n->params.push_back({"p", TI, false, EP(), 2, pd ? vector<V>{0, 2} : vector<V>{}}); n->params.push_back({"q", TI, true, EP(), 2, qd ? vector<V>{1} : vector<V>{}});
  opt(S, n, o, "le", NOT_(eq(q1, I(10)))); return n;
}
static const int aopts[5] = {0, 2, 4, 6, 9};
static size_t nA() { return 6 * 3 * 3 * 2 * 2 * 2 * 5 * 2; }
static Scenario arrays(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "array parameters " + to_string(i); int body = m(6), pa = m(3), qa = m(3), set = m(2), rep = m(2), nest = m(2), o = aopts[m(5)]; bool init = m(2);
  s.depth = 3; s.rets = {7, U};
  string id = "Alib" + to_string(body) + "_" + to_string(pa == 0) + to_string(qa == 0) + "_" + to_string(o);
  S.libs[id] = alib(S, id, body, pa == 0, qa == 0, o);
  NP c = node(N_LIB, "Call"); c->lib = id;
  if (nest) { string id2 = "Aout" + id; NP in = node(N_LIB, "In"); in->lib = id; if (pa) in->aliases.push_back({"p", aref("u", TI)}); if (qa) in->aliases.push_back({"q", aref("w", TI)});
    NP l = list(id2, {in}); l->params = {{"u", TI, false, EP(), 2, {8}}, {"w", TI, true, EP(), 2, {9, 0}}}; S.libs[id2] = l; c->lib = id2; }
  const char *an[3] = {"", "a", "b"};
  if (pa) c->aliases.push_back({nest ? "u" : "p", aref(an[pa], TI)}); if (qa) c->aliases.push_back({nest ? "w" : "q", aref(an[qa], TI)});
  c->cond[C_EXIT] = L(S, "cx");
  NP as = node(N_ASGN, "As"); as->dest = elt(set ? "b" : "a", TI, I(1)); as->rhs = I(7); as->cond[C_START] = L(S, "go");
  NP as2 = node(N_ASGN, "At"); as2->dest = elt("a", TI, I(0)); as2->rhs = L(S, "v", {0, 1, U}, 0, TI); as2->cond[C_START] = L(S, "go2");
  NP r = list("R", {c, as, as2}); if (rep) { NP k = list("K", {c, as, as2}); k->cond[C_REPEAT] = L(S, "rp"); k->vars = {{"a", TI, EP(), 2, init ? vector<V>{1, 3} : vector<V>{}}, {"b", TI, EP(), 2, {0}}}; r = list("R", {k}); }
  else r->vars = {{"a", TI, EP(), 2, init ? vector<V>{1, 3} : vector<V>{}}, {"b", TI, EP(), 2, {0}}};
  S.plans.push_back(r); return s;
}
// parameters of every type, as expressions, variables and defaults
static size_t nT() { return 4 * 3 * 3 * 5 * 2; }
static Scenario types(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "parameter types " + to_string(i); static const Ty ty[4] = {TB, TI, TR, TS}; int t = m(4), pa = m(3), qa = m(3), use = m(5); bool rep = m(2); Ty T = ty[t]; s.depth = 3;
  auto K = [&](int v) { return mk(CONST, T, T == TB ? v & 1 : v, 0, ""); }; s.rets = {T == TB ? 1 : 7};
  string id = "Tlib" + to_string(i); EP p = var("p", T), q = var("q", T); NP n;
  switch (use) {
  case 0: n = node(N_EMPTY, id); n->cond[C_END] = eq(p, q); break;
  case 1: n = node(N_ASGN, id); n->dest = q; n->rhs = p; n->cond[C_INV] = NOT_(eq(q, K(3))); break;
  case 2: n = node(N_CMD, id); n->cmdName = M::S(1); n->args = {p, q}; n->dest = q; break;
  case 3: { NP a = node(N_ASGN, "A"); a->dest = q; a->rhs = p; NP b = node(N_CMD, "B"); b->cmdName = M::S(1); b->args = {var("loc", T), q}; b->cond[C_START] = nst("A", FINISHED); n = list(id, {a, b}); n->vars.push_back({"loc", T, qa ? q : p}); break; }
  default: n = node(N_UPD, id); n->pairs = {{"k", p}, {"l", q}}; n->cond[C_END] = isk(q); break;
  }
  n->params.push_back({"p", T, false, pa ? EP() : K(1)}); n->params.push_back({"q", T, true, qa ? EP() : K(2)}); S.libs[id] = n;
  NP c = node(N_LIB, "Call"); c->lib = id; if (rep) c->cond[C_REPEAT] = L(S, "rp");
  if (pa) c->aliases.push_back({"p", pa == 1 ? var("x", T) : L(S, "v" + to_string(t), T == TB ? vector<V>{0, 1, U} : vector<V>{3, 2, U}, T == TB ? 0 : 3, T)}); if (qa) c->aliases.push_back({"q", var(qa == 1 ? "x" : "y", T)});
  NP as = node(N_ASGN, "As"); as->dest = var("x", T); as->rhs = K(3); as->cond[C_START] = L(S, "go");
  NP r = list("R", {c, as}); r->vars = {{"x", T, K(2)}, {"y", T, EP()}}; S.plans.push_back(r); return s;
}
// two calls of the same library, and a library calling another
static size_t n2() { return 5 * 5 * 3 * 3 * 4; }
static Scenario two(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "libraries " + to_string(i); int b1 = m(5), b2 = m(5), q1 = m(3), q2 = m(3), k = m(4); s.depth = 3; s.rets = {7};
  bool cmds = b1 == b2 && (b1 == 2 || b1 == 3);   // commands are told apart by name, so their libraries must differ
  string i1 = "LibT" + to_string(b1), i2 = "LibT" + to_string(b2) + (cmds ? "b" : ""), i3 = "LibN" + to_string(b1);
  S.libs[i1] = lib(S, i1, b1, true, true, 0); if (i2 != i1) S.libs[i2] = lib(S, i2, b2, true, true, 0, 2);
  NP inner = node(N_LIB, "In"); inner->lib = i1; inner->aliases = {{"p", bin(ADD, var("p", TI), I(1))}, {"q", var("q", TI)}};
  NP nl = list(i3, {inner}); nl->params.push_back({"p", TI, false, I(1)}); nl->params.push_back({"q", TI, true, I(2)}); S.libs[i3] = nl;
  EP qe[3] = {EP(), var("y", TI), var("x", TI)};
  NP a = node(N_LIB, "A"), b = node(N_LIB, "B"); a->lib = k & 1 ? i3 : i1; b->lib = i2; a->aliases = {{"p", var("x", TI)}}; b->aliases = {{"p", var("y", TI)}};
  if (q1) a->aliases.push_back({"q", qe[q1]}); if (q2) b->aliases.push_back({"q", qe[q2]});
  if (k & 2) b->cond[C_START] = nst("A", FINISHED); a->cond[C_REPEAT] = L(S, "rp");
  NP r = list("R", {a, b}); r->vars = {{"x", TI, I(3)}, {"y", TI, I(4)}}; r->cond[C_EXIT] = L(S, "px"); S.plans.push_back(r); return s;
}
}
// ===================================================================== F9 repeats, resets, time points
namespace F9 {
// an observer compares the time points of a node with each other and with its own
static size_t n() { return 4 * NOPT * 7 * 2 * 7 * 2 * 2; }
static Scenario make(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 3; int ty = m(4), o = m(NOPT), s1 = m(7), e1 = m(2), s2 = m(7), e2 = m(2), rp = m(2);
  S.label = "timepoints t" + to_string(ty) + " o" + to_string(o) + " " + to_string(s1) + to_string(e1) + to_string(s2) + to_string(e2) + to_string(rp);
  NP a; switch (ty) { case 0: a = node(N_EMPTY, "A"); break; case 1: a = node(N_CMD, "A"); a->cmdName = M::S(1); break; case 2: a = node(N_ASGN, "A"); a->dest = var("x", TI); a->rhs = I(1); break;
    default: { NP k = node(N_EMPTY, "K"); k->cond[C_END] = L(S, "k"); a = list("A", {k}); } }
  opt(S, a, o, "e", B(1)); if (!a->cond[C_START]) a->cond[C_START] = L(S, "go"); if (rp && !a->cond[C_REPEAT]) a->cond[C_REPEAT] = L(S, "rp");
  NP b = node(N_EMPTY, "B"); b->cond[C_START] = isk(tp("A", s1, e1)); b->cond[C_END] = bin(LT, tp("A", s1, e1), tp("A", s2, e2)); b->cond[C_REPEAT] = NOT_(nst("A", FINISHED));
  NP c = node(N_CMD, "C"); c->cmdName = M::S(3); c->args = {tp("A", s1, e1), tp("A", s2, e2)}; c->cond[C_START] = OR_(nst("B", FINISHED), nst("A", FINISHED));
  NP p = list("P", {a, b, c}); NP r = list("R", {p}); r->vars.push_back({"x", TI, I(0)}); p->cond[C_REPEAT] = L(S, "rp"); S.plans.push_back(r); return s;
}
// state / outcome / failure variables read by a sibling through repeats and resets of the whole family
static size_t nV() { return 4 * NOPT * 14 * 3 * 2; }
static Scenario vars_(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; s.depth = 4; int ty = m(4), o = m(NOPT), at = m(14), use = m(3); bool deepRep = m(2); S.label = "node variables " + to_string(i);
  NP a; switch (ty) { case 0: a = node(N_EMPTY, "A"); break; case 1: a = node(N_CMD, "A"); a->cmdName = M::S(1); break; case 2: a = node(N_UPD, "A"); a->pairs = {{"k", I(1)}}; break;
    default: { NP k = node(N_EMPTY, "K"); k->cond[C_END] = L(S, "k"); a = list("A", {k}); } }
  opt(S, a, o, "e", B(1));
  EP atom[14] = {nout("A", O_SUCCESS), nout("A", O_FAILURE), nout("A", O_SKIPPED), nout("A", O_INTERRUPTED), iskn("A", 0), NOT_(iskn("A", 0)), nfl("A", F_PRE), nfl("A", F_POST), nfl("A", F_INV), nfl("A", F_EXITED), iskn("A", 1), NOT_(iskn("A", 1)), nst("A", INACTIVE), nst("A", FINISHED)};
  NP b = node(N_CMD, "B"); b->cmdName = M::S(2); b->cond[use == 0 ? C_START : use == 1 ? C_END : C_EXIT] = atom[at]; b->cond[C_REPEAT] = L(S, "rb");
  NP p = list("P", {a, b}); NP r = list("R", {p}); (deepRep ? r : p)->cond[C_REPEAT] = L(S, "rp"); S.plans.push_back(r); return s;
}
}
// ===================================================================== F10 several plans, removal
namespace F10 {
static NP plan(System &S, string id, int k, string l) {
  switch (k) {
  case 0: { NP n = node(N_EMPTY, id); n->cond[C_END] = L(S, l); return n; }
  case 1: { NP c = node(N_CMD, id + "C"); c->cmdName = M::S(id[0]); c->args = {L(S, "v", {1, 2}, 1, TI)}; c->cond[C_END] = B(0); NP n = list(id, {c}); n->cond[C_EXIT] = L(S, l); return n; }   // exited with a command under way
  case 2: { NP a = node(N_ASGN, id + "A"); a->dest = var("x", TI); a->rhs = L(S, "v", {1, 2}, 1, TI); a->cond[C_REPEAT] = NOT_(L(S, l)); a->cond[C_START] = L(S, "go"); NP n = list(id, {a}); n->vars.push_back({"x", TI, I(0)}); return n; }
  case 3: { NP u = node(N_UPD, id + "U"); u->pairs = {{"k", I(1)}}; NP e = node(N_EMPTY, id + "E"); e->cond[C_START] = L(S, l); NP n = list(id, {u, e}); n->cond[C_END] = L(S, l); return n; }   // ends with children waiting or never started
  case 4: { NP n = list(id, {}); n->vars.push_back({"a", TI, EP(), 3, {1, 2}}); NP e = node(N_EMPTY, id + "E"); e->cond[C_END] = eq(elt("a", TI, L(S, "v", {1, 2}, 1, TI)), I(2)); e->cond[C_EXIT] = L(S, l); n->kids = {e}; return n; }
  case 5: { NP c = node(N_CMD, id); c->cmdName = M::S(id[0]); c->dest = var("y", TI); c->vars.push_back({"y", TI, EP()}); c->cond[C_END] = OR_(isk(var("y", TI)), L(S, l)); return c; }
  case 6: { NP e = node(N_EMPTY, id + "E"), f = node(N_EMPTY, id + "F"); e->using_ = {"mx"}; f->using_ = {"mx"}; e->cond[C_END] = L(S, "go"); NP n = list(id, {e, f}); n->mutexes = {"mx"}; n->cond[C_EXIT] = L(S, l); return n; }   // exited with a node waiting for a mutex
  case 7: { NP e = node(N_EMPTY, id + "E"), f = node(N_EMPTY, id + "F"); e->using_ = {"g1"}; f->using_ = {"g1"}; e->cond[C_END] = L(S, "go"); NP n = list(id, {e, f}); n->cond[C_INV] = NOT_(L(S, l)); return n; }
  }
  abort();
}
static size_t n() { return 8 * 8 * 3; }
static Scenario make(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "plans " + to_string(i); int a = m(8), b = m(8), add = m(3); S.globalMutexes = {"g1"}; s.cleanup = true; s.lateHandles = false; s.rets = {4};
  S.plans = {plan(S, "P", a, "l"), plan(S, "Q", b, add == 2 ? "l" : "m")}; S.addLater = {false, add == 1}; s.depth = deep() ? 8 : 6; return s;
}
static size_t n3() { return 8 * 8 * 8; }
static Scenario three(size_t i) {
  Mix m(i); Scenario s; System &S = s.sys; S.label = "three plans " + to_string(i); int a = m(8), b = m(8), c = m(8); S.globalMutexes = {"g1"}; s.cleanup = true; s.rets = {4};
  S.plans = {plan(S, "P", a, "l"), plan(S, "Q", b, "m"), plan(S, "W", c, "l")}; S.addLater = {false, true, true}; s.depth = deep() ? 7 : 5; return s;
}
}
void more(vector<FamilyDef> &f) {
  vector<FamilyDef> g{
    {"F3", F3::n, F3::make}, {"F3index", F3::nI, F3::idx}, {"F3chain", F3::nC, F3::chain},
    {"F4", F4::n, F4::make}, {"F4nest", F4::nN, F4::nest}, {"F4queue", F4::nQ, F4::queue}, {"F4global", F4::nG, F4::glob},
    {"F5", F5::n, F5::make}, {"F6", F6::n, F6::make}, {"F6cross", F6::nX, F6::cross}, {"F7", F7::n, F7::make}, {"F7two", F7::n2, F7::two},
    {"F8", F8::n, F8::make}, {"F8two", F8::n2, F8::two}, {"F8arr", F8::nA, F8::arrays}, {"F8typ", F8::nT, F8::types}, {"F9", F9::n, F9::make}, {"F9vars", F9::nV, F9::vars_},
    {"F10", F10::n, F10::make}, {"F10three", F10::n3, F10::three},
  };
  f.insert(f.end(), g.begin(), g.end());
}
