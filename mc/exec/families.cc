#include "fam.hh"

// ===================================================================== F1
// Decision table: one focal node of each type below zero, one or two ancestors; every condition is
// an independently controlled three-valued lookup.  The node is parked in each state, then hit
// with every valuation of the conditions that matter there, then driven to completion.
namespace F1 {
static const char *cn[C_N] = {"sk", "st", "pre", "ex", "inv", "end", "post", "rep"};
struct Cfg { NT type; int anc; unsigned present; unsigned ancPresent; int var = 0; };  // ancPresent bits: 0 ex 1 inv 2 end (parent), 3..5 grandparent
static vector<Cfg> cfgs;
static void init() {
  if (!cfgs.empty()) return;
  NT ts[] = {N_EMPTY, N_LIST, N_CMD, N_ASGN, N_UPD, N_LIB};
  for (NT t : ts) {
    cfgs.push_back({t, 0, 0xff, 0});
    cfgs.push_back({t, 1, 0xff, 7});
    cfgs.push_back({t, 2, 0xff & ~((1u << C_SKIP) | (1u << C_PRE)), 077});
    for (int c = 0; c < C_N; ++c) cfgs.push_back({t, 1, 1u << c, 7});
    for (int a = 0; a < 6; ++a) cfgs.push_back({t, 2, (1u << C_EXIT) | (1u << C_INV) | (1u << C_END), 1u << a});
    cfgs.push_back({t, 1, 0, 0});
  }
  for (NT t : ts) for (int c = 0; c < C_N; ++c) cfgs.push_back({t, 1, 0xffu & ~(1u << c), 7});  // thorough
}
struct Lk { string name; int idx; };
// parking recipe: history of batches bringing the focal node to the wanted state with the benign valuation
static const size_t PARTS = 8;   // the valuations of a scenario are spread over this many slices
static size_t perCfg() { return 12 * PARTS; }
static size_t quickCfgs() { return 6 * 18; }
static size_t count() { init(); return (H::args.thorough || !H::args.replay.empty() ? cfgs.size() : quickCfgs()) * perCfg(); }
static Scenario make(size_t i) {
  init(); Cfg c = cfgs[i / perCfg()]; int park = i % perCfg() / PARTS; size_t part = i % PARTS;
  Scenario s; System &S = s.sys; s.iterKey = false; s.cap = 2000000;
  auto L = [&](string n, V init) { int k = S.lookups.size(); S.lookups.push_back({n, TB, {1, 0, U}, init}); return k; };
  // focal conditions
  int fl[C_N]; V benign[C_N] = {0, 0, 1, 0, 1, 0, 1, U};   // parked: start=F keeps waiting, end=F, repeat=U
  NP f = node(c.type, "F");
  for (int k = 0; k < C_N; ++k) { fl[k] = -1; if (c.present >> k & 1) { fl[k] = L(cn[k], benign[k]); f->cond[k] = lk(cn[k], TB, true); } }
  int kidEnd = -1, kidStart = -1;
  switch (c.type) {
  case N_LIST: { NP k = node(N_EMPTY, "K"); kidEnd = L("kend", 0); k->cond[C_END] = lk("kend", TB, true); f->kids.push_back(k); break; }
  case N_LIB: { NP k = node(N_EMPTY, "LibF1"); kidEnd = L("kend", 0); k->cond[C_END] = lk("kend", TB, true); S.libs["LibF1"] = k; f->lib = "LibF1"; break; }
  case N_CMD: f->cmdName = M::S(1); f->args = {I(7)}; break;
  case N_ASGN: f->dest = var("x", TI); f->rhs = I(5); break;
  case N_UPD: f->pairs = {{"k", I(3)}}; break;
  default: break;
  }
  (void)kidStart;
  int al[6] = {-1, -1, -1, -1, -1, -1}; V ab[6] = {0, 1, 0, 0, 1, 0};
  static const char *an[6] = {"pex", "pinv", "pend", "gex", "ginv", "gend"};
  static const CT ac[3] = {C_EXIT, C_INV, C_END};
  NP root = f, par, gp;
  int pst = -1;
  VarDecl xv{"x", TI, I(1)};
  if (c.anc == 0) { if (c.type == N_ASGN) f->vars.push_back(xv); }
  else {
    par = node(N_LIST, "P"); par->kids.push_back(f); if (c.type == N_ASGN) par->vars.push_back(xv);
    pst = L("pst", 0); par->cond[C_START] = lk("pst", TB, true);
    for (int k = 0; k < 3; ++k) if (c.ancPresent >> k & 1) { al[k] = L(an[k], ab[k]); par->cond[ac[k]] = lk(an[k], TB, true); }
    if (al[2] < 0) { par->cond[C_END] = B(0); }
    root = par;
    if (c.anc == 2) {
      gp = node(N_LIST, "G"); gp->kids.push_back(par);
      for (int k = 3; k < 6; ++k) if (c.ancPresent >> k & 1) { al[k] = L(an[k], ab[k]); gp->cond[ac[k - 3]] = lk(an[k], TB, true); }
      if (al[5] < 0) gp->cond[C_END] = B(0);
      root = gp;
    }
  }
  S.plans.push_back(root);
  auto set = [&](int l, V v) { return Ev{E_LK, l, v}; };
  int fnode = c.anc;   // reference numbering is preorder
  // ---- park
  bool bad = false; vector<Batch> pre;
  vector<int> rel; vector<int> arel; bool acks = false; string lab;
  auto goExec = [&]() { if (fl[C_START] >= 0) pre.push_back({set(fl[C_START], 1)}); };
  bool hasStartGate = fl[C_START] >= 0, hasEndGate = fl[C_END] >= 0;
  bool kidGate = kidEnd >= 0;
  if (c.anc) pre.push_back({set(pst, 1)});
  bool parentStartHit = false;
  auto canExec = hasStartGate || true;
  auto executingStays = [&]() { return hasEndGate || kidGate || c.type == N_UPD; };
  auto failTo = [&](int why) {   // drive into FAILING by own exit / invariant / ancestor exit / invariant
    int q = why == 0 ? fl[C_EXIT] : why == 1 ? fl[C_INV] : why == 2 ? al[0] : al[1];
    if (q < 0) { bad = true; return; }
    pre.push_back({set(q, why == 0 || why == 2 ? 1 : 0)});
  };
  switch (park) {
  case 0: lab = "INACTIVE"; if (!c.anc) bad = true; pre.clear(); parentStartHit = true; rel = {C_EXIT, C_SKIP, C_START}; arel = {0, 1, 2}; break;
  case 1: lab = "WAITING"; if (!hasStartGate) bad = true; rel = {C_SKIP, C_START, C_PRE, C_EXIT}; if (c.anc < 2) rel.push_back(C_INV); arel = {0, 1, 2, 3, 4, 5}; break;
  case 2: lab = "EXECUTING"; if (!executingStays()) bad = true; goExec(); rel = {C_EXIT, C_INV, C_END, C_POST}; arel = {0, 1, 3, 4}; acks = true; if (c.anc < 2) rel.push_back(C_REPEAT); break;
  case 3: lab = "FINISHING"; if (c.type != N_LIST && c.type != N_LIB && c.type != N_CMD) bad = true; if (c.type != N_CMD && !hasEndGate) bad = true;
    goExec(); if (hasEndGate) pre.push_back({set(fl[C_END], 1)}); rel = {C_EXIT, C_INV, C_END, C_POST, C_REPEAT}; arel = {0, 1, 3, 4}; acks = true; break;
  case 4: case 5: case 6: case 7: lab = "FAILING/" + to_string(park - 4);
    if (c.type == N_EMPTY || c.type == N_ASGN) bad = true; if (!executingStays() && c.type != N_CMD) bad = true;
    if (park >= 6 && !c.anc) bad = true;
    goExec(); failTo(park - 4); rel = {C_EXIT, C_INV, C_END, C_POST, C_REPEAT}; arel = {0, 1, 2, 3, 4, 5}; acks = true; break;
  case 8: case 9: lab = park == 8 ? "ITERATION_ENDED/ok" : "ITERATION_ENDED/pre"; if (fl[C_REPEAT] < 0) bad = true;
    if (park == 9 && (fl[C_PRE] < 0)) bad = true;
    if (park == 9) { pre.push_back({set(fl[C_PRE], 0)}); if (hasStartGate) pre.push_back({set(fl[C_START], 1)}); if (!hasStartGate) bad = true; }
    else { goExec(); if (hasEndGate) pre.push_back({set(fl[C_END], 1)}); if (kidGate) pre.push_back({set(kidEnd, 1)}); 
      if (c.type == N_CMD) pre.push_back({{E_HANDLE, fnode, H_SUCCESS}}); if (c.type == N_UPD) pre.push_back({{E_UACK, fnode, 1}}); }
    rel = {C_REPEAT, C_EXIT, C_INV, C_SKIP}; arel = {0, 1, 2, 3, 4, 5}; break;
  case 10: lab = "WAITING/2nd"; if (fl[C_REPEAT] < 0 || !hasStartGate) bad = true;
    goExec(); if (hasEndGate) pre.push_back({set(fl[C_END], 1)}); if (kidGate) pre.push_back({set(kidEnd, 1)});
    if (c.type == N_CMD) pre.push_back({{E_HANDLE, fnode, H_SUCCESS}}); if (c.type == N_UPD) pre.push_back({{E_UACK, fnode, 1}});
    { Batch b{set(fl[C_REPEAT], 1), set(fl[C_START], 0)}; if (hasEndGate) b.push_back(set(fl[C_END], 0)); if (kidGate) b.push_back(set(kidEnd, 0)); pre.push_back(b); }
    pre.push_back({set(fl[C_REPEAT], 0)});
    rel = {C_SKIP, C_START, C_PRE, C_EXIT, C_INV}; arel = {0, 1, 2}; break;
  case 11: lab = "EXECUTING/2nd"; if (fl[C_REPEAT] < 0 || !hasStartGate || !executingStays()) bad = true;
    goExec(); if (hasEndGate) pre.push_back({set(fl[C_END], 1)}); if (kidGate) pre.push_back({set(kidEnd, 1)});
    if (c.type == N_CMD) pre.push_back({{E_HANDLE, fnode, H_SUCCESS}}); if (c.type == N_UPD) pre.push_back({{E_UACK, fnode, 1}});
    { Batch b{set(fl[C_REPEAT], 1)}; if (hasEndGate) b.push_back(set(fl[C_END], 0)); if (kidGate) b.push_back(set(kidEnd, 0)); pre.push_back(b); }
    rel = {C_EXIT, C_INV, C_END, C_POST, C_REPEAT}; arel = {0, 1}; acks = true; break;
  }
  (void)canExec;
  s.sys.label = string(c.type == N_EMPTY ? "Empty" : c.type == N_LIST ? "List" : c.type == N_CMD ? "Command" : c.type == N_ASGN ? "Assignment" : c.type == N_UPD ? "Update" : "LibraryCall")
    + " anc" + to_string(c.anc) + " present" + to_string(c.present) + "/" + to_string(c.ancPresent) + " in " + lab;
  if (bad) { s.depth = 0; return s; }
  if (c.anc == 2 && !H::args.thorough && (park == 1 || park >= 4)) { vector<int> keep; for (int r : rel) if (r == C_EXIT || r == (park == 1 ? C_START : C_REPEAT)) keep.push_back(r); rel = keep; }
  vector<int> ls; for (int r : rel) if (fl[r] >= 0) ls.push_back(fl[r]); for (int a : arel) if (al[a] >= 0) ls.push_back(al[a]);
  s.prefix = pre; s.depth = 5;
  NT type = c.type; int start = fl[C_START], end = fl[C_END], rep = fl[C_REPEAT]; int pend = al[2], gend = al[5];
  s.menu = [=](Ref &r, int d, vector<Batch> &out) {
    if (d == 0) {   // all valuations x environment answers
      vector<Batch> env{{}};
      if (acks) {
        if (type == N_CMD) { for (int h = 1; h < H_N; ++h) env.push_back({{E_HANDLE, fnode, h}}); env.push_back({{E_ABT, fnode, 1}}); env.push_back({{E_ABT, fnode, 1}, {E_HANDLE, fnode, H_FAILED}}); }
        if (type == N_UPD) env.push_back({{E_UACK, fnode, 1}});
        if (kidGate) env.push_back({{E_LK, kidEnd, 1}});
      }
      size_t n = 1; for (size_t k = 0; k < ls.size(); ++k) n *= 3;
      for (auto &e : env) for (size_t v = part; v < n; v += PARTS) {
        Batch b; size_t w = v; for (int l : ls) { V x = TFU[w % 3]; w /= 3; if (r.s.lkv[l] != x) b.push_back({E_LK, l, x}); }
        for (auto &z : e) b.push_back(z);
        if (parentStartHit) b.push_back({E_LK, pst, 1});
        out.push_back(b);
      }
    } else if (d == 1) {  // answer whatever is outstanding
      Batch b; auto &dn = r.s.d[fnode];
      if (type == N_CMD && dn.live) { if (dn.st == FAILING) b.push_back({E_ABT, fnode, 1}); else b.push_back({E_HANDLE, fnode, H_SUCCESS}); }
      if (type == N_UPD && dn.live) b.push_back({E_UACK, fnode, 1});
      if (kidGate && r.s.lkv[kidEnd] != 1) b.push_back({E_LK, kidEnd, 1});
      out.push_back(b);
    } else if (d == 2) {  // let it start, end and stop repeating
      Batch b; auto p = [&](int l, V v) { if (l >= 0 && r.s.lkv[l] != v) b.push_back({E_LK, l, v}); };
      p(start, 1); p(end, 1); p(rep, 0); out.push_back(b);
    } else if (d == 3) {
      Batch b; auto &dn = r.s.d[fnode];
      if (type == N_CMD && dn.live) { b.push_back({E_HANDLE, fnode, H_SUCCESS}); b.push_back({E_ABT, fnode, 1}); }
      if (type == N_UPD && dn.live) b.push_back({E_UACK, fnode, 1});
      out.push_back(b);
    } else { Batch b; if (pend >= 0) b.push_back({E_LK, pend, 1}); if (gend >= 0) b.push_back({E_LK, gend, 1}); out.push_back(b); }
  };
  return s;
}
}


// ===================================================================== F2
// All pairs of sibling nodes with one condition each over references to each other, plus
// all double conditions against a set of gated partners, plus nested trees.
namespace F2 {
static const int NA = 14;
static EP atom(System &S, int k, string other, bool cmd) {
  switch (k) {
  case 0: return nst(other, WAITING);
  case 1: return nst(other, EXECUTING);
  case 2: return nst(other, ITER_ENDED);
  case 3: return nst(other, FINISHED);
  case 4: return NOT_(nst(other, FINISHED));
  case 5: return nst(other, INACTIVE);
  case 6: return nout(other, O_SUCCESS);
  case 7: return nout(other, O_FAILURE);
  case 8: return nout(other, O_SKIPPED);
  case 9: return NOT_(iskn(other, 0));
  case 10: return nfl(other, F_PRE);
  case 11: return L(S, "l");
  case 12: return var("x", TB);
  case 13: return cmd ? nhd(other, H_SUCCESS) : L(S, "m");
  }
  abort();
}
static NP body(System &S, int type, string id) {
  NP n;
  switch (type) {
  case 0: n = node(N_EMPTY, id); break;
  case 1: n = node(N_ASGN, id); n->dest = var("x", TB); n->rhs = id == "A" ? B(1) : NOT_(var("x", TB)); break;
  case 2: n = node(N_CMD, id); n->cmdName = M::S(id[0]); break;
  default: { n = node(N_LIST, id); NP k = node(N_EMPTY, id + "K"); k->cond[C_END] = L(S, "l"); n->kids.push_back(k); }
  }
  return n;
}
static Scenario base(string lab) { Scenario s; s.sys.label = lab; s.depth = 3; return s; }
// --- singles
static size_t nS() { return 4 * 4 * (8 * NA + 1) * (8 * NA + 1); }
static Scenario single(size_t i) {
  Mix m(i); int ta = m(4), tb = m(4), ca = m(8 * NA + 1), cb = m(8 * NA + 1);
  Scenario s = base("pair t" + to_string(ta) + to_string(tb) + " c" + to_string(ca) + "," + to_string(cb));
  System &S = s.sys; NP a = body(S, ta, "A"), b = body(S, tb, "B");
  if (ca < 8 * NA) a->cond[ca / NA] = atom(S, ca % NA, "B", tb == 2);
  if (cb < 8 * NA) b->cond[cb / NA] = atom(S, cb % NA, "A", ta == 2);
  NP r = list("R", {a, b}); r->vars.push_back({"x", TB, B(0)});
  L(S, "l"); S.plans.push_back(r); return s;
}
// --- doubles against a gated partner
static const int NG = 8;
static void gate(System &S, NP b, int g) {
  switch (g) {
  case 0: b->cond[C_END] = L(S, "l"); break;
  case 1: b->cond[C_START] = L(S, "l"); break;
  case 2: b->cond[C_END] = L(S, "l"); b->cond[C_INV] = NOT_(L(S, "m")); break;
  case 3: b->cond[C_EXIT] = L(S, "l"); b->cond[C_END] = L(S, "m"); break;
  case 4: b->cond[C_START] = L(S, "l"); b->cond[C_END] = L(S, "m"); break;
  case 5: b->cond[C_REPEAT] = L(S, "l"); b->cond[C_END] = L(S, "m"); break;
  case 6: b->cond[C_POST] = L(S, "l"); b->cond[C_START] = L(S, "m"); break;
  case 7: b->cond[C_SKIP] = L(S, "l"); b->cond[C_START] = L(S, "m"); break;
  }
}
static size_t nD() { return 28 * NA * NA * NG * (H::args.thorough || !H::args.replay.empty() ? 12 : 4); }
static Scenario dbl(size_t i) {
  Mix m(i); int pr = m(28), a1 = m(NA), a2 = m(NA), g = m(NG), ty = m(12); int ta = ty % 4, tb = (ty / 4 + ty) % 3;
  Scenario s = base("double t" + to_string(ta) + to_string(tb) + " slots" + to_string(pr) + " a" + to_string(a1) + "," + to_string(a2) + " g" + to_string(g));
  System &S = s.sys; NP a = body(S, ta, "A"), b = body(S, tb, "B");
  int p = 0, q = 1, k = pr; while (k >= 7 - p) { k -= 7 - p; ++p; } q = p + 1 + k;
  a->cond[p] = atom(S, a1, "B", tb == 2); a->cond[q] = atom(S, a2, "B", tb == 2);
  gate(S, b, g);
  NP r = list("R", i & 1 ? vector<NP>{a, b} : vector<NP>{b, a}); r->vars.push_back({"x", TB, B(0)});
  L(S, "l"); L(S, "m"); S.plans.push_back(r); return s;
}
// --- nested: R { P { K1 K2 } Q } with conditions across levels, ancestor conditions included
static const int NN = 12;
static EP nAtom(System &S, int k, int who) {  // who 0 K1, 1 K2, 2 P, 3 Q, 4 R
  static const char *nm[] = {"K1", "K2", "P", "Q", "R"};
  vector<string> vis; if (who <= 1) vis = {nm[1 - who], "P", "Q"}; else if (who == 2) vis = {"K1", "Q", "K2"}; else if (who == 3) vis = {"P", "R", "P"}; else vis = {"P", "Q", "P"};
  switch (k) {
  case 0: return nst(vis[0], EXECUTING); case 1: return nst(vis[0], FINISHED); case 2: return nst(vis[1], EXECUTING);
  case 3: return nst(vis[1], FINISHED); case 4: return nst(vis[2], FINISHED); case 5: return nst(vis[2], WAITING);
  case 6: return nout(vis[0], O_SUCCESS); case 7: return nout(vis[1], O_FAILURE); case 8: return L(S, "l"); case 9: return NOT_(L(S, "m"));
  case 10: return nst(vis[1], FAILING); case 11: return NOT_(iskn(vis[2], 1));
  }
  abort();
}
static size_t nN() { return (size_t)(5 * 8 * NN) * (5 * 8 * NN) / 2 * 1; }
static Scenario nest(size_t i) {
  const size_t K = 5 * 8 * NN; size_t a = i / (K / 2), b = i % (K / 2) * 2 + (a & 1);
  Scenario s = base("nest " + to_string(a) + "," + to_string(b)); System &S = s.sys;
  NP k1 = node(N_EMPTY, "K1"), k2 = node(N_CMD, "K2"), q = node(N_EMPTY, "Q"); k2->cmdName = M::S(2);
  NP p = list("P", {k1, k2}), r = list("R", {p, q}); NP all[5] = {k1, k2, p, q, r};
  q->cond[C_END] = L(S, "l"); k1->cond[C_START] = L(S, "m");
  for (size_t c : {a, b}) { int who = c / (8 * NN), slot = c / NN % 8, at = c % NN; all[who]->cond[slot] = nAtom(S, at, who); }
  L(S, "l"); L(S, "m"); S.plans.push_back(r); s.depth = 3; return s;
}
// --- three siblings in a ring, repeat conditions, both orders
static size_t nR() { return 6 * 6 * 6 * 8 * 8 * 8; }
static Scenario ring(size_t i) {
  Mix m(i); Scenario s = base("ring " + to_string(i)); System &S = s.sys; NP n[3]; static const char *nm[] = {"A", "B", "C"};
  int ord = i % 6;
  for (int k = 0; k < 3; ++k) n[k] = node(N_EMPTY, nm[k]);
  for (int k = 0; k < 3; ++k) {
    string o = nm[(k + 1) % 3]; int at = m(6), sl = m(8); EP e;
    switch (at) { case 0: e = nst(o, FINISHED); break; case 1: e = nst(o, EXECUTING); break; case 2: e = nst(o, ITER_ENDED); break; case 3: e = nst(o, WAITING); break; case 4: e = nout(o, O_SUCCESS); break; default: e = L(S, k == 1 ? "m" : "l"); }
    n[k]->cond[sl] = e;
  }
  if (!n[0]->cond[C_END]) n[0]->cond[C_END] = L(S, "l");
  if (!n[1]->cond[C_START]) n[1]->cond[C_START] = L(S, "m");
  static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  NP r = list("R", {n[perm[ord][0]], n[perm[ord][1]], n[perm[ord][2]]});
  L(S, "l"); L(S, "m"); S.plans.push_back(r); return s;
}
}

int main(int argc, char **argv) {
  vector<FamilyDef> f{
    {"F1", F1::count, F1::make},
    {"F2single", F2::nS, F2::single}, {"F2double", F2::nD, F2::dbl}, {"F2nest", F2::nN, F2::nest}, {"F2ring", F2::nR, F2::ring},
  };
  more(f);
  return mainFamilies(argc, argv, f);
}
