// Independent evaluation of expressions (no code shared with the implementation).
#pragma once
#include "env.hh"
#include <climits>
struct Ast; typedef std::shared_ptr<Ast> AP;
struct Ast { string tag; vector<AP> k; int kind = 0 /*0 op 1 var 2 literal 3 raw const*/; Ty ty = TB; Vl lit; };
inline AP V(string n, Ty t) { AP a(new Ast); a->kind = 1; a->tag = n; a->ty = t; return a; }
inline AP Lit(Ty t, Vl v) { AP a(new Ast); a->kind = 2; a->ty = t; a->lit = v; return a; }
inline AP Raw(string xml, Ty t, Vl v) { AP a(new Ast); a->kind = 3; a->tag = xml; a->ty = t; a->lit = v; return a; }
inline AP Op(string t, vector<AP> k) { AP a(new Ast); a->tag = t; a->k = k; return a; }
inline string xml(AP a) {
  if (a->kind == 1) return vx(a->tag, a->ty);
  if (a->kind == 2) return litx(a->ty, a->lit);
  if (a->kind == 3) return a->tag;
  if (a->tag == "ArrayElement") return tagx("ArrayElement", (a->k[0]->kind == 1 ? tagx("Name", a->k[0]->tag) : xml(a->k[0])) + tagx("Index", xml(a->k[1])));
  string o; for (auto &x : a->k) o += xml(x); return tagx(a->tag, o);
}
inline string str(AP a) { if (a->kind == 1) return a->tag; if (a->kind == 2) return show(a->ty, a->lit); if (a->kind == 3) return a->tag; string o = a->tag + "("; for (auto &x : a->k) o += (o.back() == '(' ? "" : ",") + str(x); return o + ")"; }
struct Res { Ty t = TB; Vl v; bool odd = false; bool err = false; };   // odd: mathematically undefined or infinite real: unknown is equally acceptable; err: a plan error is the documented answer (unknown accepted)
typedef std::map<string, Vl> Vars;
inline bool numTy(Ty t) { return t == TI || isReal(t); }
inline double asR(Ty t, Vl const &v) { return t == TI ? (double)v.i : v.r; }
inline Vl fit(__int128 x) { return x >= INT32_MIN && x <= INT32_MAX ? I((int64_t)x) : UN(); }
inline bool eqv(Ty a, Vl const &x, Ty b, Vl const &y) {
  if (numTy(a) && numTy(b)) { if (a == TI && b == TI) return x.i == y.i; return asR(a, x) == asR(b, y); }
  if (isArr(a)) { if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); ++i) { if (x.a[i].known != y.a[i].known) return false; if (x.a[i].known && !eqv(elem(a), x.a[i], elem(b), y.a[i])) return false; } return true; }
  if (a == TB) return x.b == y.b; if (a == TS) return x.s == y.s; return x.i == y.i;
}
inline Res eval(AP a, Vars const &vars, ValueType want = UNKNOWN_TYPE) {
  Res r;
  if (a->kind == 1) { r.t = a->ty; auto it = vars.find(a->tag); if (it != vars.end()) r.v = it->second; return r; }
  if (a->kind >= 2) { r.t = a->ty; r.v = a->lit; return r; }
  vector<Res> k; for (auto &x : a->k) { k.push_back(eval(x, vars)); if (k.back().odd) r.odd = true; if (k.back().err) r.err = true; }
  string const &t = a->tag; size_t n = k.size(); bool all = true; for (auto &x : k) if (!x.v.known) all = false;
  if (t == "NOT") { r.t = TB; if (k[0].v.known) r.v = B(!k[0].v.b); return r; }
  if (t == "AND" || t == "OR") { bool stop = t == "OR"; r.t = TB; for (auto &x : k) if (x.v.known && x.v.b == stop) { r.v = B(stop); return r; } if (all) r.v = B(!stop); return r; }
  if (t == "XOR") { r.t = TB; if (!all) return r; int c = 0; for (auto &x : k) c += x.v.b; r.v = B(c % 2 == 1); return r; }
  if (t == "IsKnown") { r.t = TB; r.v = B(k[0].v.known); return r; }
  if (t.size() > 2 && (t.substr(0, 2) == "EQ" || t.substr(0, 2) == "NE")) { r.t = TB; if (all) r.v = B(eqv(k[0].t, k[0].v, k[1].t, k[1].v) == (t[0] == 'E')); return r; }
  if (t == "LT" || t == "LE" || t == "GT" || t == "GE") {
    r.t = TB; if (!all) return r; bool lt, eq;
    if (k[0].t == TS) { int c = k[0].v.s.compare(k[1].v.s); lt = c < 0; eq = c == 0; }
    else if (k[0].t == TI && k[1].t == TI) { lt = k[0].v.i < k[1].v.i; eq = k[0].v.i == k[1].v.i; }
    else { double x = asR(k[0].t, k[0].v), y = asR(k[1].t, k[1].v); if (std::isnan(x) || std::isnan(y)) { r.v = B(false); return r; } lt = x < y; eq = x == y; }
    r.v = B(t == "LT" ? lt : t == "LE" ? lt || eq : t == "GT" ? !lt && !eq : !lt); return r; }
  if (t == "ArraySize" || t == "ArrayMaxSize") { r.t = TI; if (all) r.v = I(k[0].v.a.size()); return r; }
  if (t == "ALL_KNOWN" || t == "ANY_KNOWN") { r.t = TB; if (!all) return r; size_t c = 0; for (auto &e : k[0].v.a) c += e.known; r.v = B(t == "ALL_KNOWN" ? c == k[0].v.a.size() : c > 0); return r; }
  if (t == "ArrayElement") { r.t = elem(k[0].t); if (!all) { if (k[1].v.known && k[1].v.i < 0) r.err = true; return r; } if (k[1].v.i < 0 || k[1].v.i >= (int64_t)k[0].v.a.size()) { r.err = true; return r; } r.v = k[0].v.a[k[1].v.i]; if (r.t == TI && r.v.known) r.v.r = (double)r.v.i; return r; }
  if (t == "Concat") { r.t = TS; if (!all) return r; string s; for (auto &x : k) s += x.v.s; r.v = S(s); return r; }
  if (t == "STRLEN") { r.t = TI; if (all) r.v = I(k[0].v.s.size()); return r; }
  if (t == "SQRT") { r.t = TR; if (!all) return r; double x = asR(k[0].t, k[0].v); if (x < 0) return r; r.v = R(std::sqrt(x)); if (!std::isfinite(r.v.r)) r.odd = true; return r; }
  if (t == "REAL_TO_INT") { r.t = TI; if (!all) return r; double x = asR(k[0].t, k[0].v); if (!std::isfinite(x) || x != std::floor(x) || x < INT32_MIN || x > INT32_MAX) return r; r.v = I((int64_t)x); return r; }
  if (t == "CEIL" || t == "FLOOR" || t == "ROUND" || t == "TRUNC") {
    r.t = want == INTEGER_TYPE ? TI : want == REAL_TYPE ? TR : k[0].t == TI ? TI : TR;
    if (!all) return r; double x = asR(k[0].t, k[0].v), y;
    if (!std::isfinite(x)) { if (r.t == TR) { r.v = R(x); r.odd = true; } return r; }
    double f = std::floor(x); y = t == "FLOOR" ? f : t == "CEIL" ? (f == x ? x : f + 1) : t == "TRUNC" ? (x < 0 ? (f == x ? x : f + 1) : f) : [&] { double ax = std::fabs(x), fa = std::floor(ax), m = ax - fa < 0.5 ? fa : fa + 1; return x < 0 ? -m : m; }();
    if (r.t == TR) { r.v = R(y); return r; }
    if (y >= INT32_MIN && y <= INT32_MAX) r.v = I((int64_t)y); return r; }
  // arithmetic
  bool real = false; for (auto &x : k) if (isReal(x.t)) real = true;
  r.t = real ? TR : TI; if (!all) return r;
  if (!real) {
    vector<__int128> x; for (auto &q : k) x.push_back(q.v.i); __int128 z = x[0];
    if (t == "ABS") { r.v = fit(z < 0 ? -z : z); return r; }
    if (t == "SUB" && n == 1) { r.v = fit(-z); return r; }
    for (size_t i = 1; i < n; ++i) {
      if (t == "ADD") z += x[i]; else if (t == "SUB") z -= x[i]; else if (t == "MUL") z *= x[i];
      else if (t == "MIN") z = x[i] < z ? x[i] : z; else if (t == "MAX") z = x[i] > z ? x[i] : z;
      else if (t == "DIV") { if (!x[i]) return r; z /= x[i]; } else if (t == "MOD") { if (!x[i]) return r; z %= x[i]; } else throw std::runtime_error("op " + t); }
    __int128 q = x[0]; if (t == "ADD" || t == "SUB" || t == "MUL") for (size_t i = 1; i < n; ++i) { if (t == "ADD") q += x[i]; else if (t == "SUB") q -= x[i]; else q *= x[i]; if (!fit(q).known) r.odd = true; }
    r.v = fit(z); return r;      // odd: an intermediate sum left the Integer range, so unknown is acceptable
  }
  vector<double> x; for (auto &q : k) x.push_back(asR(q.t, q.v)); double z = x[0];
  if (t == "ABS") z = std::fabs(z); else if (t == "SUB" && n == 1) z = -z;
  else for (size_t i = 1; i < n; ++i) {
    if (t == "ADD") z += x[i]; else if (t == "SUB") z -= x[i]; else if (t == "MUL") z *= x[i];
    else if (t == "MIN") z = x[i] < z ? x[i] : z; else if (t == "MAX") z = x[i] > z ? x[i] : z;
    else if (t == "DIV") { if (x[i] == 0) return r; z /= x[i]; } else if (t == "MOD") { if (x[i] == 0) return r; z = std::fmod(z, x[i]); } else throw std::runtime_error("op " + t); }
  r.v = R(z); if (!std::isfinite(z)) r.odd = true; return r;
}
