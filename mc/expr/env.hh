// Real-code side of the expression checkers: one node with variables of every type, and
// expressions made from XML by the plan loader's own createExpression().
#pragma once
#include "harness.hh"
#include "Array.hh"
#include "ArrayImpl.hh"
#include "Assignable.hh"
#include "CommandHandle.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "Expression.hh"
#include "ExpressionListener.hh"
#include "InterfaceError.hh"
#include "LookupReceiver.hh"
#include "NodeConstants.hh"
#include "NodeImpl.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "StateCache.hh"
#include "createExpression.hh"
#include "parsePlan.hh"
#include "pugixml.hpp"
#include "ParserException.hh"
#include "State.hh"
#include "SymbolTable.hh"
#include <cmath>
#include <functional>
#include <memory>
using namespace PLEXIL;
using std::string; using std::vector; using std::to_string; using std::unique_ptr;
inline bool deep() { return H::args.thorough || !H::args.replay.empty(); }
enum Ty { TB, TI, TR, TS, TBA, TIA, TRA, TSA, TNS, TNO, TNF, TCH, TD, TU };   // TD, TU: declared Date, Duration
struct Vl {                       // oracle value: unknown, or a scalar, or an array of optional scalars
  bool known = false; bool b = false; int64_t i = 0; double r = 0; string s; vector<Vl> a;
};
inline Vl UN() { return Vl(); }
inline Vl B(bool b) { Vl v; v.known = true; v.b = b; return v; }
inline Vl I(int64_t i) { Vl v; v.known = true; v.i = i; v.r = (double)i; return v; }
inline Vl R(double r) { Vl v; v.known = true; v.r = r; return v; }
inline Vl S(string s) { Vl v; v.known = true; v.s = s; return v; }
inline Vl A(vector<Vl> a) { Vl v; v.known = true; v.a = a; return v; }
inline Ty elem(Ty t) { return t == TBA ? TB : t == TIA ? TI : t == TRA ? TR : TS; }
inline bool isArr(Ty t) { return t >= TBA && t <= TSA; }
inline bool isReal(Ty t) { return t == TR || t == TD || t == TU; }
inline string numS(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
inline string show(Ty t, Vl const &v) {
  if (!v.known) return "?";
  switch (t) { case TB: return v.b ? "T" : "F"; case TI: case TNS: case TNO: case TNF: case TCH: return to_string(v.i); case TR: case TD: case TU: return numS(v.r); case TS: return "'" + v.s + "'";
  default: { string o = "["; for (auto &e : v.a) o += show(elem(t), e) + ","; return o + "]"; } }
}
inline bool sameR(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(Ty t, Vl const &x, Vl const &y) {
  if (x.known != y.known) return false;
  if (!x.known) return true;
  switch (t) { case TB: return x.b == y.b; case TI: case TNS: case TNO: case TNF: case TCH: return x.i == y.i; case TR: case TD: case TU: return sameR(x.r, y.r); case TS: return x.s == y.s;
  default: if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); ++i) if (!same(elem(t), x.a[i], y.a[i])) return false; return true; }
}
Value toReal(Ty t, Vl const &v, bool stale = false);       // stale: unknown array elements get hidden contents
Vl fromReal(Ty t, Value const &v, bool &ok);
struct Env;
struct Spy : public ExpressionListener { int n = 0; void notifyChanged() override { ++n; } };
struct Ex {                       // an expression made by the loader
  unique_ptr<pugi::xml_document> doc; Expression *e = nullptr; bool mine = false; Spy spy; string err; bool listening = false; int act = 0;
  ~Ex();
  void on() { e->addListener(&spy); listening = true; e->activate(); ++act; }
};
struct Env : public Dispatcher {
  unique_ptr<pugi::xml_document> doc; NodeImpl *node = nullptr; SymbolTable *symtab = nullptr; std::map<string, Expression *> vars; unique_ptr<PlexilExec> exec;
  std::map<string, Value> world; int nowCalls = 0;
  Env(vector<std::pair<string, Ty>> const &decls, string extraDecl = "", string global = "", bool activate = true);
  ~Env();
  Expression *var(string const &n) { return vars[n]; }
  void set(string const &n, Ty t, Vl const &v, bool stale = false);
  unique_ptr<Ex> make(string const &xml, ValueType want = UNKNOWN_TYPE, bool assignable = false);
  void lookupNow(State const &s, LookupReceiver *r) override;
  void setThresholds(const State &, Real, Real) override {}
  void setThresholds(const State &, Integer, Integer) override {}
  void clearThresholds(const State &) override {}
  void executeCommand(Command *) override {}
  void reportCommandArbitrationFailure(Command *) override {}
  void invokeAbort(Command *) override {}
  void executeUpdate(Update *) override {}
};
// All observable readings of an expression agree with the oracle value?  Empty string if so.
string checkValue(Expression *e, Ty t, Vl const &want, bool nanOrUnknown = false);
inline string vx(string n, Ty t) { const char *tag[] = {"Boolean", "Integer", "Real", "String", "Array", "Array", "Array", "Array", "", "", "", "", "Real", "Real"}; return string("<") + tag[t] + "Variable>" + n + "</" + tag[t] + "Variable>"; }
string litx(Ty t, Vl const &v);
inline string tagx(string t, string body) { return "<" + t + ">" + body + "</" + t + ">"; }
