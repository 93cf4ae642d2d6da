#include "env.hh"
Value toReal(Ty t, Vl const &v, bool stale) {
  if (!v.known) return Value();
  auto arr = [&](auto dummy, auto get) -> Value {
    typedef decltype(dummy) T; ArrayImpl<T> a(v.a.size());
    for (size_t i = 0; i < v.a.size(); ++i) if (v.a[i].known) a.setElement(i, (T)get(v.a[i]));
      else if (stale) { Vl junk; junk.known = true; junk.b = (i & 1) == 0; junk.i = 77 + (int)i; junk.r = 7.5 + i; junk.s = "junk" + to_string(i); a.setElement(i, (T)get(junk)); a.setElementUnknown(i); }
    return Value(a); };
  switch (t) { case TB: return Value((Boolean)v.b); case TI: return Value((Integer)v.i); case TR: case TD: case TU: return Value((Real)v.r); case TS: return Value(v.s);
  case TBA: return arr(Boolean(), [](Vl const &x) { return x.b; }); case TIA: return arr(Integer(), [](Vl const &x) { return x.i; });
  case TRA: return arr(Real(), [](Vl const &x) { return x.r; }); case TSA: return arr(String(), [](Vl const &x) { return x.s; });
  case TNS: return Value((NodeState)v.i); case TNO: return Value((NodeOutcome)v.i); case TNF: return Value((FailureType)v.i); default: return Value((CommandHandleValue)v.i); }
}
Vl fromReal(Ty t, Value const &v, bool &ok) {
  ok = true; if (!v.isKnown()) return UN();
  auto arr = [&](auto dummy, auto mk, ValueType vt) -> Vl {
    typedef decltype(dummy) T; if (v.valueType() != vt) { ok = false; return UN(); }
    Array const *a; if (!v.getValuePointer(a)) { ok = false; return UN(); }
    Vl o; o.known = true; for (size_t i = 0; i < a->size(); ++i) { if (!a->elementKnown(i)) { o.a.push_back(UN()); continue; } T x; if (!a->getElement(i, x)) { ok = false; return UN(); } o.a.push_back(mk(x)); }
    return o; };
  switch (t) {
  case TB: { Boolean b; if (v.valueType() != BOOLEAN_TYPE) break; ok = v.getValue(b); return B(b); }
  case TI: { Integer b; if (v.valueType() != INTEGER_TYPE) break; ok = v.getValue(b); return I(b); }
  case TR: case TD: case TU: { Real b; if (v.valueType() != REAL_TYPE && v.valueType() != DATE_TYPE && v.valueType() != DURATION_TYPE) break; ok = v.getValue(b); return R(b); }
  case TS: { String b; if (v.valueType() != STRING_TYPE) break; ok = v.getValue(b); return S(b); }
  case TBA: return arr(Boolean(), [](bool x) { return B(x); }, BOOLEAN_ARRAY_TYPE); case TIA: return arr(Integer(), [](Integer x) { return I(x); }, INTEGER_ARRAY_TYPE);
  case TRA: return arr(Real(), [](Real x) { return R(x); }, REAL_ARRAY_TYPE); case TSA: return arr(String(), [](String x) { return S(x); }, STRING_ARRAY_TYPE);
  case TNS: { NodeState s; ok = v.getValue(s); return I(s); } case TNO: { NodeOutcome s; ok = v.getValue(s); return I(s); }
  case TNF: { FailureType s; ok = v.getValue(s); return I(s); } case TCH: { CommandHandleValue s; ok = v.getValue(s); return I(s); } }
  ok = false; return UN();
}
Ex::~Ex() { if (e) { while (act-- > 0) e->deactivate(); if (listening) e->removeListener(&spy); if (mine) delete e; } }
static string declx(string const &n, Ty t) {
  static const char *tn[] = {"Boolean", "Integer", "Real", "String", "Boolean", "Integer", "Real", "String", "", "", "", "", "Date", "Duration"};
  return isArr(t) ? "<DeclareArray><Name>" + n + "</Name><Type>" + tn[t] + "</Type></DeclareArray>" : "<DeclareVariable><Name>" + n + "</Name><Type>" + tn[t] + "</Type></DeclareVariable>";
}
Env::Env(vector<std::pair<string, Ty>> const &decls, string extra, string global, bool activate) : doc(new pugi::xml_document), exec(makePlexilExec()) {
  Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions();
  g_exec = exec.get(); g_dispatcher = this; exec->setDispatcher(this);
  string d; for (auto &p : decls) d += declx(p.first, p.second);
  d += extra; if (!d.empty()) d = "<VariableDeclarations>" + d + "</VariableDeclarations>";
  string x = "<PlexilPlan>" + (global.empty() ? "" : "<GlobalDeclarations>" + global + "</GlobalDeclarations>") + "<Node NodeType=\"Empty\"><NodeId>N</NodeId>" + d + "</Node></PlexilPlan>";
  if (!doc->load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) throw std::runtime_error("xml " + x);
  if (!global.empty()) { symtab = checkPlan(doc->document_element()); node = constructPlan(doc->document_element(), symtab, nullptr); }
  else node = parsePlan(doc->document_element());
  for (auto &p : decls) { Expression *v = node->findVariable(p.first.c_str()); if (!v) throw std::runtime_error("no variable"); vars[p.first] = v; if (activate) v->activate(); }
}
Env::~Env() { delete node; delete symtab; exec.reset(); g_exec = nullptr; g_dispatcher = nullptr; }
void Env::set(string const &n, Ty t, Vl const &v, bool stale) { Assignable *a = vars[n]->asAssignable(); if (v.known) a->setValue(toReal(t, v, stale)); else a->setUnknown(); }
unique_ptr<Ex> Env::make(string const &xml, ValueType want, bool assignable) {
  unique_ptr<Ex> x(new Ex); x->doc.reset(new pugi::xml_document);
  // Place the expression inside the node's own XML, where the loader's checks can see the declarations.
  if (!x->doc->load_string(("<R>" + xml + "</R>").c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { x->err = "xml"; return x; }
  pugi::xml_node host = doc->document_element().child("Node"), put = host.append_copy(x->doc->document_element().first_child());
  if (symtab) pushSymbolTable(symtab);
  try {
    if (!assignable) { checkExpression("N", put, want); x->e = createExpression(put, node, x->mine, want); }
    else { checkAssignable("N", put); x->e = createAssignable(put, node, x->mine); }
  }
  catch (std::exception const &e) { x->err = e.what(); if (x->err.empty()) x->err = "?"; }
  if (symtab) popSymbolTable();
  host.remove_child(put);
  return x;
}
void Env::lookupNow(State const &s, LookupReceiver *r) {
  ++nowCalls; auto it = world.find(s.toString()); if (it == world.end() || !it->second.isKnown()) r->setUnknown(); else r->update(it->second);
}
string litx(Ty t, Vl const &v) {
  static const char *tn[] = {"Boolean", "Integer", "Real", "String"};
  auto body = [&](Ty q, Vl const &w) -> string { if (!w.known) return "UNKNOWN"; switch (q) { case TB: return w.b ? "true" : "false"; case TI: return to_string(w.i); case TR: return numS(w.r); default: { string o; for (char c : w.s) o += c == '<' ? string("&lt;") : c == '&' ? string("&amp;") : string(1, c); return o; } } };
  if (t == TD || t == TU) t = TR;
  if (!isArr(t)) return tagx(string(tn[t]) + "Value", body(t, v));
  string o = string("<ArrayValue Type=\"") + tn[elem(t)] + "\">"; for (auto &e : v.a) o += tagx(string(tn[elem(t)]) + "Value", body(elem(t), e)); return o + "</ArrayValue>";
}
template <typename T> static string one(Expression *e, Ty t, Vl const &want, const char *n, std::function<Vl(T const &)> mk) {
  T x; bool k = e->getValue(x); Vl got = k ? mk(x) : UN();
  return same(t, got, want) ? "" : string("getValue(") + n + ") gives " + show(t, got) + "\n";
}
string checkValue(Expression *e, Ty t, Vl const &want0, bool nanOk) {
  string o; Vl want = want0; bool ok;
  Value v = e->toValue();
  if (nanOk) { if (!v.isKnown()) want = UN(); }   // an undefined result may be shown as NaN or as unknown, but consistently
  if (e->isKnown() != want.known) o += string("isKnown() gives ") + (want.known ? "false" : "true") + "\n";
  Vl got = fromReal(t, v, ok);
  if (!ok) o += "toValue() has type " + string(valueTypeName(v.valueType())) + "\n";
  else if (!same(t, got, want)) o += "toValue() gives " + show(t, got) + "\n";
  switch (t) {
  case TB: o += one<Boolean>(e, t, want, "Boolean", [](bool b) { return B(b); }); break;
  case TI: { o += one<Integer>(e, t, want, "Integer", [](Integer b) { return I(b); }); Vl w = want; w.r = (double)w.i; o += one<Real>(e, TR, w, "Real", [](Real b) { return R(b); }); break; }
  case TR: case TD: case TU: o += one<Real>(e, t, want, "Real", [](Real b) { return R(b); }); break;
  case TS: { o += one<String>(e, t, want, "String", [](String const &b) { return S(b); }); String const *p = nullptr; bool k = e->getValuePointer(p); if (k != want.known || (k && *p != want.s)) o += "getValuePointer(String) gives " + (k ? *p : string("?")) + "\n"; break; }
  case TNS: o += one<NodeState>(e, t, want, "NodeState", [](NodeState s) { return I(s); }); break;
  case TNO: o += one<NodeOutcome>(e, t, want, "NodeOutcome", [](NodeOutcome s) { return I(s); }); break;
  case TNF: o += one<FailureType>(e, t, want, "FailureType", [](FailureType s) { return I(s); }); break;
  case TCH: o += one<CommandHandleValue>(e, t, want, "CommandHandleValue", [](CommandHandleValue s) { return I(s); }); break;
  default: { Array const *p = nullptr; bool k = e->getValuePointer(p); if (k != want.known) o += "getValuePointer(Array) known differs\n"; else if (k) { Vl g = fromReal(t, Value(*p), ok); if (!ok || !same(t, g, want)) o += "getValuePointer(Array) gives " + show(t, g) + "\n"; } }
  }
  if (!want.known) { string s = e->valueString(); if (s != "[unknown_value]" && s != "UNKNOWN" && s.find("nknown") == string::npos) o += "printed value is " + s + "\n"; }
  else { std::ostringstream w; w << v; string s = e->valueString(); if (s != w.str()) o += "printed value is " + s + ", toValue prints " + w.str() + "\n"; }
  return o;
}
