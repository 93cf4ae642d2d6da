// Sequential behaviour of both input queues: every sequence of operations, entries recycled.
#include "harness.hh"
#include "CommandHandle.hh"
#include "InputQueue.hh"
#include "QueueEntry.hh"
#include "SerializedInputQueue.hh"
#include "SimpleInputQueue.hh"
#include "State.hh"
#include "Value.hh"
#include <deque>
#include <memory>
using namespace PLEXIL; using H::string; using H::vector;
namespace {
string vs(Value const &v) { std::ostringstream o; o << v.valueType() << ":" << v; return o.str(); }
int const NK = 16;
// what goes in, and what must come out
string fill(QueueEntry *e, int k, int n) {
  std::ostringstream w; void *p = (void *)(long)(0x1000 + 16 * n); string h = "h" + std::to_string(n);
  switch (k) {
  case 0: { State s("x", {Value((Integer)n)}); Value v((Integer)n); e->initForLookup(s, v); w << Q_LOOKUP << " " << s << " " << vs(v); break; }
  case 1: { State s(h); Value v((Real)n); e->initForLookup(s, Value(v)); w << Q_LOOKUP << " " << s << " " << vs(v); break; }
  case 2: { State s("y"); Value v(h); e->initForLookup(State(s), v); w << Q_LOOKUP << " " << s << " " << vs(v); break; }
  case 3: { State s(h); Value v; e->initForLookup(State(s), Value(v)); w << Q_LOOKUP << " " << s << " " << vs(v); break; }
  case 4: e->initForCommandAck((Command *)p, (CommandHandleValue)(COMMAND_ACCEPTED + n % 4)); w << Q_COMMAND_ACK << " " << p << " " << vs(Value((CommandHandleValue)(COMMAND_ACCEPTED + n % 4))); break;
  case 5: { Value v(h); e->initForCommandReturn((Command *)p, v); w << Q_COMMAND_RETURN << " " << p << " " << vs(v); break; }
  case 6: { Value v((Boolean)(n & 1)); e->initForCommandReturn((Command *)p, Value(v)); w << Q_COMMAND_RETURN << " " << p << " " << vs(v); break; }
  case 7: e->initForCommandReturn((Command *)p, Value()); w << Q_COMMAND_RETURN << " " << p << " " << vs(Value()); break;
  case 8: e->initForCommandAbort((Command *)p, n & 1); w << Q_COMMAND_ABORT << " " << p << " " << vs(Value((Boolean)(n & 1))); break;
  case 9: e->initForUpdateAck((Update *)p, !(n & 1)); w << Q_UPDATE_ACK << " " << p << " " << vs(Value((Boolean) !(n & 1))); break;
  case 10: e->initForAddPlan((NodeImpl *)p); w << Q_ADD_PLAN << " " << p; break;
  case 11: e->initForReceiveMessage((Message *)p); w << Q_RECEIVE_MSG << " " << p; break;
  case 12: e->initForAcceptMessage((Message *)p, h); w << Q_ACCEPT_MSG << " " << p << " " << vs(Value(h)); break;
  case 13: e->initForReleaseMessageHandle(h); w << Q_RELEASE_MSG_HANDLE << " " << vs(Value(h)); break;
  case 14: e->initForMessageQueueEmpty(); w << Q_MSG_QUEUE_EMPTY; break;
  default: e->initForMark(n + 1); w << Q_MARK << " " << n + 1; break;
  }
  return w.str();
}
string content(QueueEntry *e) {
  std::ostringstream w; w << e->type;
  switch (e->type) {
  case Q_LOOKUP: if (e->state) w << " " << *e->state; else w << " no state"; w << " " << vs(e->value); break;
  case Q_COMMAND_ACK: case Q_COMMAND_RETURN: case Q_COMMAND_ABORT: w << " " << (void *)e->command << " " << vs(e->value); break;
  case Q_UPDATE_ACK: w << " " << (void *)e->update << " " << vs(e->value); break;
  case Q_ADD_PLAN: w << " " << (void *)e->plan; break;
  case Q_RECEIVE_MSG: w << " " << (void *)e->message; break;
  case Q_ACCEPT_MSG: w << " " << (void *)e->message << " " << vs(e->value); break;
  case Q_RELEASE_MSG_HANDLE: w << " " << vs(e->value); break;
  case Q_MARK: w << " " << e->sequence; break;
  default: break;
  }
  return w.str();
}
// operations: 0..15 put an entry of that kind; 16 get and release; 17 get and keep; 18 release the oldest kept; 19 allocate ahead; 20 flush
void runQS(vector<int> const &c) {
  string body; for (int x : c) body += std::to_string(x) + " "; H::cell("QS", body); H::st.executions++;
  std::unique_ptr<InputQueue> q; if (c[0]) q.reset(new SerializedInputQueue); else q.reset(new SimpleInputQueue);
  std::deque<string> m; std::deque<std::pair<QueueEntry *, string>> kept; std::deque<QueueEntry *> spare; string bad; int n = 0;
  auto chk = [&](string const &w, string const &g, string const &e) { H::st.evaluations++; if (g != e && bad.empty()) bad = w + ": got " + g + ", expected " + e; };
  for (size_t i = 1; i < c.size() && bad.empty(); ++i) {
    int o = c[i]; H::st.transitions++;
    if (o < NK) { QueueEntry *e; if (!spare.empty()) { e = spare.front(); spare.pop_front(); } else e = q->allocate(); if (!e) { bad = "allocate gave nothing"; break; } for (auto &k : kept) if (k.first == e) bad = "allocate gave an entry still in use"; m.push_back(fill(e, o, n++)); q->put(e); }
    else if (o == 19) spare.push_back(q->allocate());
    else if (o == 20) { q->flush(); m.clear(); }
    else if (o == 18) { if (!kept.empty()) { chk("kept entry", content(kept.front().first), kept.front().second); q->release(kept.front().first); kept.pop_front(); } }
    else { QueueEntry *e = q->get(); chk("get", e ? content(e) : "nothing", m.empty() ? "nothing" : m.front()); if (e) { string s = m.empty() ? "" : m.front(); if (!m.empty()) m.pop_front(); if (o == 17) kept.push_back({e, s}); else q->release(e); } }
    chk("isEmpty", q->isEmpty() ? "true" : "false", m.empty() ? "true" : "false");
  }
  while (bad.empty()) { QueueEntry *e = q->get(); chk("drain", e ? content(e) : "nothing", m.empty() ? "nothing" : m.front()); if (!e) break; m.pop_front(); q->release(e); }
  for (auto &k : kept) { if (bad.empty()) chk("kept entry", content(k.first), k.second); q->release(k.first); }
  for (auto *e : spare) q->release(e);
  if (!bad.empty()) H::violate("QS " + bad.substr(0, bad.find(':')), (c[0] ? "SerializedInputQueue " : "SimpleInputQueue ") + body + bad, body); else { H::sample(body); H::distinct(body); }
}
void exploreQS() {
  uint64_t i = 0; vector<int> c = {0};
  vector<vector<int>> al = {{0, 2, 5, 12, 15, 16, 17, 18, 19, 20}, {}}; for (int k = 0; k <= 20; ++k) al[1].push_back(k);
  std::function<void(int, vector<int> const &)> rec = [&](int left, vector<int> const &a) {
    if (H::full()) return;
    if (!left) { if (!H::mine(i++)) return; if (H::timeUp()) { H::st.capped = true; return; } runQS(c); return; }
    for (int k : a) { c.push_back(k); rec(left - 1, a); c.pop_back(); } };
  for (int q = 0; q < 2; ++q) { c[0] = q; rec(H::args.thorough ? 6 : 5, al[0]); rec(H::args.thorough ? 5 : 4, al[1]); }
}
}
void appExtra(vector<H::Family> &f) { f.push_back({"QS", exploreQS, [](string const &b) { std::stringstream s(b); vector<int> v; int x; while (s >> x) v.push_back(x); runQS(v); }}); }
