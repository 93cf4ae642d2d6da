// Recording of events and the depth-first search over schedules, shared by the programs that use the runtime.
#pragma once
#include "harness.hh"
#include "rt.hh"
#include <malloc.h>
#include <iostream>
using H::string; using H::vector;
#define NOSAN __attribute__((no_sanitize("thread"), noinline))
namespace {
// ---- record of what happened, invisible to the race detector ----
struct Log { int n; char what[512][24]; } g_log;
NOSAN void lg(char const *w) { if (g_log.n < 512) { int i = 0; for (; w[i] && i < 23; ++i) g_log.what[g_log.n][i] = w[i]; g_log.what[g_log.n][i] = 0; g_log.n++; } }
NOSAN int count(char const *w) { int c = 0; for (int i = 0; i < g_log.n; ++i) { int j = 0; while (w[j] && w[j] == g_log.what[i][j]) ++j; if (w[j] == g_log.what[i][j]) c++; } return c; }
NOSAN int index(char const *w) { for (int i = 0; i < g_log.n; ++i) { int j = 0; while (w[j] && w[j] == g_log.what[i][j]) ++j; if (w[j] == g_log.what[i][j]) return i; } return -1; }
NOSAN string all() { string o; for (int i = 0; i < g_log.n; ++i) { o += g_log.what[i]; o += ' '; } return o; }
void expect(bool ok, string const &what) { if (!ok) R::fail(("\n  " + what + "\n  events so far: " + all()).c_str()); }
void times(char const *w, int n, string const &when) { if (count(w) != n) R::fail(("\n  " + when + ": '" + w + "' happened " + std::to_string(count(w)) + " times instead of " + std::to_string(n) + "\n  events so far: " + all()).c_str()); }

struct Scenario { char const *name; void (*body)(); int quick, thorough; }; // preemption bounds
char const *SN[] = {"ok", "deadlock", "misuse of a synchronisation object", "data race", "does not end", "internal: the schedule cannot be repeated", "violation"};
bool g_dirty = false, g_split = true; // g_split: the first level of the search is divided over the shards
Scenario const *g_sc; 
void bodyWrap() { g_sc->body(); }
string digits(vector<uint8_t> const &p) { string s; for (uint8_t x : p) s += char('0' + x); return s; }
R::Status one(Scenario const &s, vector<uint8_t> const &p) {
  static int nq; std::ostringstream q; std::streambuf *a = std::cout.rdbuf(q.rdbuf()), *b = std::cerr.rdbuf(q.rdbuf());
  g_log.n = 0; g_sc = &s; H::cell(string("S"), string(s.name) + "\n" + digits(p)); H::st.executions++;
  R::Status r = R::run(bodyWrap, p.data(), p.size());
  std::cout.rdbuf(a); std::cerr.rdbuf(b);
  size_t n; R::trace(n); H::st.transitions += n; H::st.traces++;
  if (r != R::OK) {
    g_dirty = true; string rep = R::report(), key = string(s.name) + ": " + SN[r]; if (r == R::RACE) key += string(" ") + R::raceKey(); else key += rep.substr(0, 120);
    for (char &c : key) if (c == '\n') c = ' ';
    if (r == R::DIVERGED) H::note("scenario " + string(s.name) + ": " + rep); else
    H::violate(key, "scenario " + string(s.name) + ": " + SN[r] + ": " + rep + "\nprinted: " + q.str().substr(0, 1500), string(s.name) + "\n" + digits(p));
  } else H::distinct(string(s.name) + all());
  return r;
}
void rec(Scenario const &s, vector<uint8_t> const &prefix, int budget, int depth, uint64_t path) {
  if (g_dirty || H::st.capped) return; if (H::timeUp()) { H::st.capped = true; return; }
  if (one(s, prefix) != R::OK) return;
  size_t n; R::Pt const *tr = R::trace(n); vector<R::Pt> t(tr, tr + n); H::st.states++;
  vector<uint8_t> p(prefix);
  for (size_t i = prefix.size(); i < n; ++i) {
    for (int alt = 1; alt < t[i].n; ++alt) {
      int b = budget - t[i].cost; if (b < 0) continue;
      uint64_t np = path * 1000003 + i * 8 + alt + 1;
      if (g_split && depth == 1 && !H::mine(np)) continue;
      p.push_back(alt); rec(s, p, b, depth + 1, np); p.pop_back(); if (g_dirty || H::st.capped) return;
    }
    p.push_back(t[i].pick);
  }
}
void prepare() { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_ARENA_MAX, 1); }
}
