// Shared plumbing of the checkers: sharding, progress cell, statistics, violation records.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
namespace H {
using std::string; using std::vector;
struct Violation { string key, text, replay; };
struct Stats {
  uint64_t executions = 0, states = 0, transitions = 0, evaluations = 0, traces = 0, skipped = 0, dedup = 0;
  bool capped = false; vector<string> notes; vector<string> samples; vector<Violation> viol;
  std::unordered_set<uint64_t> distinct;
  std::map<string, uint64_t> counters;
};
struct Args { vector<string> families; bool thorough = false; int shard = 0, nshards = 1; string out, cell, replay; bool verbose = false; double budget = 1e9; };
extern Args args; extern Stats st;
void init(int argc, char **argv);
// Mark what is being executed now, so that a crash or hang can be attributed and replayed.
void cell(string const &family, string const &what);
void violate(string const &key, string const &text, string const &replay); // replay: body after the family line
void note(string const &s);
void sample(string const &s);
void distinct(string const &s);
bool full();                 // enough violations collected: stop
bool timeUp();
bool mine(uint64_t i);         // does case i belong to this shard?
uint64_t hash(string const &s);
int finish();
struct Family { string name; std::function<void()> explore; std::function<void(string const &)> replay; };
int run(int argc, char **argv, vector<Family> const &fams);
}
