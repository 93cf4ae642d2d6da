#include "harness.hh"
#include <chrono>
using namespace std;
namespace H {
Args args; Stats st;
static char *g_cell; static const size_t CELL = 1 << 16;
static string g_fam;
static chrono::steady_clock::time_point t0 = chrono::steady_clock::now();
void init(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--family") { stringstream s(nx()); string f; while (getline(s, f, ',')) args.families.push_back(f); }
    else if (a == "--tier") args.thorough = nx() == "thorough";
    else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &args.shard, &args.nshards); }
    else if (a == "--out") args.out = nx();
    else if (a == "--cell") args.cell = nx();
    else if (a == "--replay") args.replay = nx();
    else if (a == "--budget") args.budget = atof(argv[++i]);
    else if (a == "-v") args.verbose = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); exit(64); }
  }
  if (!args.cell.empty()) {
    int fd = open(args.cell.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (ftruncate(fd, CELL)) exit(64);
    g_cell = (char *)mmap(nullptr, CELL, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (g_cell == MAP_FAILED) exit(64);
    close(fd);
  }
}
void cell(string const &family, string const &what) {
  if (!g_cell) return;
  string s = family + "\n" + what;
  uint64_t *ctr = (uint64_t *)g_cell; ++*ctr;
  uint32_t *len = (uint32_t *)(g_cell + 8); *len = 0;
  size_t n = min(s.size(), CELL - 16);
  memcpy(g_cell + 16, s.data(), n); *len = n;
}
void violate(string const &key, string const &text, string const &replay) {
  if (args.verbose || !args.replay.empty()) cout << "MISMATCH key=" << key << "\n" << text << endl;
  for (auto &v : st.viol) if (v.key == key) { st.counters["repeated_violation_keys"]++; return; }
  st.viol.push_back({key, text, g_fam + "\n" + replay});
}
void note(string const &s) { for (auto &n : st.notes) if (n == s) return; if (st.notes.size() < 50) st.notes.push_back(s); }
void sample(string const &s) { if (st.samples.size() < 6) st.samples.push_back(s); }
uint64_t hash(string const &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ^ (h >> 31); }
void distinct(string const &s) { if (st.distinct.size() < 4000000) st.distinct.insert(hash(s)); }
bool full() { return st.viol.size() >= 60; }
bool mine(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; x ^= x >> 31; return x % args.nshards == (uint64_t)args.shard; }
bool timeUp() { return chrono::duration<double>(chrono::steady_clock::now() - t0).count() > args.budget; }
static string esc(string const &s) {
  string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
int finish() {
  if (args.out.empty()) {
    cerr << "executions " << st.executions << " states " << st.states << " transitions " << st.transitions << " evaluations " << st.evaluations
         << " distinct " << st.distinct.size() << " skipped " << st.skipped << " dedup " << st.dedup << " violations " << st.viol.size() << (st.capped ? " CAPPED" : "") << endl;
    for (auto &c : st.counters) cerr << "  " << c.first << " " << c.second << endl;
    for (auto &n : st.notes) cerr << "  note: " << n << endl;
    return st.viol.empty() ? 0 : 3;
  }
  string tmp = args.out + ".tmp"; { ofstream o(tmp);
  o << "{\"executions\":" << st.executions << ",\"states\":" << st.states << ",\"transitions\":" << st.transitions << ",\"evaluations\":" << st.evaluations
    << ",\"traces\":" << st.traces << ",\"skipped\":" << st.skipped << ",\"dedup\":" << st.dedup << ",\"distinct\":" << st.distinct.size() << ",\"capped\":" << (st.capped ? "true" : "false");
  o << ",\"counters\":{"; bool f = true; for (auto &c : st.counters) { o << (f ? "" : ",") << esc(c.first) << ":" << c.second; f = false; } o << "}";
  o << ",\"notes\":["; f = true; for (auto &c : st.notes) { o << (f ? "" : ",") << esc(c); f = false; } o << "]";
  o << ",\"samples\":["; f = true; for (auto &c : st.samples) { o << (f ? "" : ",") << esc(c); f = false; } o << "]";
  o << ",\"violations\":["; f = true; for (auto &v : st.viol) { o << (f ? "" : ",") << "{\"key\":" << esc(v.key) << ",\"text\":" << esc(v.text) << ",\"replay\":" << esc(v.replay) << "}"; f = false; } o << "]}\n"; }
  if (st.distinct.size() <= 200000) { ofstream o(args.out + ".distinct", ios::binary); for (uint64_t h : st.distinct) o.write((char *)&h, 8); }
  rename(tmp.c_str(), args.out.c_str());
  return 0;
}
int run(int argc, char **argv, vector<Family> const &fams) {
  init(argc, argv);
  if (!args.replay.empty()) {
    ifstream in(args.replay); string fam; getline(in, fam); stringstream b; b << in.rdbuf();
    for (auto &f : fams) if (f.name == fam) { g_fam = fam; f.replay(b.str()); cout << (st.viol.empty() ? "REPLAY: no violation" : "REPLAY: violation reproduced") << endl; fflush(stdout); _exit(st.viol.empty() ? 0 : 3); }
    cerr << "unknown family " << fam << endl; return 64;
  }
  for (auto &n : args.families) {
    bool ok = false;
    for (auto &f : fams) if (f.name == n) { ok = true; g_fam = n; f.explore(); }
    if (!ok) { cerr << "unknown family " << n << endl; return 64; }
  }
  int r = finish(); fflush(stdout); _exit(r);
}
}
