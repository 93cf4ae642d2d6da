// Drives the real executive (PlexilExec + node classes + intfc) in lock step with the reference.
#pragma once
#include "model.hh"
#include "../common/harness.hh"
namespace X {
using namespace M; using std::string; using std::vector;
enum EvK { E_LK, E_HANDLE, E_RET, E_ABT, E_UACK, E_ADD };
struct Ev { int k, a, b; };
typedef vector<Ev> Batch;
string batchStr(Batch const &);
Batch parseBatch(string const &);
struct Scenario {
  System sys; int depth = 3;                 // rounds after the initial one
  vector<Batch> prefix;                      // fixed opening
  std::function<void(Ref &, int depth, vector<Batch> &)> menu; // null: default menu
  // default menu options
  bool pairs = false;                        // also change two lookups at once
  vector<int> handles{H_SUCCESS}; vector<V> rets; bool lateHandles = false, abortFalse = false, updFalse = false, lateAcks = false;
  bool handleOnce = true;                    // offer a handle value only if it differs from the current one
  bool iterKey = true;                       // distinguish iteration counts in the visited set
  uint64_t cap = 200000;                     // executions per scenario
  bool cleanup = false;                      // check that nothing is left behind at the end
};
struct FamilyDef { string name; std::function<size_t()> count; std::function<Scenario(size_t)> make; };
void defaultMenu(Scenario const &, Ref &, vector<Batch> &);
int mainFamilies(int argc, char **argv, vector<FamilyDef> const &);
}
