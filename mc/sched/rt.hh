// Controlled scheduler: all threads of the program under test run as fibers of one OS thread; every
// synchronisation operation and atomic access is a scheduling point; plain memory accesses (reported by the
// compiler's thread instrumentation) feed a vector clock race detector.
#pragma once
#include <cstddef>
#include <cstdint>
namespace R {
struct Pt { uint8_t n, pick, cost; };                 // options at a scheduling point, choice made, 1 if leaving the first option is a preemption
enum Status { OK = 0, DEADLOCK, MISUSE, RACE, STEPS, DIVERGED, ABORTED };
// Run body() as the main thread under the choices given (then default choices); everything it spawns must finish.
Status run(void (*body)(), uint8_t const *prefix, size_t nprefix);
Pt const *trace(size_t &n);
char const *report();                                 // what went wrong, in words
char const *raceKey();
uint64_t accesses();
int switches();
void point();                                         // a scheduling point of the harness itself
bool active();
int self();
void fail(char const *what);                          // harness detected violation: stop here
bool idleRest();                                      // blocks until nothing else can run (time passes)
uint64_t now();                                       // virtual clock, in ns
uint64_t epoch();                                     // where it starts
void tick(uint64_t t);                                // the clock reaches t: timers due go off, nobody runs yet
void advanceTo(uint64_t t);                           // the clock reaches t, everything settles after each timer
bool fireEarly();                                     // the next timer goes off although its time has not come
void setDrift(uint64_t ns);                          // every look at the clock takes that long
int armed();
void setFairLimit(int n);
extern bool collectRaces;
}
