// Not instrumented; avoids library templates so that no uninstrumented copy of one ends up in the program.
#include "rt.hh"
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <new>
extern "C" char __libc_single_threaded;
namespace R {
bool collectRaces = true;
static const int MAXF = 8; static const size_t STACK = 512 * 1024; static const int MAXPT = 60000;
struct VC { uint32_t c[MAXF]; };
enum St { FREE, READY, BLOCKED, SLEEPING, DONE };
struct Fiber { St st; void *sp; char *stk; void *(*fn)(void *); void *arg; VC vc; void *waitOn; bool joined, detached; char eh[32]; int consec; int quiet; uint64_t wake; };
static Fiber F[MAXF]; static int nF, cur; static bool on = false;
static void *schedSp;
struct Sync { void *addr; uint32_t gen; VC vc; int owner; int count; bool tried; };   // mutex: owner+1; semaphore: count
static const int NS = 1 << 14; static Sync *sync_; static uint32_t gen = 0;
static Pt tr[MAXPT]; static size_t ntr; static uint8_t const *pre; static size_t npre; static Status result; static char rep[4000]; static char rkey[600];
static uint64_t nacc; static int nsw; static int fair = 400; static const uint64_t EPOCH = 1700000000ull * 1000000000ull; static uint64_t now_ = EPOCH;
struct VT { bool used, armed, sig; uint64_t at, every; void (*fn)(union sigval); union sigval v; VC vc; }; static const int MAXT = 8; static VT T[MAXT]; static void (*alrm)(int); static bool alrmBlocked, alrmPend; static int otherSig; static uint64_t drift_;
// shadow
static const uint64_t RANGE = 1ull << 31; struct Cell { uint32_t w, r; }; static Cell *shadow; static uint32_t epochGen = 0; static void **pcW, **pcR;
uint64_t accesses() { return nacc; } int switches() { return nsw; } bool active() { return on; } int self() { return cur; } void setFairLimit(int n) { fair = n; }
char const *report() { return rep; } char const *raceKey() { return rkey; } Pt const *trace(size_t &n) { n = ntr; return tr; }

asm(R"(
.text
.globl rt_switch
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
extern "C" void rt_switch(void **save, void *to);
static void ehSave(int f) { memcpy(F[f].eh, __cxxabiv1::__cxa_get_globals(), 16); }
static void ehLoad(int f) { memcpy(__cxxabiv1::__cxa_get_globals(), F[f].eh, 16); }

static void fmt(char const *f, ...) { va_list a; va_start(a, f); size_t l = strlen(rep); vsnprintf(rep + l, sizeof rep - l, f, a); va_end(a); }
// leave the exploration of this execution for good: back to run()
[[noreturn]] static void stop(Status s) { result = s; on = false; void *dummy; rt_switch(&dummy, schedSp); abort(); }
void fail(char const *w) { fmt("%s", w); stop(ABORTED); }

static Sync *S(void *a) {
  size_t h = ((size_t)a >> 3) * 0x9e3779b97f4a7c15ull >> 50;
  for (;; h = (h + 1) & (NS - 1)) { Sync &s = sync_[h]; if (s.gen != gen) { memset(&s, 0, sizeof s); s.gen = gen; s.addr = a; return &s; } if (s.addr == a) return &s; }
}
static void join(VC &a, VC const &b) { for (int i = 0; i < MAXF; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acq(Sync *s) { join(F[cur].vc, s->vc); }
static void rel(Sync *s) { join(s->vc, F[cur].vc); F[cur].vc.c[cur]++; }

static bool timerDue(uint64_t before);
// choose the next fiber to run and switch to it
static void schedule() {
  int opt[MAXF], n = 0; bool curOk = F[cur].st == READY;
  if (curOk) opt[n++] = cur;
  for (int i = 0; i < nF; ++i) if (i != cur && F[i].st == READY) opt[n++] = i;
  int pick = 0;
  if (n == 0) { // time passes: the earliest sleeper wakes
    int s = -1; for (int i = 0; i < nF; ++i) if (F[i].st == SLEEPING && (s < 0 || F[i].wake < F[s].wake)) s = i;
    if (timerDue(s >= 0 ? F[s].wake : ~0ull)) { schedule(); return; }
    if (s >= 0) { F[s].st = READY; if (F[s].wake > now_) now_ = F[s].wake; opt[n++] = s; }
    else {
      fmt("deadlock:"); for (int i = 0; i < nF; ++i) if (F[i].st != DONE) fmt(" thread %d blocked", i);
      stop(DEADLOCK);
    }
  } else if (n > 1 || ntr < npre) {
    if (n > 1) {
      if (curOk && F[cur].consec > fair) { // unfair spin: let the others go on
        F[cur].consec = 0; int best = 1; for (int i = 1; i < n; ++i) if (opt[i] > cur) { best = i; break; } pick = best;
      } else {
        if (ntr >= (size_t)MAXPT) { fmt("too many scheduling points"); stop(STEPS); }
        if (ntr < npre) pick = pre[ntr]; 
        if (pick >= n) { fmt("choice %zu: %d of %d", ntr, pick, n); stop(DIVERGED); }
        tr[ntr].n = n; tr[ntr].pick = pick; tr[ntr].cost = curOk; ntr++;
      }
    }
  }
  int to = opt[pick];
  if (to == cur) { F[cur].consec++; return; }
  nsw++; F[to].consec = 0; ehSave(cur); int from = cur; cur = to; ehLoad(to); int e = errno; rt_switch(&F[from].sp, F[to].sp); errno = e;
}
static int g_steps;
void point() { if (!on || F[cur].quiet) return; if (++g_steps > 400000) { fmt("execution does not end"); stop(STEPS); } schedule(); }
static void block(void *on_) { F[cur].st = BLOCKED; F[cur].waitOn = on_; schedule(); }
static void wakeAll(void *a) { for (int i = 0; i < nF; ++i) if ((F[i].st == BLOCKED || F[i].st == SLEEPING) && F[i].waitOn == a) { F[i].st = READY; F[i].waitOn = nullptr; } }

static void finishFiber() {
  Fiber &f = F[cur]; f.st = DONE; wakeAll(&f);
  Sync *s = S(&f); rel(s);
  bool all = true; for (int i = 0; i < nF; ++i) if (F[i].st != DONE) all = false;
  if (all) stop(OK);
  if (cur == 0) { fmt("threads left running at the end:"); for (int i = 0; i < nF; ++i) if (F[i].st != DONE) fmt(" %d", i); }
  schedule(); abort();
}
static void entry() {
  Fiber &f = F[cur];
  try { f.fn(f.arg); } catch (std::exception &e) { fmt("uncaught exception in thread %d: %s", cur, e.what()); stop(MISUSE); } catch (...) { fmt("uncaught exception in thread %d", cur); stop(MISUSE); }
  finishFiber();
}
static int spawn(void *(*fn)(void *), void *arg, VC const *from = nullptr, bool reuse = false) {
  int id = -1; VC old = {}; if (reuse) for (int i = 1; i < nF && id < 0; ++i) if (F[i].st == DONE && F[i].joined) { id = i; old = F[i].vc; }
  if (id < 0) { if (nF >= MAXF) { fmt("too many threads"); stop(STEPS); } id = nF++; }
  Fiber &f = F[id]; char *k = f.stk; memset(&f, 0, sizeof f); f.stk = k; f.vc = old;
  if (!f.stk) f.stk = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  f.st = READY; f.fn = fn; f.arg = arg;
  uint64_t *sp = (uint64_t *)(f.stk + STACK - 64); *--sp = 0; *--sp = (uint64_t)&entry; for (int i = 0; i < 6; ++i) *--sp = 0; f.sp = sp;
  if (from) join(f.vc, *from); else if (id) { join(f.vc, F[cur].vc); F[cur].vc.c[cur]++; }
  f.vc.c[id]++; return id;
}
static void findGuards();
Status run(void (*body)(), uint8_t const *prefix, size_t nprefix) {
  if (!sync_) {
    sync_ = (Sync *)mmap(nullptr, NS * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shadow = (Cell *)mmap(nullptr, RANGE * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) { perror("shadow"); _exit(64); }
    findGuards(); __libc_single_threaded = 0;
  }
  gen++; epochGen = (epochGen + 1) & 0xfff; if (epochGen == 0) { epochGen = 1; madvise(shadow, RANGE * sizeof(Cell), MADV_DONTNEED); }
  rep[0] = rkey[0] = 0; ntr = 0; pre = prefix; npre = nprefix; nF = 0; cur = 0; nsw = 0; result = OK; g_steps = 0; now_ = EPOCH; memset(T, 0, sizeof T); alrm = nullptr; alrmBlocked = alrmPend = false; otherSig = 0; drift_ = 0;
  char eh[16]; memcpy(eh, __cxxabiv1::__cxa_get_globals(), 16);
  struct T { static void *go(void *b) { ((void (*)())b)(); return nullptr; } };
  spawn(&T::go, (void *)body); memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
  on = true; rt_switch(&schedSp, F[0].sp); on = false;
  memcpy(__cxxabiv1::__cxa_get_globals(), eh, 16);
  return result;
}
bool idleRest() { if (!on) return false; F[cur].st = SLEEPING; F[cur].wake = now_; schedule(); return true; }

// ---- virtual time ----
uint64_t now() { return now_; }
uint64_t epoch() { return EPOCH; }
static void *timerThread(void *a) { VT t = *(VT *)a; free(a); if (t.sig) alrm(SIGALRM); else t.fn(t.v); return nullptr; }
static void fire(VT &t, bool here = true) { // the timer goes off: a thread of its own runs the notification; a signal interrupts the current thread
  if (t.every) t.at += t.every; else t.armed = false;
  if (t.sig && alrmBlocked) { alrmPend = true; wakeAll(&alrmPend); return; } // for a thread in sigwait
  if (t.sig && !alrm) { fmt("SIGALRM while its disposition is the default"); stop(MISUSE); }
  if (t.sig && here) { F[cur].quiet++; alrm(SIGALRM); F[cur].quiet--; return; }
  VT *c = (VT *)malloc(sizeof t); *c = t; int id = spawn(&timerThread, c, &t.vc, true); F[id].joined = true;
}
static VT *earliest() { VT *b = nullptr; for (VT &t : T) if (t.used && t.armed && (!b || t.at < b->at)) b = &t; return b; }
static bool timerDue(uint64_t before) { VT *b = earliest(); if (!b || b->at > before || ++g_steps > 400000) return false; if (b->at > now_) now_ = b->at; fire(*b, false); return true; }
int armed() { int n = 0; for (VT &t : T) n += t.used && t.armed; return n; }
void tick(uint64_t t) { if (t > now_) now_ = t; VT *b; int n = 0; while ((b = earliest()) && b->at <= now_ && n++ < 4) fire(*b); } // no one else runs in between
void advanceTo(uint64_t t) { VT *b; idleRest(); while ((b = earliest()) && b->at <= t) { if (b->at > now_) now_ = b->at; fire(*b); idleRest(); } if (t > now_) now_ = t; }
void setDrift(uint64_t ns) { drift_ = ns; }
static void driftOn() { if (!drift_) return; now_ += drift_; VT *b; while ((b = earliest()) && b->at <= now_ && b->sig && alrmBlocked) fire(*b); }
bool fireEarly() { VT *b = earliest(); if (!b || b->every) return false; fire(*b); return true; }
static int arm(VT &t, uint64_t value, uint64_t every, bool abs) {
  point(); t.armed = value != 0; t.at = abs ? value : now_ + value; t.every = every; t.vc = F[cur].vc; F[cur].vc.c[cur]++;
  if (t.armed && t.at <= now_) fire(t);
  return 0; }

// The guards of function-local statics are read at every call: not interesting as scheduling points.
static uint64_t guards[4096]; static int nguards = -1;
static void findGuards() {
  nguards = 0; FILE *f = fopen("/proc/self/exe", "r"); if (!f) return;
  Elf64_Ehdr h; if (fread(&h, sizeof h, 1, f) != 1) { fclose(f); return; }
  Elf64_Shdr *sh = (Elf64_Shdr *)malloc(h.e_shnum * sizeof *sh); fseek(f, h.e_shoff, SEEK_SET); if (fread(sh, sizeof *sh, h.e_shnum, f) != h.e_shnum) { fclose(f); return; }
  for (int i = 0; i < h.e_shnum; ++i) if (sh[i].sh_type == SHT_SYMTAB) {
    Elf64_Sym *sy = (Elf64_Sym *)malloc(sh[i].sh_size); char *st = (char *)malloc(sh[sh[i].sh_link].sh_size);
    fseek(f, sh[i].sh_offset, SEEK_SET); size_t ok = fread(sy, sh[i].sh_size, 1, f); fseek(f, sh[sh[i].sh_link].sh_offset, SEEK_SET); ok &= fread(st, sh[sh[i].sh_link].sh_size, 1, f);
    if (ok) for (size_t k = 0; k < sh[i].sh_size / sizeof *sy; ++k) if (!strncmp(st + sy[k].st_name, "_ZGV", 4) && nguards < 4096) guards[nguards++] = sy[k].st_value;
    free(sy); free(st);
  }
  free(sh); fclose(f);
  qsort(guards, nguards, 8, [](void const *a, void const *b) -> int { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; });
}
static bool isGuard(void *p) { int l = 0, r = nguards; while (l < r) { int m = (l + r) / 2; if (guards[m] < (uint64_t)p) l = m + 1; else r = m; } return l < nguards && guards[l] == (uint64_t)p; }

// ---- race detection ----
static inline uint32_t ep() { return epochGen << 20 | (uint32_t)cur << 17 | (F[cur].vc.c[cur] & 0x1ffff); }
static inline bool ordered(uint32_t e) { // e belongs to this execution and is not ordered before the current fiber?
  if (e >> 20 != epochGen || !e) return true; int t = e >> 17 & 7; return t == cur || (e & 0x1ffff) <= F[cur].vc.c[t]; }
static void *lastPc[1 << 12]; // by epoch hash: approximate site of the earlier access
static char const *where(void *pc, char *out, size_t n) {
  char cmd[256], self_[200]; ssize_t l = readlink("/proc/self/exe", self_, sizeof self_ - 1); self_[l < 0 ? 0 : l] = 0;
  snprintf(cmd, sizeof cmd, "addr2line -Cfse %s %p 2>/dev/null", self_, (void *)((char *)pc - 1)); out[0] = 0;
  FILE *p = popen(cmd, "r"); if (!p) return out;
  char a[300] = "", b[200] = ""; if (fgets(a, sizeof a, p)) a[strcspn(a, "\n")] = 0; if (fgets(b, sizeof b, p)) b[strcspn(b, "\n")] = 0; pclose(p);
  snprintf(out, n, "%s (%s)", a, b); return out;
}
static uint32_t siteHash(uint64_t a) { return (uint32_t)((a >> 0) * 0x9e3779b1u) >> 20; }
static void race(char const *kind, uint64_t a, void *pc) {
  if ((shadow[a].w & 0xfffff) == (7u << 17 | 0x1ffff)) kind = "use of freed memory";
  void *old = lastPc[siteHash(a)]; on = false;
  char w1[600], w2[600]; where(pc, w1, sizeof w1); where(old, w2, sizeof w2);
  snprintf(rkey, sizeof rkey, "%.280s / %.280s", w1, w2);
  fmt("data race (%s) on %#lx: thread %d in %s, unordered with an access in %s", kind, (long)a, cur, w1, w2);
  on = true; stop(RACE);
}
static inline void rd(void *p, size_t n, void *pc) {
  if (!on || !collectRaces) return; uint64_t a = (uint64_t)p; if (a + n > RANGE) return; nacc++;
  uint32_t e = ep();
  for (size_t i = 0; i < n; ++i) { Cell &c = shadow[a + i]; if (c.r == e) continue; if (!ordered(c.w)) race("read after write", a + i, pc); if (ordered(c.r)) { c.r = e; } }
  lastPc[siteHash(a)] = pc;
}
static inline void wr(void *p, size_t n, void *pc) {
  if (!on || !collectRaces) return; uint64_t a = (uint64_t)p; if (a + n > RANGE) return; nacc++;
  uint32_t e = ep();
  for (size_t i = 0; i < n; ++i) { Cell &c = shadow[a + i]; if (c.w == e) continue; if (!ordered(c.w)) race("write after write", a + i, pc); if (!ordered(c.r)) race("write after read", a + i, pc); c.w = e; c.r = 0; }
  lastPc[siteHash(a)] = pc;
}
static const uint32_t FREED = 7u << 17 | 0x1ffff;
static void freed(void *p, size_t n, void *pc) { uint64_t a = (uint64_t)p; if (n > 256) n = 256; if (!shadow || !on || !collectRaces || !p || a + n > RANGE) return; wr(p, n, pc); uint32_t e = epochGen << 20 | FREED; for (size_t i = 0; i < n; ++i) { shadow[a + i].w = e; shadow[a + i].r = 0; } }
static void fresh(void *p, size_t n) { uint64_t a = (uint64_t)p; if (!shadow || !on || a + n > RANGE) return; memset(&shadow[a], 0, n * sizeof(Cell)); }
}
using namespace R;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { rd(p, n, PC); } void __tsan_write##n(void *p) { wr(p, n, PC); } \
  void __tsan_unaligned_read##n(void *p) { rd(p, n, PC); } void __tsan_unaligned_write##n(void *p) { wr(p, n, PC); } \
  void __tsan_volatile_read##n(void *p) { rd(p, n, PC); } void __tsan_volatile_write##n(void *p) { wr(p, n, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { rd(p, n, PC); } void __tsan_write_range(void *p, size_t n) { wr(p, n, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) wr(p, 8, PC); } void __tsan_vptr_read(void **p) { rd(p, 8, PC); }
static void at(void *p) { if (!on) return; if (!isGuard(p)) point(); Sync *s = S(p); acq(s); rel(s); }
#define AT(b, T) \
T __tsan_atomic##b##_load(T const volatile *p, int) { at((void *)p); return *p; } \
void __tsan_atomic##b##_store(T volatile *p, T v, int) { at((void *)p); *p = v; } \
T __tsan_atomic##b##_exchange(T volatile *p, T v, int) { at((void *)p); T o = *p; *p = v; return o; } \
T __tsan_atomic##b##_fetch_add(T volatile *p, T v, int) { at((void *)p); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(T volatile *p, T v, int) { at((void *)p); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(T volatile *p, T v, int) { at((void *)p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(T volatile *p, T v, int) { at((void *)p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(T volatile *p, T v, int) { at((void *)p); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##b##_compare_exchange_strong(T volatile *p, T *e, T v, int, int) { at((void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(T volatile *p, T *e, T v, int, int) { at((void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##b##_compare_exchange_val(T volatile *p, T e, T v, int, int) { at((void *)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// ---- interposed synchronisation ----
#define REAL(name) ((decltype(&name))({ static void *f; if (!f) f = dlsym(RTLD_NEXT, #name); f; }))
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
pthread_t pthread_self() { if (!on) return REAL(pthread_self)(); return (pthread_t)(0x1000 + cur); }
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on) return REAL(pthread_mutex_lock)(m);
  point(); Sync *s = S(m);
  if (s->owner == cur + 1 && recursive(m)) { s->count++; return 0; }
  while (s->owner) { if (s->owner == cur + 1) { fmt("thread %d locks a mutex it already holds", cur); stop(DEADLOCK); } block(m); s = S(m); }
  s->owner = cur + 1; acq(s); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on) return REAL(pthread_mutex_trylock)(m);
  point(); Sync *s = S(m); if (s->owner == cur + 1 && recursive(m)) { s->count++; return 0; } s->tried = true; if (s->owner) return EBUSY; s->owner = cur + 1; acq(s); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on) return REAL(pthread_mutex_unlock)(m);
  Sync *s = S(m); if (s->owner != cur + 1) { fmt("thread %d unlocks a mutex it does not hold", cur); stop(MISUSE); }
  if (s->count) { s->count--; return 0; }
  if (s->tried) point(); // others can see that it is held
  s = S(m); rel(s); s->owner = 0; wakeAll(m); return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on) return REAL(pthread_cond_wait)(c, m);
  point(); Sync *s = S(m); if (s->owner != cur + 1) { fmt("condition wait without the mutex"); stop(MISUSE); }
  rel(s); s->owner = 0; wakeAll(m); block(c);
  s = S(m); while (s->owner) { block(m); s = S(m); } s->owner = cur + 1; acq(s); return 0;
}
static int timedWait(pthread_cond_t *c, pthread_mutex_t *m) {
  point(); Sync *s = S(m); if (s->owner != cur + 1) { fmt("condition wait without the mutex"); stop(MISUSE); }
  rel(s); s->owner = 0; wakeAll(m); F[cur].waitOn = c; F[cur].st = SLEEPING; F[cur].wake = now_ + 1; schedule();
  bool timedOut = F[cur].waitOn == c; F[cur].waitOn = nullptr;
  s = S(m); while (s->owner) { block(m); s = S(m); } s->owner = cur + 1; acq(s); return timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!on) return REAL(pthread_cond_timedwait)(c, m, t); return timedWait(c, m); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!on) return REAL(pthread_cond_clockwait)(c, m, k, t); return timedWait(c, m); }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!on) return REAL(pthread_cond_signal)(c);
  point(); for (int i = 0; i < nF; ++i) if ((F[i].st == BLOCKED || F[i].st == SLEEPING) && F[i].waitOn == c) { F[i].st = READY; F[i].waitOn = nullptr; break; } return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on) return REAL(pthread_cond_broadcast)(c); point(); wakeAll(c); return 0; }
int sem_init(sem_t *s, int p, unsigned v) { if (!on) return REAL(sem_init)(s, p, v); Sync *x = S(s); x->count = v; return 0; }
int sem_destroy(sem_t *s) { if (!on) return REAL(sem_destroy)(s); for (int i = 0; i < nF; ++i) if (F[i].st == BLOCKED && F[i].waitOn == s) { fmt("semaphore destroyed while thread %d waits on it", i); stop(MISUSE); } return 0; }
int sem_post(sem_t *s) { if (!on) return REAL(sem_post)(s); point(); Sync *x = S(s); rel(x); x->count++; wakeAll(s); return 0; }
int sem_wait(sem_t *s) { if (!on) return REAL(sem_wait)(s); point(); Sync *x = S(s); while (x->count <= 0) { block(s); x = S(s); } x->count--; acq(x); return 0; }
int sem_trywait(sem_t *s) { if (!on) return REAL(sem_trywait)(s); point(); Sync *x = S(s); if (x->count <= 0) { errno = EAGAIN; return -1; } x->count--; acq(x); return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!on) return REAL(pthread_create)(t, a, fn, arg);
  int id = spawn(fn, arg); *t = (pthread_t)(0x1000 + id); point(); return 0;
}
int pthread_join(pthread_t t, void **r) {
  if (!on) return REAL(pthread_join)(t, r);
  int id = (int)((unsigned long)t - 0x1000); if (id < 0 || id >= nF || F[id].joined) { fmt("join of a thread that is not joinable"); stop(MISUSE); }
  point(); while (F[id].st != DONE) block(&F[id]); F[id].joined = true; acq(S(&F[id])); if (r) *r = nullptr; return 0;
}
int pthread_detach(pthread_t t) { if (!on) return REAL(pthread_detach)(t); int id = (int)((unsigned long)t - 0x1000); if (id >= 0 && id < nF) F[id].joined = true; return 0; }
int pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { if (!on) return REAL(pthread_sigmask)(h, s, o); return 0; }
int sigaction(int n, const struct sigaction *a, struct sigaction *o) { if (!on) return REAL(sigaction)(n, a, o); if (n == SIGALRM && a) alrm = a->sa_handler == SIG_DFL || a->sa_handler == SIG_IGN ? nullptr : a->sa_handler; return 0; }
int clock_gettime(clockid_t k, struct timespec *t) { if (!on) return REAL(clock_gettime)(k, t); t->tv_sec = now_ / 1000000000; t->tv_nsec = now_ % 1000000000; return 0; }
int gettimeofday(struct timeval *t, void *z) { if (!on) return REAL(gettimeofday)(t, z); driftOn(); t->tv_sec = now_ / 1000000000; t->tv_usec = now_ % 1000000000 / 1000; return 0; }
time_t time(time_t *t) { if (!on) return REAL(time)(t); time_t r = now_ / 1000000000; if (t) *t = r; return r; }
int timer_create(clockid_t k, struct sigevent *e, timer_t *t) { if (!on) return REAL(timer_create)(k, e, t);
  for (int i = 1; i < MAXT; ++i) if (!T[i].used) { memset(&T[i], 0, sizeof T[i]); T[i].used = true; T[i].fn = e->sigev_notify_function; T[i].v = e->sigev_value; if (e->sigev_notify != SIGEV_THREAD) { fmt("timer_create: only SIGEV_THREAD is modelled"); stop(STEPS); } *t = (timer_t)(long)i; return 0; }
  errno = EAGAIN; return -1; }
static VT *vt(timer_t t) { long i = (long)t; if (i < 1 || i >= MAXT || !T[i].used) { fmt("use of a timer that does not exist"); stop(MISUSE); } return &T[i]; }
static bool badTs(struct timespec const &t) { return t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= 1000000000; }
static uint64_t ns(uint64_t s, uint64_t n) { return s > (1ull << 33) ? 1ull << 63 : s * 1000000000ull + n; }
int timer_settime(timer_t t, int fl, const struct itimerspec *v, struct itimerspec *o) { if (!on) return REAL(timer_settime)(t, fl, v, o); VT *x = vt(t);
  if (badTs(v->it_value) || badTs(v->it_interval)) { errno = EINVAL; return -1; }
  if (o) { memset(o, 0, sizeof *o); if (x->armed) { uint64_t d = x->at > now_ ? x->at - now_ : 1; o->it_value.tv_sec = d / 1000000000; o->it_value.tv_nsec = d % 1000000000; } }
  return arm(*x, ns(v->it_value.tv_sec, v->it_value.tv_nsec), ns(v->it_interval.tv_sec, v->it_interval.tv_nsec), fl & TIMER_ABSTIME); }
int timer_gettime(timer_t t, struct itimerspec *o) { if (!on) return REAL(timer_gettime)(t, o); VT *x = vt(t); memset(o, 0, sizeof *o); if (x->armed) { uint64_t d = x->at > now_ ? x->at - now_ : 1; o->it_value.tv_sec = d / 1000000000; o->it_value.tv_nsec = d % 1000000000; } return 0; }
int timer_delete(timer_t t) { if (!on) return REAL(timer_delete)(t); VT *x = vt(t); point(); x->used = x->armed = false; return 0; }
int setitimer(__itimer_which_t w, const struct itimerval *v, struct itimerval *o) { if (!on) return REAL(setitimer)(w, v, o); if (w != ITIMER_REAL) { errno = EINVAL; return -1; }
  if (v->it_value.tv_sec < 0 || v->it_value.tv_usec < 0 || v->it_value.tv_usec >= 1000000 || v->it_interval.tv_usec < 0 || v->it_interval.tv_usec >= 1000000) { errno = EINVAL; return -1; }
  if (o) memset(o, 0, sizeof *o); T[0].used = T[0].sig = true; return arm(T[0], ns(v->it_value.tv_sec, v->it_value.tv_usec * 1000ull), ns(v->it_interval.tv_sec, v->it_interval.tv_usec * 1000ull), false); }
int getitimer(__itimer_which_t w, struct itimerval *o) { if (!on) return REAL(getitimer)(w, o); if (w != ITIMER_REAL) { errno = EINVAL; return -1; } memset(o, 0, sizeof *o);
  if (T[0].armed) { uint64_t d = T[0].at > now_ ? T[0].at - now_ : 1; d = (d + 999) / 1000; o->it_value.tv_sec = d / 1000000; o->it_value.tv_usec = d % 1000000; } point(); return 0; }
int sigprocmask(int h, const sigset_t *s, sigset_t *o) { if (!on) return REAL(sigprocmask)(h, s, o); if (o) memset(o, 0, sizeof *o); if (s && h == SIG_SETMASK) alrmBlocked = sigismember(s, SIGALRM); else if (s && sigismember(s, SIGALRM)) alrmBlocked = h == SIG_BLOCK; return 0; }
int sigwait(const sigset_t *s, int *sig) { if (!on) return REAL(sigwait)(s, sig); point(); // one thread waits, for the alarm or a signal that ends it
  for (;;) { if (alrmPend && sigismember(s, SIGALRM)) { alrmPend = false; *sig = SIGALRM; acq(S(&alrmPend)); return 0; } if (otherSig && sigismember(s, otherSig)) { *sig = otherSig; otherSig = 0; acq(S(&alrmPend)); return 0; } block(&alrmPend); } }
int kill(pid_t p, int sig) { if (!on) return REAL(kill)(p, sig); if (alrmBlocked && p == getpid() && (sig == SIGINT || sig == SIGTERM || sig == SIGHUP || sig == SIGQUIT)) { point(); rel(S(&alrmPend)); otherSig = sig; wakeAll(&alrmPend); return 0; } fmt("signal %d sent to break a thread that did not stop", sig); stop(DEADLOCK); }
unsigned sleep(unsigned n) { if (!on) return REAL(sleep)(n); F[cur].st = SLEEPING; F[cur].wake = now_ + n * 1000000000ull; schedule(); return 0; }
int usleep(useconds_t n) { if (!on) return REAL(usleep)(n); F[cur].st = SLEEPING; F[cur].wake = now_ + n * 1000ull; schedule(); return 0; }
int nanosleep(const struct timespec *r, struct timespec *m) { if (!on) return REAL(nanosleep)(r, m); F[cur].st = SLEEPING; F[cur].wake = now_ + r->tv_sec * 1000000000ull + r->tv_nsec; schedule(); return 0; }
int __cxa_guard_acquire(uint64_t *g) { // function-local statics
  char *b = (char *)g;
  for (;;) { if (b[0]) { if (on) acq(S(g)); return 0; } if (!b[1]) { b[1] = 1; if (on) F[cur].quiet++; return 1; } // one-time work must not change the numbering of the points
    if (!on) abort(); block(g); }
}
void __cxa_guard_release(uint64_t *g) { char *b = (char *)g; b[0] = 1; b[1] = 0; if (on) { if (F[cur].quiet) F[cur].quiet--; rel(S(g)); wakeAll(g); } }
void __cxa_guard_abort(uint64_t *g) { ((char *)g)[1] = 0; if (on) { if (F[cur].quiet) F[cur].quiet--; wakeAll(g); } }
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) fresh(p, malloc_usable_size(p)); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) fresh(p, malloc_usable_size(p)); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (p) fresh(p, malloc_usable_size(p)); return p; }
void free(void *p) { if (p && on) freed(p, malloc_usable_size(p), PC); __libc_free(p); }
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return operator new(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept { if (p && on) freed(p, malloc_usable_size(p), PC); __libc_free(p); } void operator delete[](void *p) noexcept { if (p && on) freed(p, malloc_usable_size(p), PC); __libc_free(p); }
void operator delete(void *p, size_t) noexcept { if (p && on) freed(p, malloc_usable_size(p), PC); __libc_free(p); } void operator delete[](void *p, size_t) noexcept { if (p && on) freed(p, malloc_usable_size(p), PC); __libc_free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { if (p && on) freed(p, malloc_usable_size(p), PC); __libc_free(p); } void operator delete[](void *p, std::nothrow_t const &) noexcept { if (p && on) freed(p, malloc_usable_size(p), PC); __libc_free(p); }
