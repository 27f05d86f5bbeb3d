// Simulator core: fibers, scheduling, memory, instrumentation runtime.
#include <sys/time.h>
#include "core.h"

#include <cxxabi.h>
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_ftruncate(int, off_t);
int __real_mprotect(void*, size_t, int);
int __real_madvise(void*, size_t, int);
void __real_abort(void) __attribute__((noreturn));
extern char __start_repodata[] __attribute__((weak));
extern char __stop_repodata[] __attribute__((weak));
extern char __start_repobss[] __attribute__((weak));
extern char __stop_repobss[] __attribute__((weak));
void sim_switch(void** save, void* to);
}

asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace sim {

int g_hook = 0;
bool g_in_run = false;
bool g_verbose = false;
World* W = nullptr;
Stats S;
unsigned char *g_edges, *g_crash, *g_states;
std::map<std::string, u64>* g_marks;
char* g_store;
static void* g_host_sp;
static char* g_emergency;
static Outcome* g_out;

const char* const kFaultName[F_NKINDS] = {
    "preempt", "process_kill", "kill_lag", "stall", "wall_clock_step", "suspend", "spurious_wakeup", "eintr",
    "syscall_error", "wake_order", "short_read", "inotify_overflow", "allocator_failure",
    "owner_death_handoff_delay", "thread_exit", "fork", "restart"};
const char* const kEvName[E_NKINDS] = {"preempt", "kill", "stall", "wall", "suspend", "spurious", "eintr"};

struct HostAbort {};

std::map<std::string, ScenarioFactory>& registry() {
  static std::map<std::string, ScenarioFactory> r;
  return r;
}
ScenarioReg::ScenarioReg(const char* name, ScenarioFactory f) { registry()[name] = f; }

void bit_set(unsigned char* bm, u64 h, u64* n) {
  h = Rng::mix(h) & (EDGE_BITS - 1);
  unsigned char m = 1u << (h & 7);
  if (!(bm[h >> 3] & m)) {
    bm[h >> 3] |= m;
    ++*n;
  }
}

void hmix(u64 v) { W->hash = (W->hash ^ v) * 0x100000001b3ull + (W->hash >> 29); }

// ------------------------------------------------------------------ memory
static uintptr_t g_host_top;
static size_t g_slot_used[NSLOT], g_slot_live[NSLOT];

static void* map_at(uintptr_t a, size_t n, int prot, int flags, int fd) {
  void* p = __real_mmap((void*)a, n, prot, flags | MAP_FIXED_NOREPLACE, fd, 0);
  if (p != (void*)a) {
    fprintf(stderr, "sim: cannot map %zx at %lx\n", n, (long)a);
    _exit(3);
  }
  return p;
}

static void on_signal(int sig, siginfo_t* si, void* uc);
static void on_tick(int, siginfo_t*, void* uc);

void init_memory() {
  int an = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
  map_at(HOST_BASE, HOST_SIZE, PROT_READ | PROT_WRITE, an, -1);
  map_at(HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, an, -1);
  map_at(SHADOW_BASE, SHADOW_SIZE, PROT_READ | PROT_WRITE, an, -1);
  int fd = memfd_create("simstore", 0);
  if (fd < 0 || __real_ftruncate(fd, VIEW_SIZE)) {
    perror("memfd");
    _exit(3);
  }
  for (int i = 0; i < NVIEW; i++)
    map_at(VIEW_BASE + ((uintptr_t)i << VIEW_SHIFT), VIEW_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd);
  g_store = (char*)VIEW_BASE;
  map_at(STACK_BASE, (size_t)NSTACK << STACK_SHIFT, PROT_NONE, an, -1);
  for (int i = 0; i < NSTACK; i++)
    __real_mprotect((void*)(STACK_BASE + ((uintptr_t)i << STACK_SHIFT) + (1 << STACK_SHIFT) - STACK_SIZE), STACK_SIZE, PROT_READ | PROT_WRITE);
  g_host_top = HOST_BASE;
  g_edges = (unsigned char*)__real_malloc(EDGE_BITS / 8);
  g_crash = (unsigned char*)__real_malloc(EDGE_BITS / 8);
  g_states = (unsigned char*)__real_malloc(EDGE_BITS / 8);
  memset(g_edges, 0, EDGE_BITS / 8);
  memset(g_crash, 0, EDGE_BITS / 8);
  memset(g_states, 0, EDGE_BITS / 8);
  g_marks = new std::map<std::string, u64>();
  g_emergency = (char*)__real_mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss;
  ss.ss_sp = __real_mmap(0, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 17;
  ss.ss_flags = 0;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
  sa.sa_sigaction = on_tick;
  sa.sa_flags |= SA_RESTART;
  sigaction(SIGPROF, &sa, 0);
  struct itimerval tv = {{0, 500000}, {0, 500000}};
  setitimer(ITIMER_PROF, &tv, 0);
}

static inline unsigned char* shadow(uintptr_t a) { return (unsigned char*)(SHADOW_BASE + ((a - HEAP_BASE) >> 3)); }

static void shadow_set(uintptr_t a, size_t n) {
  unsigned char* s = shadow(a);
  size_t g = n / 8;
  memset(s, 8, g);
  if (n & 7) s[g] = n & 7;
}

void* heap_alloc(Proc* p, size_t n, size_t align) {
  int slot = (p->idx + 1) % NSLOT;
  uintptr_t base = HEAP_BASE + ((uintptr_t)slot << SLOT_SHIFT);
  size_t u = g_slot_used[slot] + 32;  // red zone; the 16 bytes before the block keep its size
  u = (u + align - 1) & ~(align - 1);
  if (u + n + 64 > (1u << SLOT_SHIFT)) fail_generic("sim-heap-exhausted", "simulated heap exhausted");
  *(size_t*)(base + u - 16) = n;
  g_slot_used[slot] = u + ((n + 15) & ~15ull);
  g_slot_live[slot]++;
  void* r = (void*)(base + u);
  memset(r, 0xBE, n);
  shadow_set(base + u, n);
  return r;
}
void heap_free(void* p) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  size_t n = *(size_t*)(a - 16);
  if (n && !*shadow(a)) fail_generic("double-free", "free of memory that is not allocated: %p", p);
  memset(p, 0xDE, n);
  g_slot_live[(a - HEAP_BASE) >> SLOT_SHIFT]--;
  memset(shadow(a), 0, (n + 7) / 8);
}
size_t proc_nblocks(Proc* p) { return g_slot_live[(p->idx + 1) % NSLOT]; }
static inline bool in_heap(uintptr_t a) { return a - HEAP_BASE < HEAP_SIZE; }

static void* sim_alloc(size_t n) {
  if (!g_in_run) return __real_malloc(n ? n : 1);
  if (g_hook && W->cur) {
    KGuard k;
    return heap_alloc(W->cur->proc, n);
  }
  uintptr_t a = (g_host_top + 15) & ~15ull;
  g_host_top = a + n + 16;
  *(size_t*)a = n;
  if (g_host_top > HOST_BASE + HOST_SIZE) {
    g_host_top = a;
    fail_generic("runaway", "the harness runs out of memory: a walk through the library's data does not end");
  }
  return (void*)(a + 16);
}
static size_t sim_usable(void* p) {
  return *(size_t*)((uintptr_t)p - 16);
}
static inline bool in_host(uintptr_t a) { return a - HOST_BASE < HOST_SIZE; }
static void sim_free(void* p) {
  uintptr_t a = (uintptr_t)p;
  if (in_host(a)) return;
  if (in_heap(a)) {
    KGuard k;
    heap_free(p);
    return;
  }
  __real_free(p);
}

// ------------------------------------------------------------------ failure
static void leave_to_host() __attribute__((noreturn));
static void leave_to_host() {
  void* dummy;
  sim_switch(&dummy, g_host_sp);
  __builtin_trap();
}

static void vfail(const char* props, const char* key, const char* fmt, va_list ap) __attribute__((noreturn));
static void vfail(const char* props, const char* key, const char* fmt, va_list ap) {
  g_hook = 0;
  if (g_out && !g_out->failed) {
    g_out->failed = true;
    snprintf(g_out->props, sizeof g_out->props, "%s", props);
    snprintf(g_out->key, sizeof g_out->key, "%s", key);
    vsnprintf(g_out->msg, sizeof g_out->msg, fmt, ap);
  }
  W->failed = true;
  if (W->cur) leave_to_host();
  throw HostAbort();
}
void fail(const char* props, const char* key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(props, key, fmt, ap);
}
void fail_generic(const char* key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(W->generic_props.c_str(), key, fmt, ap);
}
void set_generic_props(const char* p) { W->generic_props = p; }

static u64 g_run_no;
static void* g_host_jmp[5];
static bool g_host_jmp_ok;
static u64 g_sig_pc;
static u64 g_sig_addr;
static int g_sig;
static void crash_landing() {
  g_hook = 0;
  const char* n = g_sig == SIGABRT ? "abort" : g_sig == SIGFPE ? "fpe" : "segv";
  fail_generic(n, "%s in %s: pc=%llx addr=%llx", n, W->cur ? W->cur->name.c_str() : "?", (unsigned long long)g_sig_pc,
               (unsigned long long)g_sig_addr);
}
// The harness itself stumbles over the library's data, outside of any simulated thread.
static void host_landing() {
  g_hook = 0;
  if (g_out && !g_out->failed) {
    g_out->failed = true;
    snprintf(g_out->props, sizeof g_out->props, "%s", W->generic_props.c_str());
    snprintf(g_out->key, sizeof g_out->key, "corrupt");
    snprintf(g_out->msg, sizeof g_out->msg, g_sig == SIGPROF ? "looking at the state never ends: pc=%llx" : "looking at the state leads to an invalid access: pc=%llx addr=%llx", (unsigned long long)g_sig_pc,
             (unsigned long long)g_sig_addr);
  }
  W->failed = true;
  __builtin_longjmp(g_host_jmp, 1);
}
static void on_signal(int sig, siginfo_t* si, void* ucv) {
  ucontext_t* uc = (ucontext_t*)ucv;
  if (g_in_run && W && !W->cur && g_host_jmp_ok && !W->failed) {
    g_sig_pc = uc->uc_mcontext.gregs[REG_RIP];
    g_sig_addr = (u64)si->si_addr;
    g_sig = sig;
    uc->uc_mcontext.gregs[REG_RIP] = (greg_t)host_landing;
    uc->uc_mcontext.gregs[REG_RSP] = (greg_t)(((uintptr_t)g_emergency + (1 << 20) - 4096) & ~15ull) - 8;
    return;
  }
  if (!g_in_run || !W || !W->cur) {
    fprintf(stderr, "sim: signal %d outside simulated code pc=%llx addr=%p\n", sig, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP], si->si_addr);
    signal(sig, SIG_DFL);
    _exit(3);
  }
  g_sig = sig;
  g_sig_pc = uc->uc_mcontext.gregs[REG_RIP];
  g_sig_addr = (u64)si->si_addr;
  uc->uc_mcontext.gregs[REG_RIP] = (greg_t)crash_landing;
  uc->uc_mcontext.gregs[REG_RSP] = (greg_t)(((uintptr_t)g_emergency + (1 << 20) - 4096) & ~15ull) - 8;
}


// A thread that computes for seconds without any step: a loop that never ends.
static void endless_landing() {
  g_hook = 0;
  fail_generic("endless-loop", "%s computes for ever without touching memory that others could change: pc=%llx", W->cur ? W->cur->name.c_str() : "?",
               (unsigned long long)g_sig_pc);
}
static void on_tick(int, siginfo_t*, void* ucv) {
  static Thread* last_t;
  static u64 last_run, last_step;
  static int same;
  if (!g_in_run || !W || (!W->cur && (!g_host_jmp_ok || W->failed))) {
    same = 0;
    return;
  }
  u64 step = W->cur ? W->cur->steps : W->switches;
  if (W->cur != last_t || step != last_step || g_run_no != last_run) {
    last_t = W->cur;
    last_step = step;
    last_run = g_run_no;
    same = 0;
    return;
  }
  if (++same < 6) return;
  same = 0;
  ucontext_t* uc = (ucontext_t*)ucv;
  g_sig_pc = uc->uc_mcontext.gregs[REG_RIP];
  g_sig = SIGPROF;
  uc->uc_mcontext.gregs[REG_RIP] = W->cur ? (greg_t)endless_landing : (greg_t)host_landing;
  uc->uc_mcontext.gregs[REG_RSP] = (greg_t)(((uintptr_t)g_emergency + (1 << 20) - 4096) & ~15ull) - 8;
}

// ------------------------------------------------------------------ time
u64 steps_now() { return W->gsteps + (W->cur ? W->cur->steps - W->cur->in_steps : 0); }
u64 mono_ns() { return W->mono_base + steps_now() * 20; }
u64 boot_ns() { return mono_ns() + W->susp; }
u64 wall_ns() { return mono_ns() + W->wall_off; }
u64 suspended_ns() { return W->susp; }
u64 lclock() { return ++W->lclk; }

void set_timer(Thread* t, int clk, u64 deadline) {
  if (!t->timer_clk && clk) W->ntimers++;
  if (t->timer_clk && !clk) W->ntimers--;
  t->timer_clk = clk;
  t->deadline = deadline;
}
void clear_timer(Thread* t) { set_timer(t, 0, 0); }

void check_timers() {
  if (!W->ntimers) return;
  u64 m = mono_ns(), w = wall_ns();
  for (size_t i = 0; i < W->threads.size(); i++) {
    Thread* t = W->threads[i];
    if (!t->timer_clk || t->st != T_BLOCKED) continue;
    u64 now = t->timer_clk == 1 ? m : w;
    if (now >= t->deadline) {
      unqueue(t);
      wake(t, t->wk == WK_SLEEP ? 0 : ETIMEDOUT);
    }
  }
}

// advance to next timer; false if none
static bool advance_time() {
  if (!W->ntimers) return false;
  u64 best = ~0ull;
  u64 m = mono_ns(), w = wall_ns();
  for (Thread* t : W->threads) {
    if (!t->timer_clk || t->st != T_BLOCKED) continue;
    u64 now = t->timer_clk == 1 ? m : w;
    u64 d = t->deadline > now ? t->deadline - now : 0;
    if (d < best) best = d;
  }
  if (best == ~0ull) return false;
  W->mono_base += best;
  check_timers();
  return true;
}

// ------------------------------------------------------------------ choices
static u32 g_choice_tid() { return W->cur ? W->cur->id : 0xffffffu; }

u64 choose(u64 n, double p, int what) {
  if (n < 2 || W->fair) return 0;
  u32 tid = g_choice_tid();
  u32 idx = W->cur ? W->cur->nchoice++ : W->sched_choices++;
  u64 v = 0;
  if (W->replay) {
    Choice key{tid, idx, 0, 0};
    auto it = std::lower_bound(W->rch.begin(), W->rch.end(), key, [](const Choice& a, const Choice& b) {
      return a.tid != b.tid ? a.tid < b.tid : a.idx < b.idx;
    });
    if (it != W->rch.end() && it->tid == tid && it->idx == idx) v = it->val % n;
  } else if (p > 0 && W->frng.chance(p)) {
    v = 1 + W->frng.below(n - 1);
  }
  if (v) W->choices.push_back(Choice{tid, idx, (u32)v, what});
  hmix(0xC0000000ull + v);
  return v;
}

void count_fault(Fault k) {
  S.faults[k]++;
  S.run_faults[k]++;
}
int chance_fault(Fault kind, double p) {
  KGuard k;
  if (choose(2, p, 100 + kind)) {
    count_fault(kind);
    return 1;
  }
  return 0;
}

// ------------------------------------------------------------------ fibers
extern "C" void fiber_main() {
  Thread* t = W->cur;
  try {
    if (t->cfn) {
      g_hook = 1;
      t->ret = t->cfn(t->carg);
      g_hook = 0;
      api_done();
      g_hook = 0;
    } else {
      g_hook = 0;
      t->fn();
    }
  } catch (std::exception& e) {
    g_hook = 0;
    fail_generic("uncaught-exception", "uncaught exception in %s: %s", t->name.c_str(), e.what());
  } catch (...) {
    g_hook = 0;
    fail_generic("uncaught-exception", "uncaught exception in %s", t->name.c_str());
  }
  g_hook = 0;
  t->st = T_EXITING;
  sim_switch(&t->sp, g_host_sp);
  __builtin_trap();
}

Thread* make_thread(Proc* p, const char* name) {
  KGuard k;
  if (W->next_stack >= NSTACK || p->threads.size() > 250) fail_generic("sim-threads", "too many simulated threads");
  Thread* t = new Thread();
  t->proc = p;
  t->id = (u32)(p->idx << 8 | p->threads.size());
  t->tid = W->next_tid++;
  t->name = p->name + "." + name;
  t->rng.reseed(W->seed * 0x9e3779b97f4a7c15ull + t->id * 7919 + 17);
  t->stk_idx = W->next_stack++;
  uintptr_t top = STACK_BASE + ((uintptr_t)(t->stk_idx + 1) << STACK_SHIFT);
  t->stk_lo = top - STACK_SIZE;
  memset((void*)(top - 24576), 0xA5, 24576);
  // and as far down as an earlier run went: a page found as it was left ends it
  for (uintptr_t pg = top - 24576 - 4096; pg >= t->stk_lo + 4096; pg -= 4096) {
    const u64* w = (const u64*)pg;
    size_t i = 0;
    while (i < 512 && w[i] == 0xA5A5A5A5A5A5A5A5ull) i++;
    if (i == 512) break;
    memset((void*)pg, 0xA5, 4096);
  }
  u64* sp = (u64*)(top - 64);
  *--sp = 0;                    // return address of fiber_main (alignment)
  *--sp = (u64)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  t->sp = sp;
  t->prio = W->frng.next();
  if (W->replay) {
    Event key{t->id, 0, 0, 0, 0};
    t->evpos = std::lower_bound(W->rev.begin(), W->rev.end(), key) - W->rev.begin();
  }
  p->threads.push_back(t);
  p->nthreads_alive++;
  W->threads.push_back(t);
  if (p->dying) t->st = T_EXITING;
  return t;
}

char* g_pristine;
Proc* new_proc(const char* name) {
  KGuard k;
  Proc* p = new Proc();
  p->idx = W->procs.size();
  p->name = name;
  size_t nd = __stop_repodata - __start_repodata, nb = __stop_repobss - __start_repobss;
  p->globals = new char[nd + nb + 1];
  memcpy(p->globals, g_pristine, nd + nb);
  W->procs.push_back(p);
  return p;
}
static Proc* g_loaded;  // process whose globals are in place

static void load_globals(Proc* p) {
  if (g_loaded == p) return;
  size_t nd = __stop_repodata - __start_repodata, nb = __stop_repobss - __start_repobss;
  if (g_loaded) {
    memcpy(g_loaded->globals, __start_repodata, nd);
    memcpy(g_loaded->globals + nd, __start_repobss, nb);
  }
  memcpy(__start_repodata, p->globals, nd);
  memcpy(__start_repobss, p->globals + nd, nb);
  g_loaded = p;
}

Thread* spawn(Proc* p, const char* name, std::function<void()> fn) {
  KGuard k;
  Thread* t = make_thread(p, name);
  t->fn = std::move(fn);
  return t;
}

Proc* fork_proc(const char* name, std::function<void()> fn) {
  KGuard k;
  Thread* me = W->cur;
  Proc* p = new_proc(name);
  size_t nd = __stop_repodata - __start_repodata, nb = __stop_repobss - __start_repobss;
  memcpy(p->globals, __start_repodata, nd);
  memcpy(p->globals + nd, __start_repobss, nb);
  p->atfork_child = me->proc->atfork_child;
  p->rand48 = me->proc->rand48;
  p->randn = me->proc->randn;
  Thread* t = make_thread(p, "fork");
  for (auto& e : me->tls) {
    void* m = heap_alloc(p, e.size, 16);
    memcpy(m, e.ptr, e.size);
    t->tls.push_back(TlsEnt{e.ctl, m, e.size});
  }
  auto hs = p->atfork_child;
  t->fn = [hs, fn]() {
    for (auto h : hs) {
      Api a;
      h();
    }
    fn();
  };
  count_fault(F_FORK);
  return p;
}

Proc* cur_proc() { return W->cur ? W->cur->proc : nullptr; }
Thread* cur_thread() { return W->cur; }
const char* thread_name(Thread* t) { return t->name.c_str(); }
bool thread_done(Thread* t) { return t->st == T_DEAD; }
bool thread_blocked(Thread* t) { return t->st == T_BLOCKED; }
Proc* thread_proc(Thread* t) { return t->proc; }
uint32_t thread_tid(Thread* t) { return t->tid; }
Rng& cfg_rng() { return W->crng; }
Rng& trng() { return W->cur ? W->cur->rng : W->crng; }
bool faults_on() { return !W->fair; }
bool verbose() { return g_verbose; }

void note(const char* fmt, ...) {
  if (!g_verbose) return;
  KGuard k;
  va_list ap;
  va_start(ap, fmt);
  char buf[600];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  printf("%9llu %-14s %s\n", (unsigned long long)steps_now(), W->cur ? W->cur->name.c_str() : "-", buf);
}

void mark(const char* what) {
  KGuard k;
  bool r = g_in_run;
  g_in_run = false;
  (*g_marks)[what]++;
  g_in_run = r;
}
void state_sig(u64 h) {
  bit_set(g_states, h, &S.states_n);
}

static void to_host() {
  Thread* t = W->cur;
  t->hook = g_hook;
  sim_switch(&t->sp, g_host_sp);
}
void set_deadline(u64 boot) {
  Thread* t = W->cur;
  t->user_dl = boot;
  t->dl_past = 0;
  t->dl_mono = mono_ns();
  t->dl_susp = W->susp;
  t->dl_wall = W->wall_moved;
}
// Going to sleep until later than the deadline of the operation, as far as could be known.
static void check_late(Thread* t) {
  if (!t->user_dl || !t->timer_clk) return;
  u64 now = t->timer_clk == 1 ? mono_ns() : wall_ns(), b = boot_ns();
  u64 rel = t->deadline > now ? t->deadline - now : 0;
  u64 want = t->user_dl > b ? t->user_dl - b : 0;
  u64 slack = 2000 + (mono_ns() - t->dl_mono) + (W->susp - t->dl_susp) + (W->wall_moved - t->dl_wall);
  if (rel > want + slack)
    fail((std::string("C09,") + W->generic_props).c_str(), "late-timeout", "%s goes to sleep for %llu ns although its deadline is in %llu ns", t->name.c_str(),
         (unsigned long long)rel, (unsigned long long)want);
}
void block() {
  Thread* t = W->cur;
  check_late(t);
  t->st = T_BLOCKED;
  if (t->die_at != ~0ull) {  // a killed thread does not go to sleep
    unqueue(t);
    clear_timer(t);
    t->st = T_EXITING;
  }
  to_host();
}
void wake(Thread* t, int res) {
  if (t->st != T_BLOCKED) return;
  t->st = T_RUN;
  t->wres = res;
  clear_timer(t);
  if (W->cfg.strategy == 1 && W->cur) W->cur->fuel = 0;  // priorities are re-evaluated
}

// ------------------------------------------------------------------ kill
static void start_exit(Thread* t) { t->st = T_EXITING; }

static void do_kill(Proc* p) {
  if (p->dead || p->dying) return;
  p->dying = true;
  p->killed = true;
  W->kills++;
  count_fault(F_KILL);
  note("KILL process %s", p->name.c_str());
  for (Thread* t : p->threads) {
    if (t->st == T_DEAD || t->st == T_EXITING) continue;
    if (t != W->cur) bit_set(g_crash, (u64)t->pc, &S.crash_n);
    u64 lag = choose(40, 0.15, 1);
    if (lag && t->st == T_RUN) {
      count_fault(F_KILL_LAG);
      t->die_at = t->steps + lag;
      if (t->die_at < t->trip) t->trip = t->die_at;
      continue;
    }
    if (t != W->cur) {
      unqueue(t);
      clear_timer(t);
      start_exit(t);
    } else {
      t->die_at = t->steps;
    }
  }
}
void kill_proc(Proc* p) {
  KGuard k;
  do_kill(p);
  Thread* t = W->cur;
  if (t && t->proc == p && t->steps >= t->die_at) {
    start_exit(t);
    to_host();
  }
}
void thread_exit_now() {
  g_hook = 0;
  count_fault(F_THREADEXIT);
  start_exit(W->cur);
  to_host();
}

static void finish_exit(Thread* t) {
  W->scen->thread_dead(t);
  exit_thread_kernel(t);
  t->st = T_DEAD;
  for (auto& e : t->tls) memset(shadow((uintptr_t)e.ptr), 0, (e.size + 7) / 8);
  for (Thread* o : W->threads)
    if (o->st == T_BLOCKED && o->wk == WK_JOIN && o->wobj == t) wake(o, 0);
  Proc* p = t->proc;
  if (--p->nthreads_alive == 0) {
    proc_gone(p);
    p->dead = true;
    p->dead_at = lclock();
    note("process %s gone", p->name.c_str());
    W->scen->proc_dead(p);
  }
}

// ------------------------------------------------------------------ scheduling
static void runnable_from(Thread* after, std::vector<Thread*>& v) {
  // round-robin order starting behind `after`
  v.clear();
  size_t n = W->threads.size(), s = 0;
  if (after)
    for (size_t i = 0; i < n; i++)
      if (W->threads[i] == after) s = i + 1;
  for (size_t i = 0; i < n; i++) {
    Thread* t = W->threads[(s + i) % n];
    if (t->st == T_RUN) v.push_back(t);
  }
}

static void refill(Thread* t) {
  if (W->fair) {
    t->fuel = 20 + (long)(Rng::mix(W->seed + 77 * ++W->fair_rot) % 400);
  } else if (W->replay) {
    t->fuel = 1l << 60;
  } else {
    double u = W->frng.unit();
    t->fuel = 1 + (long)(-log(1 - u) * W->cfg.gap);
  }
}
// Everything that must happen at an exact step (and so at the same step in a replay) goes through the trip.
static void set_trip(Thread* t) {
  u64 tr = t->die_at;
  if (W->replay && !W->fair) {
    if (t->evpos < W->rev.size() && W->rev[t->evpos].tid == t->id && W->rev[t->evpos].step < tr) tr = W->rev[t->evpos].step;
  }
  if (t->rot_at < tr) tr = t->rot_at;
  u64 total = steps_now();
  if (!W->fair) {
    u64 e = t->steps + (total > W->cfg.fault_steps ? 0 : W->cfg.fault_steps - total) + 1;
    if (e < tr) tr = e;
  }
  if (W->ntimers) {
    u64 m = mono_ns(), w = wall_ns();
    for (Thread* o : W->threads) {
      if (!o->timer_clk || o->st != T_BLOCKED) continue;
      u64 now = o->timer_clk == 1 ? m : w;
      u64 d = o->deadline > now ? o->deadline - now : 0;
      u64 e = t->steps + (d > 20 ? (d + 19) / 20 : 1);  // the first step at which the timer is due
      if (e < tr) tr = e;
    }
  }
  t->trip = tr;
}

static void record(Thread* t, int kind, long long arg) {
  W->events.push_back(Event{t->id, t->steps, kind, arg, (u64)t->pc});
  hmix(0xE0000000ull + kind * 1000003ull + (u64)arg);
}

static void do_event(Thread* t, int kind, long long arg) {
  switch (kind) {
    case E_PREEMPT: {
      Thread* o = nullptr;
      for (Thread* x : W->threads)
        if (x->id == (u32)arg) o = x;
      if (!o || o->st != T_RUN || o == t) return;
      record(t, kind, arg);
      count_fault(F_PREEMPT);
      W->forced = o;
      break;
    }
    case E_KILL: {
      if ((size_t)arg >= W->procs.size()) return;
      Proc* p = W->procs[arg];
      if (p->dead || p->dying || !p->killable || !p->nthreads_alive) return;
      record(t, kind, arg);
      if (p == t->proc) bit_set(g_crash, (u64)t->pc, &S.crash_n);
      do_kill(p);
      break;
    }
    case E_STALL:
      record(t, kind, arg);
      count_fault(F_STALL);
      note("STALL %lld ns", arg);
      W->mono_base += arg;
      check_timers();
      break;
    case E_WALL:
      record(t, kind, arg);
      count_fault(F_WALL);
      note("WALL step %lld ns", arg);
      if ((long long)wall_ns() + arg > 1000000000ll) W->wall_off += arg;
      W->wall_moved += arg < 0 ? -arg : arg;
      check_timers();
      break;
    case E_SUSPEND:
      record(t, kind, arg);
      count_fault(F_SUSPEND);
      note("SUSPEND %lld ns", arg);
      W->susp += arg;
      W->wall_off += arg;
      check_timers();
      break;
    case E_SPURIOUS:
    case E_EINTR: {
      Thread* o = nullptr;
      for (Thread* x : W->threads)
        if (x->id == (u32)arg) o = x;
      if (!o || o->st != T_BLOCKED) return;
      if (kind == E_SPURIOUS) {
        if (o->wk == WK_FUTEX) {
          record(t, kind, arg);
          count_fault(F_SPURIOUS);
          unqueue(o);
          wake(o, 0);
        } else if (o->wk == WK_REQ || (o->wk == WK_PI && o->key2.a)) {
          record(t, kind, arg);
          count_fault(F_SPURIOUS);
          unqueue(o);
          wake(o, EAGAIN);
        }
      } else if (o->wk == WK_FUTEX || (o->wk == WK_POLL)) {
        record(t, kind, arg);
        count_fault(F_EINTR);
        unqueue(o);
        wake(o, EINTR);
      }
      break;
    }
  }
}

static void gen_event(Thread* t) {
  FaultCfg& c = W->cfg;
  Rng& r = W->frng;
  double x = r.unit();
  if (W->kills < c.max_kills && (x -= c.p_kill) < 0) {
    std::vector<Proc*> v;
    for (Proc* p : W->procs)
      if (!p->dead && !p->dying && p->killable && p->nthreads_alive) v.push_back(p);
    if (v.empty()) return;
    Proc* p = t->proc;
    if (!p->killable || p->dying || r.chance(0.3)) p = v[r.below(v.size())];
    do_event(t, E_KILL, p->idx);
    return;
  }
  if ((x -= c.p_stall) < 0) return do_event(t, E_STALL, 1 + r.below(c.stall_ns));
  if ((x -= c.p_wall) < 0) {
    long long d = (long long)(r.unit() * 3600e9);
    if (r.chance(0.5)) d = (long long)(r.unit() * 5e6);
    return do_event(t, E_WALL, r.chance(0.5) ? d : -d);
  }
  if ((x -= c.p_suspend) < 0) return do_event(t, E_SUSPEND, (long long)(r.unit() * (r.chance(0.5) ? 5e6 : 5e12)));
  if ((x -= c.p_spurious + c.p_eintr) < 0) {
    std::vector<Thread*> v;
    for (Thread* o : W->threads)
      if (o->st == T_BLOCKED && (o->wk == WK_FUTEX || o->wk == WK_REQ || o->wk == WK_PI || o->wk == WK_POLL)) v.push_back(o);
    if (v.empty()) return;
    bool sp = r.unit() * (c.p_spurious + c.p_eintr) < c.p_spurious;
    return do_event(t, sp ? E_SPURIOUS : E_EINTR, v[r.below(v.size())]->id);
  }
  // scheduling
  std::vector<Thread*> v;
  runnable_from(t, v);
  if (v.size() < 2) return;
  if (c.strategy == 1) {
    if (r.chance(0.15)) t->prio = r.next() >> 8;
    Thread* best = v[0];
    for (Thread* o : v)
      if (o->prio > best->prio) best = o;
    if (t->steps - t->in_steps > 4000) {
      t->prio = r.next() >> 16;
      best = v[0];
    }
    if (best != t) do_event(t, E_PREEMPT, best->id);
  } else {
    Thread* o = v[r.below(v.size() - 1)];  // v.back() is t itself
    if (o == t) o = v[0];
    do_event(t, E_PREEMPT, o->id);
  }
}

static void slow(void* pc) __attribute__((noinline));
static void slow(void* pc) {
  Thread* t = W->cur;
  g_hook = 0;
  t->pc = pc;
  check_timers();
  if (t->steps >= t->die_at) {
    bit_set(g_crash, (u64)pc, &S.crash_n);
    start_exit(t);
    to_host();
  }
  u64 total = steps_now();
  if (!W->fair && total > W->cfg.fault_steps) {
    W->fair = true;
    W->fair_start = total;
    note("--- faults end ---");
    t->fuel = 0;
  }
  if (W->fair && total > W->fair_start + W->cfg.fair_steps)
    fail_generic("no-progress", "threads still running after %llu fair steps; current %s", (unsigned long long)W->cfg.fair_steps,
                 t->name.c_str());
  if (W->fair) {
    if (t->fuel <= 0 || t->steps >= t->rot_at) {
      std::vector<Thread*> v;
      runnable_from(t, v);
      refill(t);
      if (v.size() > 1) W->forced = v[0];
    }
  } else if (W->replay) {
    while (t->evpos < W->rev.size() && W->rev[t->evpos].tid == t->id && W->rev[t->evpos].step <= t->steps) {
      Event& e = W->rev[t->evpos++];
      if (e.step == t->steps) do_event(t, e.kind, e.arg);
    }
  } else if (t->fuel <= 0) {
    gen_event(t);
    refill(t);
  }
  if (!W->fair && t->steps >= t->rot_at && !W->forced) {
    std::vector<Thread*> v;
    runnable_from(t, v);
    if (v.size() > 1) W->forced = v[0];
    t->rot_at = t->steps + 20000;
  }
  if (t->steps >= t->die_at) {
    start_exit(t);
    to_host();
  }
  if (W->forced) {
    g_hook = 1;
    to_host();
    g_hook = 1;
    // a kill may have hit us while we were off the cpu: never resumed then
  } else {
    set_trip(t);
    g_hook = 1;
  }
}

#define STEP(wt, pc)                                              \
  do {                                                            \
    Thread* _t = W->cur;                                          \
    _t->fuel -= (wt);                                             \
    if (__builtin_expect(++_t->steps >= _t->trip || _t->fuel <= 0, 0)) slow(pc); \
  } while (0)

void sys_point(const char* name) {
  if (!W->cur) return;
  int h = g_hook;
  g_hook = 1;
  hmix((u64)name[0] * 31 + name[1]);
  STEP(W->cfg.w_sys, __builtin_return_address(0));
  g_hook = h;
}
void yield() {
  int h = g_hook;
  g_hook = 1;
  STEP(W->cfg.w_sys, __builtin_return_address(0));
  g_hook = h;
}

static Thread* pick() {
  std::vector<Thread*> v;
  runnable_from(W->last, v);
  if (v.empty()) return nullptr;
  if (W->fair || v.size() == 1) return v[0];
  Thread* want = v[0];
  size_t i = 0;
  if (W->replay) {
    i = choose(v.size(), 0, 2);
    return v[i % v.size()];
  }
  if (W->cfg.strategy == 1) {
    for (size_t k = 0; k < v.size(); k++)
      if (v[k]->prio > want->prio) want = v[i = k];
  } else {
    i = W->frng.below(v.size());
  }
  u32 idx = W->sched_choices++;
  if (i) W->choices.push_back(Choice{0xffffffu, idx, (u32)i, 2});
  hmix(0xC0000000ull + i);
  return v[i];
}

// Still busy, by its own steps, long after the deadline of the operation.
static void check_spin(Thread* t) {
  if (!t->user_dl || W->failed || boot_ns() < t->user_dl) return;
  if (!t->dl_past) t->dl_past = t->steps + 1;
  u64 n = t->steps + 1 - t->dl_past;
  if (n > 20000)
    fail((std::string("C09,") + W->generic_props).c_str(), "busy-past-deadline", "%s is still busy %llu steps after its deadline", t->name.c_str(),
         (unsigned long long)n);
}

static void switch_to(Thread* t) {
  W->switches++;
  hmix(((u64)t->id << 32) ^ t->steps);
  if (W->last && W->last != t) bit_set(g_edges, (u64)W->last->pc * 31 + (u64)t->pc, &S.edges_n);
  W->cur = t;
  W->last = t;
  W->forced = nullptr;
  load_globals(t->proc);
  t->in_steps = t->steps;
  if (W->fair && t->fuel > 1000) t->fuel = 0;
  refill(t);
  t->rot_at = t->steps + 20000;
  set_trip(t);
  errno = t->saved_errno;
  u64* cx = (u64*)abi::__cxa_get_globals();
  cx[0] = t->cxa[0];
  cx[1] = t->cxa[1];
  g_hook = t->hook;
  sim_switch(&g_host_sp, t->sp);
  g_hook = 0;
  t->cxa[0] = cx[0];
  t->cxa[1] = cx[1];
  cx[0] = cx[1] = 0;
  t->saved_errno = errno;
  W->gsteps += t->steps - t->in_steps;
  t->in_steps = t->steps;
  W->cur = nullptr;
  check_spin(t);
}

static void host_loop() {
  int idle_advance = 0;
  for (;;) {
    if (W->failed) return;
    bool ex = true;
    while (ex) {
      ex = false;
      for (size_t i = 0; i < W->threads.size(); i++)
        if (W->threads[i]->st == T_EXITING) {
          finish_exit(W->threads[i]);
          ex = true;
        }
    }
    Thread* n = W->forced && W->forced->st == T_RUN ? W->forced : nullptr;
    if (!n) n = pick();
    if (!n) {
      // predicate waiters of the harness
      bool any = false;
      for (Thread* t : W->threads)
        if (t->st == T_BLOCKED && t->wk == WK_PRED && t->pred()) {
          wake(t, 0);
          any = true;
        }
      if (any) continue;
      if (advance_time()) {
        if (++idle_advance > 200000) fail_generic("no-progress", "time advances for ever");
        continue;
      }
      if (!W->fair) {
        W->fair = true;
        W->fair_start = steps_now();
        note("--- faults end (idle) ---");
      }
      W->fair_start = steps_now();
      note("--- idle stage %d ---", W->stage);
      for (Thread* t : W->threads)
        if (t->st == T_BLOCKED && t->user_dl)
          fail((std::string("C09,") + W->generic_props).c_str(), "timeout-lost", "%s sleeps in an operation with a deadline, without any timer", t->name.c_str());
      if (!W->scen->idle(W->stage++)) return;
      if (W->stage > 200) fail_generic("sim-stages", "scenario does not end");
      continue;
    }
    switch_to(n);
    // predicate waiters are cheap to re-evaluate
    for (size_t i = 0; i < W->threads.size(); i++) {
      Thread* t = W->threads[i];
      if (t->st == T_BLOCKED && t->wk == WK_PRED && t->pred()) wake(t, 0);
    }
  }
}

void sleep_ns(u64 ns) {
  KGuard k;
  Thread* t = W->cur;
  t->wk = WK_SLEEP;
  set_timer(t, 1, mono_ns() + ns);
  block();
}
void block_forever_until(std::function<bool()> pred) {
  KGuard k;
  Thread* t = W->cur;
  while (!pred()) {  // it may have changed between waking up and running
    t->wk = WK_PRED;
    t->pred = pred;
    block();
  }
}

// ------------------------------------------------------------------ runs
static void __attribute__((noinline)) run_guarded(ScenarioFactory f) {
  try {
    W->scen = f();
    W->scen->setup();
    W->cfg = W->scen->cfg;
    host_loop();
  } catch (HostAbort&) {
  } catch (std::exception& e) {
    // a size or position taken from the library's data makes no sense
    W->failed = true;
    if (!g_out->failed) {
      g_out->failed = true;
      snprintf(g_out->props, sizeof g_out->props, "%s", W->generic_props.c_str());
      snprintf(g_out->key, sizeof g_out->key, "corrupt");
      snprintf(g_out->msg, sizeof g_out->msg, "looking at the state leads to an exception: %s", e.what());
    }
  }
}
static void __attribute__((noinline)) run_scenario(ScenarioFactory f) {
  if (!__builtin_setjmp(g_host_jmp)) {
    g_host_jmp_ok = true;
    run_guarded(f);
  }
  g_host_jmp_ok = false;
}
void run_one(ScenarioFactory f, u64 seed, const std::vector<Event>* rev, const std::vector<Choice>* rch, Outcome* out,
             std::vector<Event>* ev_out, std::vector<Choice>* ch_out) {
  *out = Outcome();
  g_out = out;
  g_host_top = HOST_BASE;
  size_t nd = __stop_repodata - __start_repodata, nb = __stop_repobss - __start_repobss;
  if (!g_pristine) {
    g_pristine = (char*)__real_malloc(nd + nb + 1);
    memcpy(g_pristine, __start_repodata, nd);
    memcpy(g_pristine + nd, __start_repobss, nb);
  }
  memset(S.run_faults, 0, sizeof S.run_faults);
  g_loaded = nullptr;
  g_in_run = true;
  g_run_no++;
  g_hook = 0;
  World* w = new World();
  W = w;
  w->seed = seed;
  w->crng.reseed(seed * 2 + 1);
  w->frng.reseed(seed * 3 + 2);
  w->drng.reseed(seed * 5 + 3);
  w->readdir_salt = w->crng.next();
  {  // clocks that are about to reach a full second, or have only just started
    Rng cr;
    cr.reseed(seed * 7 + 5);
    if (cr.chance(0.3)) w->mono_base -= cr.below(cr.chance(0.5) ? 100000 : 3000000);
    else if (cr.chance(0.1)) w->mono_base = 1000000000ull * cr.below(3) + cr.below(1000000000);
    if (cr.chance(0.3)) w->wall_off += 1000000000ll - (long long)((w->mono_base + w->wall_off) % 1000000000) - (long long)cr.below(cr.chance(0.5) ? 100000 : 3000000);
    w->mono_start = w->mono_base;
  }
  if (rev) {
    w->replay = true;
    w->rev = *rev;
    w->rch = *rch;
    std::stable_sort(w->rev.begin(), w->rev.end());
    std::stable_sort(w->rch.begin(), w->rch.end(), [](const Choice& a, const Choice& b) {
      return a.tid != b.tid ? a.tid < b.tid : a.idx < b.idx;
    });
  }
  vfs_init();
  run_scenario(f);
  g_hook = 0;
  w->cur = nullptr;
  out->hash = w->hash ^ hash_mem(g_store, w->store_used);
  out->steps = w->gsteps;
  out->sim_ns = mono_ns() - w->mono_start;
  out->switches = w->switches;
  out->nevents = w->events.size();
  // copy out of the arena
  g_in_run = false;
  if (ev_out) ev_out->assign(w->events.begin(), w->events.end());
  if (ch_out) ch_out->assign(w->choices.begin(), w->choices.end());
  // reset
  size_t used = w->store_used;
  if (used > (1u << 20)) {
    __real_madvise(g_store, VIEW_SIZE, MADV_REMOVE);
  } else {
    memset(g_store, 0, used);
  }
  for (int i = 0; i < NSLOT; i++)
    if (g_slot_used[i]) {
      memset(shadow(HEAP_BASE + ((uintptr_t)i << SLOT_SHIFT)), 0, g_slot_used[i] / 8 + 8);
      g_slot_used[i] = g_slot_live[i] = 0;
    }
  memcpy(__start_repodata, g_pristine, nd);
  memcpy(__start_repobss, g_pristine + nd, nb);
  W = nullptr;
  S.runs++;
  S.steps += out->steps;
  S.sim_ns += out->sim_ns;
  S.switches += out->switches;
  u64 nf = 0;
  for (int i = 0; i < F_NKINDS; i++)
    if (i != F_PREEMPT) nf += S.run_faults[i];
  if (!nf) S.faultfree++;
}

u64 hash_mem(const void* p, size_t n) {
  const u64* q = (const u64*)p;
  u64 h = 0xcbf29ce484222325ull ^ n;
  for (size_t i = 0; i < n / 8; i++) h = (h ^ q[i]) * 0x9E3779B97F4A7C15ull + (h >> 31);
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = n & ~7ull; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  return h;
}

// ------------------------------------------------------------------ access checks
static void bad_access(const char* what, uintptr_t a, size_t n, int w, void* pc) __attribute__((noreturn, noinline));
static void bad_access(const char* what, uintptr_t a, size_t n, int w, void* pc) {
  g_hook = 0;
  char key[128];
  snprintf(key, sizeof key, "memory:%s", what);
  fail_generic(key, "%s: %s of %zu bytes at %lx in %s (pc %p)", what, w ? "write" : "read", n, (long)a,
               W->cur->name.c_str(), pc);
}

static inline void check(uintptr_t a, size_t n, int w, void* pc) {
  if (a - VIEW_BASE < ((size_t)NVIEW << VIEW_SHIFT)) {
    Mapping* m = find_mapping(a);
    if (!m) bad_access("access-to-unmapped-file-memory", a, n, w, pc);
    if (m->proc != W->cur->proc) bad_access("access-to-other-process-mapping", a, n, w, pc);
    if (a < m->start || a + n > m->start + m->len) bad_access("access-outside-mapped-file", a, n, w, pc);
  } else if (in_heap(a)) {
    int slot = (a - HEAP_BASE) >> SLOT_SHIFT;
    if (slot != (W->cur->proc->idx + 1) % NSLOT) bad_access("access-to-other-process-heap", a, n, w, pc);
    unsigned char* s = shadow(a);
    size_t o = a & 7;
    size_t left = n;
    while (left) {
      size_t here = 8 - o < left ? 8 - o : left;
      if (*s < o + here) bad_access("heap-out-of-bounds-or-freed", a, n, w, pc);
      left -= here;
      o = 0;
      s++;
    }
  } else if (a - STACK_BASE < ((size_t)NSTACK << STACK_SHIFT)) {
    int idx = (a - STACK_BASE) >> STACK_SHIFT;
    Thread* o = nullptr;
    for (Thread* t : W->threads)
      if (t->stk_idx == idx) o = t;
    if (!o || o->proc != W->cur->proc) bad_access("access-to-other-process-stack", a, n, w, pc);
    if (o->st == T_DEAD) bad_access("access-to-dead-thread-stack", a, n, w, pc);
  } else if (a < 65536) {
    bad_access("null-pointer-access", a, n, w, pc);
  }
}

static inline bool own_stack(uintptr_t a) { return a - W->cur->stk_lo < STACK_SIZE; }

static inline void access(void* p, size_t n, int w, void* pc) {
  if (!g_hook) return;
  uintptr_t a = (uintptr_t)p;
  if (own_stack(a)) return;
  STEP(1, pc);
  check(a, n, w, pc);
}
static inline void access_atomic(const volatile void* p, size_t n, void* pc) {
  if (!g_hook) return;
  uintptr_t a = (uintptr_t)p;
  STEP(W->cfg.w_atomic, pc);
  if (!own_stack(a)) check(a, n, 1, pc);
}
static void range_copy(char* d, const char* s, size_t n, bool back, void* pc) {
  if (!g_hook || !n || (own_stack((uintptr_t)d) && own_stack((uintptr_t)s))) {
    memmove(d, s, n);
    return;
  }
  size_t chunk = 8;
  if (n > 128) chunk = ((n / 16) + 7) & ~7ull;
  if (!own_stack((uintptr_t)s)) check((uintptr_t)s, n, 0, pc);
  if (!own_stack((uintptr_t)d)) check((uintptr_t)d, n, 1, pc);
  if (!back) {
    for (size_t i = 0; i < n; i += chunk) {
      STEP(1, pc);
      size_t k = n - i < chunk ? n - i : chunk;
      if (!own_stack((uintptr_t)d)) check((uintptr_t)d + i, k, 1, pc);
      memmove(d + i, s + i, k);
    }
  } else {
    size_t i = n;
    while (i) {
      STEP(1, pc);
      size_t k = i < chunk ? i : chunk;
      i -= k;
      memmove(d + i, s + i, k);
    }
  }
}

// ------------------------------------------------------------------ TLS
void* tls_addr(Thread* t, void* ctlv) {
  struct Ctl {
    size_t size, align;
    void* obj;
    void* templ;
  }* ctl = (Ctl*)ctlv;
  for (auto& e : t->tls)
    if (e.ctl == ctlv) return e.ptr;
  KGuard k;
  void* m = heap_alloc(t->proc, ctl->size, ctl->align < 16 ? 16 : ctl->align);
  g_slot_live[(t->proc->idx + 1) % NSLOT]--;  // not the program's business
  if (ctl->templ) {
    memcpy(m, ctl->templ, ctl->size);
  } else {
    memset(m, 0, ctl->size);
  }
  t->tls.push_back(TlsEnt{ctlv, m, ctl->size});
  return m;
}

}  // namespace sim

using namespace sim;

extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                        \
  void __tsan_read##N(void* a) { access(a, N, 0, PC); }              \
  void __tsan_write##N(void* a) { access(a, N, 1, PC); }             \
  void __tsan_read_write##N(void* a) { access(a, N, 1, PC); }        \
  void __tsan_unaligned_read##N(void* a) { access(a, N, 0, PC); }    \
  void __tsan_unaligned_write##N(void* a) { access(a, N, 1, PC); }   \
  void __tsan_unaligned_read_write##N(void* a) { access(a, N, 1, PC); } \
  void __tsan_volatile_read##N(void* a) { access(a, N, 0, PC); }     \
  void __tsan_volatile_write##N(void* a) { access(a, N, 1, PC); }    \
  void __tsan_unaligned_volatile_read##N(void* a) { access(a, N, 0, PC); } \
  void __tsan_unaligned_volatile_write##N(void* a) { access(a, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, 1, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, 0, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, 1, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  range_copy((char*)d, (const char*)s, n, false, PC);
  return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  range_copy((char*)d, (const char*)s, n, (uintptr_t)d > (uintptr_t)s, PC);
  return d;
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (!g_hook || !n || own_stack((uintptr_t)d)) return memset(d, c, n);
  check((uintptr_t)d, n, 1, PC);
  size_t chunk = 8;
  if (n > 128) chunk = ((n / 16) + 7) & ~7ull;
  for (size_t i = 0; i < n; i += chunk) {
    STEP(1, PC);
    size_t k = n - i < chunk ? n - i : chunk;
    memset((char*)d + i, c, k);
  }
  return d;
}

#define AT(BITS, T)                                                                                     \
  T __tsan_atomic##BITS##_load(const volatile T* a, int) {                                              \
    access_atomic(a, sizeof(T), PC);                                                                    \
    return *a;                                                                                          \
  }                                                                                                     \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int) {                                           \
    access_atomic(a, sizeof(T), PC);                                                                    \
    *a = v;                                                                                             \
  }                                                                                                     \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int) {                                           \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    *a = v;                                                                                             \
    return o;                                                                                           \
  }                                                                                                     \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int) {                                          \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    *a = o + v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int) {                                          \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    *a = o - v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int) {                                          \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    *a = o & v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int) {                                           \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    *a = o | v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int) {                                          \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    *a = o ^ v;                                                                                         \
    return o;                                                                                           \
  }                                                                                                     \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int) {                                         \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    *a = ~(o & v);                                                                                      \
    return o;                                                                                           \
  }                                                                                                     \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {               \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    if (o == *c) {                                                                                      \
      *a = v;                                                                                           \
      return 1;                                                                                         \
    }                                                                                                   \
    *c = o;                                                                                             \
    return 0;                                                                                           \
  }                                                                                                     \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) {             \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    if (o == *c) {                                                                                      \
      *a = v;                                                                                           \
      return 1;                                                                                         \
    }                                                                                                   \
    *c = o;                                                                                             \
    return 0;                                                                                           \
  }                                                                                                     \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                     \
    access_atomic(a, sizeof(T), PC);                                                                    \
    T o = *a;                                                                                           \
    if (o == c) *a = v;                                                                                 \
    return o;                                                                                           \
  }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
  if (g_hook) STEP(1, PC);
}
void __tsan_atomic_signal_fence(int) {}

static char g_host_tls[64][2048];
static void* g_host_tls_ctl[64];
void* __emutls_get_address(void* ctl) {
  if (W && W->cur) return tls_addr(W->cur, ctl);
  struct Ctl {
    size_t size, align;
    void* obj;
    void* templ;
  }* c = (Ctl*)ctl;
  for (int i = 0; i < 64; i++) {
    if (g_host_tls_ctl[i] == ctl) return g_host_tls[i];
    if (!g_host_tls_ctl[i]) {
      if (c->size > sizeof g_host_tls[i]) __real_abort();
      g_host_tls_ctl[i] = ctl;
      if (c->templ) memcpy(g_host_tls[i], c->templ, c->size);
      return g_host_tls[i];
    }
  }
  __real_abort();
}

void* __wrap_malloc(size_t n) { return sim_alloc(n); }
void __wrap_free(void* p) {
  if (p) sim_free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
  void* p = sim_alloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return sim_alloc(n);
  uintptr_t a = (uintptr_t)p;
  if (!in_host(a) && !in_heap(a)) {
    if (!g_in_run) return __real_realloc(p, n);
    return __real_realloc(p, n);
  }
  void* q = sim_alloc(n);
  size_t o = sim_usable(p);
  memcpy(q, p, o < n ? o : n);
  sim_free(p);
  return q;
}
char* __wrap_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)sim_alloc(n);
  memcpy(p, s, n);
  return p;
}
char* __wrap_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  char* p = (char*)sim_alloc(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
  if (g_in_run && g_hook && W->cur) {
    KGuard k;
    *out = heap_alloc(W->cur->proc, n, al < 16 ? 16 : al);
    return 0;
  }
  *out = sim_alloc(n);
  return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
  void* p = nullptr;
  __wrap_posix_memalign(&p, al, n);
  return p;
}
void __wrap_abort(void) {
  if (g_in_run && W && W->cur) {
    g_hook = 0;
    fail_generic("abort", "abort() called in %s", W->cur->name.c_str());
  }
  __real_abort();
}
}  // extern "C"

void* operator new(size_t n) { return sim_alloc(n); }
void* operator new[](size_t n) { return sim_alloc(n); }
void operator delete(void* p) noexcept {
  if (p) sim_free(p);
}
void operator delete[](void* p) noexcept {
  if (p) sim_free(p);
}
void operator delete(void* p, size_t) noexcept {
  if (p) sim_free(p);
}
void operator delete[](void* p, size_t) noexcept {
  if (p) sim_free(p);
}
