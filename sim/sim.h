// Deterministic simulator: public interface for scenarios.
#pragma once
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s[2];
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(u64 seed) {
    s[0] = mix(seed);
    s[1] = mix(seed ^ 0x5bd1e995a0a0a0a0ull) | 1;
  }
  u64 next() {
    u64 a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }  // inclusive
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <typename T>
  T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ------------------------------------------------------------- fault kinds
enum Fault {
  F_PREEMPT,     // forced context switch inside the code under test
  F_KILL,        // whole process killed at a step
  F_KILL_LAG,    // thread of a killed process runs on for some steps
  F_STALL,       // time passes while nobody runs
  F_WALL,        // wall clock stepped
  F_SUSPEND,     // boot-time clock advances, monotonic does not
  F_SPURIOUS,    // futex waiter woken without a wake
  F_EINTR,       // interrupted system call
  F_SYSERR,      // system call fails with an injected errno
  F_WAKEORDER,   // waiter other than the first is woken
  F_SHORTREAD,   // read returns fewer bytes
  F_QOVERFLOW,   // inotify queue overflowed
  F_ALLOC,       // caller-supplied allocator fails
  F_DEFER,       // owner-death hand-off of a lock is delayed
  F_THREADEXIT,  // thread ends while holding / waiting
  F_FORK,        // process forked
  F_RESTART,     // process started again after a kill
  F_NKINDS
};
extern const char* const kFaultName[F_NKINDS];

struct FaultCfg {
  int strategy = 0;        // 0 random, 1 priorities (PCT), 2 system-call boundaries mostly
  double gap = 50;         // mean step weight between scheduling events
  int w_atomic = 1;        // step weight of an atomic access
  int w_sys = 1;           // step weight of a system call
  int pct_changes = 3;
  double p_kill = 0;       // probability that an event is a kill (while kills remain)
  int max_kills = 0;
  double p_stall = 0, p_wall = 0, p_suspend = 0, p_spurious = 0, p_eintr = 0;
  double p_syserr = 0;     // per eligible system call
  u32 sysmask = ~0u;       // which system calls may fail (swarm)
  bool unlink_fails = false;  // removing a name may fail as well
  double p_order = 0;      // non-FIFO choices
  int inotify_queue = 16384;
  u64 fault_steps = 60000; // faults stop after this many steps
  u64 fair_steps = 1500000;
  u64 stall_ns = 2000000;
};

enum SysId {
  SYSF_OPEN, SYSF_MKSTEMP, SYSF_FTRUNCATE, SYSF_FSTAT, SYSF_MMAP, SYSF_LINK, SYSF_MKDIR, SYSF_STAT,
  SYSF_INOTIFY, SYSF_WATCH, SYSF_EPOLL, SYSF_EVENTFD, SYSF_THREAD, SYSF_URANDOM, SYSF_FCHMOD,
  SYSF_OPENDIR, SYSF_READDIR, SYSF_UNLINK, SYSF_N
};

// ---------------------------------------------------------------- processes
struct Thread;
struct Proc {
  int idx = 0;
  std::string name;
  bool killable = true;
  int nosysfault = 0;        // >0: system calls of this process do not fail
  bool dying = false;
  bool dead = false;
  bool killed = false;
  u64 dead_at = 0;           // logical clock
  std::vector<Thread*> threads;
  std::map<int, struct FdObj*> fds;
  std::vector<struct Mapping*> maps;
  std::vector<void (*)()> atfork_child;
  int next_fd = 3;
  int nthreads_alive = 0;
  char* globals = nullptr;
  u64 rand48 = 0x1234abcd330eull, randn = 1;  // states of the C library's generators
  int stage = 0;
};

// How the packet ids of the run differ from each other: everywhere, only in the last characters, only in the first.
inline int id_style = 0;
struct Scenario {
  Scenario() { id_style = 0; }
  virtual ~Scenario() {}
  virtual void setup() = 0;               // host context: build processes
  virtual bool idle(int stage) = 0;       // host context: nothing runnable; true = continue
  virtual void proc_dead(Proc*) {}        // host context: process completely gone
  virtual void thread_dead(Thread*) {}    // host context: thread ended (before the kernel cleans up after it)
  FaultCfg cfg;
};
typedef Scenario* (*ScenarioFactory)();
struct ScenarioReg {
  ScenarioReg(const char* name, ScenarioFactory f);
};
#define SCENARIO(NAME, TYPE)                                    \
  static sim::Scenario* make_##TYPE() { return new TYPE(); }    \
  static sim::ScenarioReg reg_##TYPE(NAME, make_##TYPE);

Proc* new_proc(const char* name);
Thread* spawn(Proc* p, const char* name, std::function<void()> fn);
// Fork-like: child starts with a copy of the parent's globals and the calling thread's TLS.
Proc* fork_proc(const char* name, std::function<void()> fn);
Proc* cur_proc();
Thread* cur_thread();
const char* thread_name(Thread* t);
bool thread_done(Thread* t);        // finished or dead
bool thread_blocked(Thread* t);     // waiting inside the simulated kernel
Proc* thread_proc(Thread* t);
uint32_t thread_tid(Thread* t);
void kill_proc(Proc* p);            // explicit kill (scenario driven)
void thread_exit_now();             // end calling thread abruptly, like exit in the middle of things
Rng& cfg_rng();                     // workload parameters, host context
Rng& trng();                        // per-thread workload randomness
u64 lclock();                       // logical clock, unique increasing stamps
bool faults_on();                   // still in the fault phase
u64 boot_ns();
u64 mono_ns();
u64 wall_ns();
u64 suspended_ns();
u64 steps_now();
int chance_fault(Fault kind, double p);   // recorded yes/no choice
void count_fault(Fault kind);
u64 sysfaults();                     // system calls of the calling thread that were made to fail so far
void set_deadline(u64 boot);         // the calling thread is in a timed operation with this deadline (0: no longer)
void sleep_ns(u64 ns);              // simulated sleep of the calling thread
void yield();                       // harness-level scheduling point
void block_forever_until(std::function<bool()> pred);  // polls; harness helper
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace (verbose replay only)
bool verbose();

// Report a violation. props: comma separated property ids.
[[noreturn]] void fail(const char* props, const char* key, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
#define SIM_CHECK(props, key, cond, ...) \
  do {                                   \
    if (!(cond)) sim::fail(props, key, __VA_ARGS__); \
  } while (0)
// properties a generic failure (memory error, crash, hang) of this scenario is reported under
void set_generic_props(const char* props);

// nontrivial-ness and state measures, counted for evidence
void mark(const char* what);        // counts "what happened" events (coverage counters)
void state_sig(u64 h);              // contributes to the number of distinct observed states

// ------------------------------------------------------------- API guards
extern int g_hook;
void cb_depth(int d);
void api_done();
struct Api {
  int saved;
  Api() : saved(g_hook) { g_hook = 1; }
  ~Api() {
    g_hook = saved;
    if (!saved) api_done();
  }
};
struct Cb {
  int saved;
  Cb() : saved(g_hook) {
    g_hook = 0;
    cb_depth(1);
  }
  ~Cb() {
    cb_depth(-1);
    g_hook = saved;
  }
};
void no_locks_after_calls(const char* props);  // calls into the library return without holding any lock
void expect_no_locks(const char* props);
// ------------------------------------------------------------- VFS helpers (harness side)
bool vfs_exists(const char* path);
u64 vfs_inode(const char* path);          // 0 if absent
u64 vfs_size(const char* path);
u32 vfs_mode(const char* path);
std::vector<std::string> vfs_list(const char* dir);   // all paths under dir, recursive
void vfs_mkdirs(const char* path);
bool vfs_mkdir(const char* path);
bool vfs_symlink(const char* target, const char* path);
bool vfs_there(const char* path);  // does not follow a symbolic link
bool vfs_islink(const char* path);
u64 vfs_changes();  // names that appeared or went away so far
bool vfs_mkfile(const char* path);
bool vfs_unlink(const char* path);
bool vfs_rmdir(const char* path);
size_t proc_nfds(Proc* p, bool random_only = false);
size_t proc_nmaps(Proc* p);
size_t proc_nblocks(Proc* p);             // blocks of its heap in use
u64 mapping_inode(const void* addr);      // inode behind a mapped address
void vfs_bytes(u64 inode, std::vector<unsigned char>& out);
void set_env(const char* k, const char* v);
void vfs_track_ever();
bool vfs_ever(const char* path);          // a regular file had this name at some time since vfs_track_ever()
bool vfs_isdir(const char* path);
bool inotify_overflowed();
u64 hash_mem(const void* p, size_t n);

}  // namespace sim

#define A(expr) ([&]() { sim::Api _g; return (expr); }())
#define AV(stmt) do { sim::Api _g; stmt; } while (0)
