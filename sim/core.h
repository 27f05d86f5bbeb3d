// Simulator internals shared by core.cpp, kern.cpp and main.cpp.
#pragma once
#include <setjmp.h>

#include "sim.h"

namespace sim {

const uintptr_t HOST_BASE = 0x0f0000000000ull;
const size_t HOST_SIZE = 1ull << 30;
const uintptr_t HEAP_BASE = 0x100000000000ull;
const int NSLOT = 64;
const int SLOT_SHIFT = 26;
const size_t HEAP_SIZE = (size_t)NSLOT << SLOT_SHIFT;
const uintptr_t SHADOW_BASE = 0x180000000000ull;
const size_t SHADOW_SIZE = HEAP_SIZE / 8;
const uintptr_t VIEW_BASE = 0x200000000000ull;
const int NVIEW = 1024;
const int VIEW_SHIFT = 25;
const size_t VIEW_SIZE = 1ull << VIEW_SHIFT;
const uintptr_t STACK_BASE = 0x300000000000ull;
const int NSTACK = 240;
const int STACK_SHIFT = 19;
const size_t STACK_SIZE = 256 * 1024;

enum EvKind { E_PREEMPT, E_KILL, E_STALL, E_WALL, E_SUSPEND, E_SPURIOUS, E_EINTR, E_NKINDS };
extern const char* const kEvName[E_NKINDS];

struct Event {
  u32 tid;    // thread id (proc<<8|index)
  u64 step;   // thread-local step
  int kind;
  long long arg;
  u64 pc;
  bool operator<(const Event& o) const { return tid != o.tid ? tid < o.tid : step < o.step; }
};
struct Choice {
  u32 tid;
  u32 idx;
  u32 val;
  int what;
};

struct Key {
  u64 a, b;
  bool operator==(const Key& o) const { return a == o.a && b == o.b; }
  bool operator<(const Key& o) const { return a != o.a ? a < o.a : b < o.b; }
};

enum WaitKind { WK_NONE, WK_FUTEX, WK_REQ, WK_PI, WK_JOIN, WK_MUTEX, WK_COND, WK_SLEEP, WK_POLL, WK_PRED };
enum TState { T_RUN, T_BLOCKED, T_EXITING, T_DEAD };

struct TlsEnt {
  void* ctl;
  void* ptr;
  size_t size;
};

struct Thread {
  // hot
  u64 steps = 0;
  u64 trip = ~0ull;
  long fuel = 0;
  // context
  void* sp = nullptr;
  uintptr_t stk_lo = 0;
  int stk_idx = -1;
  int hook = 0;
  int saved_errno = 0;
  bool long_ok = false;  // the path of a call relative to an open directory may be of any length
  u64 cxa[2] = {0, 0};
  void* once[2] = {0, 0};
  // identity
  u32 id = 0;
  u32 tid = 0;
  Proc* proc = nullptr;
  std::string name;
  TState st = T_RUN;
  std::function<void()> fn;
  void* (*cfn)(void*) = nullptr;
  void* carg = nullptr;
  void* ret = nullptr;
  bool detached = false;
  Rng rng;
  u64 die_at = ~0ull;
  u64 in_steps = 0;
  u64 rot_at = ~0ull;
  u32 nchoice = 0;
  size_t evpos = 0;
  u64 prio = 0;
  void* pc = nullptr;
  u64 nsysfault = 0;
  // waiting
  WaitKind wk = WK_NONE;
  Key key{0, 0}, key2{0, 0};
  u32 bitset = 0;
  int timer_clk = 0;  // 0 none 1 mono 2 real
  u64 deadline = 0;
  u64 user_dl = 0, dl_mono = 0, dl_susp = 0, dl_past = 0;  // deadline of the operation under test, and clocks when it began
  u64 dl_wall = 0;
  int wres = 0;       // 0 ok or errno
  void* wobj = nullptr;
  std::function<bool()> pred;
  u32* uaddr = nullptr;   // futex word waited on
  u32* uaddr2 = nullptr;  // PI word a requeue wait moves to
  bool retry = false;     // woken to complete an owner-death hand-off
  bool joined = false;
  std::vector<TlsEnt> tls;
  // robust list
  uintptr_t robust_head = 0;
  int cb_depth = 0;  // callbacks from the library into the harness
};

struct PiState {
  Thread* owner = nullptr;
  std::vector<Thread*> waiters;
};

struct PMutex {
  Thread* owner = nullptr;
  int count = 0;
  std::vector<Thread*> waiters;
};

struct Inode {
  u64 ino = 0;
  int type = 0;  // 0 file 1 dir 2 symbolic link
  u32 mode = 0;
  int nlink = 0;
  int refs = 0;
  size_t size = 0;
  size_t off = 0, cap = 0;  // extent in the backing store
  std::vector<std::pair<std::string, Inode*>> ents;
  Inode* parent = nullptr;
  std::string target;
  std::vector<std::pair<struct FdObj*, int>> watches;
  bool doomed = false;  // removed while open: its watches go when the last descriptor does
};

struct InEv {
  int wd;
  u32 mask;
  std::string name;
};
enum FdKind { FD_FILE, FD_DIR, FD_URANDOM, FD_INOTIFY, FD_EPOLL, FD_EVENT };
struct FdObj {
  FdKind kind;
  int refs = 1;
  Inode* ino = nullptr;
  size_t pos = 0;
  int flags = 0;
  // inotify
  std::vector<InEv> q;
  std::map<int, std::pair<Inode*, u32>> wds;
  int next_wd = 1;
  bool overflowed = false;
  // epoll
  std::vector<std::pair<int, std::pair<u32, u64>>> eps;
  // eventfd
  u64 cnt = 0;
};
struct Mapping {
  Proc* proc;
  Inode* ino;
  Inode* backing;
  uintptr_t start;
  size_t len;
  bool alive;
  int view;
};

struct World {
  u64 seed = 0;
  Scenario* scen = nullptr;
  FaultCfg cfg;
  Rng crng, frng, drng;
  std::vector<Proc*> procs;
  std::vector<Thread*> threads;
  Thread* cur = nullptr;
  Thread* last = nullptr;
  Thread* forced = nullptr;
  bool fair = false;
  bool replay = false;
  std::vector<Event> rev;          // events to replay, sorted
  std::vector<Choice> rch;         // choices to replay, sorted
  std::vector<Event> events;       // recorded
  std::vector<Choice> choices;     // recorded
  u64 gsteps = 0;
  u64 fair_start = 0;
  std::string no_lock_props;
  u64 mono_base = 1000000000000ull, mono_start = 0;
  u64 susp = 0;
  long long wall_off = 1700000000000000000ll;
  u64 wall_moved = 0;  // total length of all wall-clock steps
  u64 lclk = 0;
  u64 hash = 0x1234567;
  int kills = 0;
  u32 next_tid = 1001;
  int next_stack = 0;
  std::vector<Mapping*> viewmap;
  std::set<void*> dirs;
  u64 names_changed = 0;
  std::map<Key, std::vector<Thread*>> fq;     // FUTEX_WAIT / REQUEUE waiters
  std::map<Key, PiState*> pi;
  std::map<uintptr_t, PMutex*> mtx;
  std::map<uintptr_t, std::vector<Thread*>> cond;
  Inode* root = nullptr;
  u64 next_ino = 2;
  size_t store_used = 4096;
  int nview = 0;
  int nmkstemp = 0;
  std::map<std::string, std::string> env;
  int stage = 0;
  u32 sched_choices = 0;
  u64 fair_rot = 0;
  bool any_overflow = false;
  bool track_ever = false;
  std::set<std::string> ever;      // every regular file that ever had a name
  std::string generic_props = "*";  // before a scenario has named its own: whatever is being checked
  int ntimers = 0;
  u64 switches = 0;
  u64 readdir_salt = 0;
  bool failed = false;
};
extern World* W;

struct Outcome {
  bool failed = false;
  char props[160] = "";
  char key[160] = "";
  char msg[2000] = "";
  u64 hash = 0;
  u64 steps = 0;
  u64 sim_ns = 0;
  u64 switches = 0;
  u64 nevents = 0;
  bool discarded = false;
  char why[200] = "";
};

struct Stats {
  u64 runs = 0, steps = 0, sim_ns = 0, switches = 0, discarded = 0, faultfree = 0;
  u64 faults[F_NKINDS] = {};
  u64 run_faults[F_NKINDS] = {};
  u64 edges_n = 0, crash_n = 0, states_n = 0;
};
extern Stats S;
const size_t EDGE_BITS = 1u << 22;
extern unsigned char* g_edges;   // bitmap of (from pc -> to pc) switches
extern unsigned char* g_crash;   // bitmap of crash pcs
extern unsigned char* g_states;  // bitmap of state signatures
extern std::map<std::string, u64>* g_marks;
void bit_set(unsigned char* bm, u64 h, u64* n);

// run one execution; events/choices given => replay
void run_one(ScenarioFactory f, u64 seed, const std::vector<Event>* rev, const std::vector<Choice>* rch,
             Outcome* out, std::vector<Event>* ev_out, std::vector<Choice>* ch_out);
void init_memory();
std::map<std::string, ScenarioFactory>& registry();
extern bool g_verbose;
extern bool g_in_run;

// internals
struct KGuard {
  int saved;
  KGuard() : saved(g_hook) { g_hook = 0; }
  ~KGuard() { g_hook = saved; }
};
void sys_point(const char* name);              // step at a system call
void hmix(u64 v);
u64 choose(u64 n, double p, int what);         // recorded; 0 = default
void block();                                  // current thread is T_BLOCKED: leave the cpu
void wake(Thread* t, int res);
void exit_thread_kernel(Thread* t);            // robust list, pi hand-off, wait queues
void proc_gone(Proc* p);
void vfs_init();
bool inject(int sysid, std::initializer_list<int> errs, int* err);
void set_timer(Thread* t, int clk, u64 deadline);
void clear_timer(Thread* t);
[[noreturn]] void fail_generic(const char* key, const char* fmt, ...);
void* heap_alloc(Proc* p, size_t n, size_t align = 16);
void heap_free(void* p);
void* tls_addr(Thread* t, void* ctl);
void unqueue(Thread* t);
extern char* g_store;  // view 0 of the backing store
void run_dtor_atfork();
Thread* make_thread(Proc* p, const char* name);
Mapping* find_mapping(uintptr_t a);
void check_timers();

}  // namespace sim
