// Simulated kernel: futexes, threads, files, inotify, clocks.
#include "core.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/file.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

namespace sim {

bool inject(int sysid, std::initializer_list<int> errs, int* err) {
  Thread* t = W->cur;
  if (!t || t->proc->nosysfault || W->cfg.p_syserr <= 0 || !(W->cfg.sysmask >> sysid & 1)) return false;
  u64 v = choose(1 + errs.size(), W->cfg.p_syserr, 200 + sysid);
  if (!v) return false;
  *err = *(errs.begin() + (v - 1));
  count_fault(F_SYSERR);
  t->nsysfault++;
  note("inject syscall error %d (kind %d)", *err, sysid);
  return true;
}

u64 sysfaults() { return W->cur->nsysfault; }

// ------------------------------------------------------------------ mappings
Mapping* find_mapping(uintptr_t a) {
  size_t v = (a - VIEW_BASE) >> VIEW_SHIFT;
  if (v >= W->viewmap.size()) return nullptr;
  Mapping* m = W->viewmap[v];
  return m && m->alive ? m : nullptr;
}
static bool is_view(uintptr_t a) { return a - VIEW_BASE < ((size_t)NVIEW << VIEW_SHIFT); }

static Key key_of(u32* addr) {
  uintptr_t a = (uintptr_t)addr;
  if (is_view(a)) {
    Mapping* m = find_mapping(a);
    if (!m) fail_generic("futex-unmapped", "futex call on unmapped memory in %s", W->cur->name.c_str());
    if (m->ino == m->backing) return Key{m->ino->ino, a - m->start + 1};
  }
  return Key{(1ull << 40) + W->cur->proc->idx, a};
}

// ------------------------------------------------------------------ futex
static PiState* pi_find(const Key& k) {
  auto it = W->pi.find(k);
  return it == W->pi.end() ? nullptr : it->second;
}
static void pi_drop_if_empty(const Key& k) {
  PiState* p = pi_find(k);
  if (p && p->waiters.empty()) W->pi.erase(k);
}

void unqueue(Thread* t) {
  auto rm = [&](std::vector<Thread*>& v) { v.erase(std::remove(v.begin(), v.end(), t), v.end()); };
  switch (t->wk) {
    case WK_FUTEX:
    case WK_REQ: {
      auto it = W->fq.find(t->key);
      if (it != W->fq.end()) {
        rm(it->second);
        if (it->second.empty()) W->fq.erase(it);
      }
      break;
    }
    case WK_PI: {
      PiState* p = pi_find(t->key);
      if (p) rm(p->waiters);
      pi_drop_if_empty(t->key);
      break;
    }
    case WK_MUTEX: {
      auto it = W->mtx.find((uintptr_t)t->wobj);
      if (it != W->mtx.end()) rm(it->second->waiters);
      break;
    }
    case WK_COND: {
      auto it = W->cond.find((uintptr_t)t->wobj);
      if (it != W->cond.end()) rm(it->second);
      break;
    }
    default:
      break;
  }
}

static size_t pick_waiter(size_t n) {
  if (n < 2) return 0;
  size_t i = choose(n, W->cfg.p_order, 10);
  if (i) count_fault(F_WAKEORDER);
  return i;
}

static bool tid_alive(u32 tid) {
  for (Thread* t : W->threads)
    if (t->tid == tid) return t->st != T_DEAD;
  return false;
}
static Thread* by_tid(u32 tid) {
  for (Thread* t : W->threads)
    if (t->tid == tid) return t;
  return nullptr;
}

static int futex_wake_key(const Key& k, int n) {
  auto it = W->fq.find(k);
  int done = 0;
  while (done < n && it != W->fq.end()) {
    std::vector<Thread*>& q = it->second;
    size_t i = pick_waiter(q.size());
    Thread* t = q[i];
    if (t->wk == WK_REQ) return -EINVAL;
    q.erase(q.begin() + i);
    wake(t, 0);
    done++;
    if (q.empty()) {
      W->fq.erase(it);
      it = W->fq.end();
    }
  }
  if (!done && n > 0 && pi_find(k)) return -EINVAL;
  return done;
}

// Acquire attempt on behalf of t. 0 = acquired, 1 = must wait (WAITERS set, *owner filled), <0 errno.
static int pi_try(u32* w, const Key& k, Thread* t, bool set_waiters, Thread** owner) {
  u32 v = *w;
  u32 tid = v & FUTEX_TID_MASK;
  if (tid == t->tid) return -EDEADLK;
  PiState* ps = pi_find(k);
  if (ps && !ps->waiters.empty()) {
    if (v & FUTEX_OWNER_DIED) {
      if (!ps->owner) {
        if (tid) return -EINVAL;
      } else if (tid && tid != ps->owner->tid) {
        return -EINVAL;
      }
    } else if (!ps->owner || tid != ps->owner->tid) {
      return -EINVAL;
    }
    *owner = ps->owner;
    return 1;
  }
  if (!tid) {
    u32 nv = (v & FUTEX_OWNER_DIED) | t->tid;
    if (set_waiters) nv |= FUTEX_WAITERS;
    *w = nv;
    return 0;
  }
  if (!tid_alive(tid)) {
    *w = v | FUTEX_WAITERS;
    return -ESRCH;
  }
  *w = v | FUTEX_WAITERS;
  *owner = by_tid(tid);
  return 1;
}

// give the lock to t (already first to run) after the owner died or unlocked
static void pi_grant_dead(u32* w, PiState* ps, const Key& k, Thread* t) {
  u32 v = *w;
  u32 nt = t->tid | FUTEX_WAITERS;
  if (!ps->owner) nt |= FUTEX_OWNER_DIED;
  *w = (v & FUTEX_OWNER_DIED) | nt;
  ps->owner = t;
  ps->waiters.erase(std::remove(ps->waiters.begin(), ps->waiters.end(), t), ps->waiters.end());
  pi_drop_if_empty(k);
}

static void pi_enqueue(const Key& k, Thread* t, Thread* owner) {
  PiState*& ps = W->pi[k];
  if (!ps) {
    ps = new PiState();
    ps->owner = owner;
  }
  ps->waiters.push_back(t);
  t->wk = WK_PI;
  t->key = k;
}

// blocked PI waiter: returns 0 or errno once decided
static int pi_wait_loop(Thread* t) {
  int clk = t->timer_clk;
  u64 dl = t->deadline;
  for (;;) {
    t->retry = false;
    block();
    if (!t->retry) return t->wres;
    PiState* ps = pi_find(t->key);
    if (ps && !ps->owner) {
      pi_grant_dead(t->uaddr, ps, t->key, t);
      return 0;
    }
    if ((*t->uaddr & FUTEX_TID_MASK) == t->tid) return 0;  // whoever took it in between passed it on to us
    if (clk) set_timer(t, clk, dl);
  }
}

// the lock of ps has no owner: hand it on
static void pi_handoff_dead(const Key& k, bool allow_defer) {
  PiState* ps = pi_find(k);
  if (!ps || ps->owner) return;
  for (Thread* t : ps->waiters)
    if (t->retry && t->st == T_RUN) return;  // already on its way
  if (ps->waiters.empty()) return;
  Thread* t = ps->waiters[pick_waiter(ps->waiters.size())];
  if (t->st != T_BLOCKED) return;
  if (allow_defer && choose(2, W->cfg.p_order, 11)) {
    count_fault(F_DEFER);
    t->retry = true;
    wake(t, 0);
    return;
  }
  pi_grant_dead(t->uaddr, ps, k, t);
  wake(t, 0);
}

static int futex_lock_pi(u32* w, const struct timespec* to, bool tryonly) {
  Thread* t = W->cur;
  Key k = key_of(w);
  if (to && (to->tv_sec < 0 || to->tv_nsec < 0 || to->tv_nsec >= 1000000000)) return -EINVAL;
  Thread* owner = nullptr;
  int r = pi_try(w, k, t, false, &owner);
  if (r <= 0) return r;
  PiState* ps = pi_find(k);
  if (ps && !ps->owner && choose(2, W->cfg.p_order, 12)) {
    // the woken waiter has not run yet: equal priority tasks may take the lock first
    *w = (*w & FUTEX_OWNER_DIED) | t->tid | FUTEX_WAITERS | FUTEX_OWNER_DIED;
    ps->owner = t;
    return 0;
  }
  if (tryonly) return -EAGAIN;
  t->key2 = Key{0, 0};
  t->uaddr = w;
  pi_enqueue(k, t, owner);
  if (to) set_timer(t, 2, (u64)to->tv_sec * 1000000000ull + to->tv_nsec);
  return -pi_wait_loop(t);
}

static int futex_unlock_pi(u32* w) {
  Thread* t = W->cur;
  Key k = key_of(w);
  u32 v = *w;
  if ((v & FUTEX_TID_MASK) != t->tid) return -EPERM;
  PiState* ps = pi_find(k);
  if (ps && !ps->waiters.empty()) {
    if (ps->owner != t) return -EINVAL;
    size_t i = pick_waiter(ps->waiters.size());
    Thread* n = ps->waiters[i];
    ps->waiters.erase(ps->waiters.begin() + i);
    *w = n->tid | FUTEX_WAITERS;
    ps->owner = n;
    pi_drop_if_empty(k);
    if (n->st == T_BLOCKED) wake(n, 0);
    return 0;
  }
  *w = 0;
  return 0;
}

static int futex_wait(u32* w, u32 val, int clk, u64 deadline) {
  Thread* t = W->cur;
  Key k = key_of(w);
  if (*w != val) return -EAGAIN;
  t->wk = WK_FUTEX;
  t->key = k;
  t->uaddr = w;
  W->fq[k].push_back(t);
  if (clk) set_timer(t, clk, deadline);
  block();
  return -t->wres;
}

static int futex_wait_requeue_pi(u32* w, u32 val, const struct timespec* to, u32* w2) {
  Thread* t = W->cur;
  if (w == w2) return -EINVAL;
  Key k = key_of(w), k2 = key_of(w2);
  if (to && (to->tv_sec < 0 || to->tv_nsec < 0 || to->tv_nsec >= 1000000000)) return -EINVAL;
  if (*w != val) return -EAGAIN;
  t->wk = WK_REQ;
  t->key = k;
  t->key2 = k2;
  t->uaddr = w;
  t->uaddr2 = w2;
  W->fq[k].push_back(t);
  if (to) set_timer(t, 1, (u64)to->tv_sec * 1000000000ull + to->tv_nsec);
  int r = pi_wait_loop(t);
  t->key2 = Key{0, 0};
  return -r;
}

static int futex_cmp_requeue_pi(u32* w, int nr_wake, long nr_requeue, u32* w2, u32 val) {
  if (w == w2) return -EINVAL;
  if (nr_wake != 1) return -EINVAL;
  if (nr_requeue < 0) return -EINVAL;
  Key k = key_of(w), k2 = key_of(w2);
  if (*w != val) return -EAGAIN;
  auto it = W->fq.find(k);
  if (it == W->fq.end()) return 0;
  std::vector<Thread*> q;
  {
    // waiters in the order they are served
    std::vector<Thread*> src = it->second;
    while (!src.empty()) {
      size_t i = pick_waiter(src.size());
      q.push_back(src[i]);
      src.erase(src.begin() + i);
    }
  }
  long task_count = 0;
  size_t pos = 0;
  {
    Thread* top = q[0];
    if (top->wk != WK_REQ) return -EINVAL;
    if (!(top->key2 == k2)) return -EINVAL;
    Thread* owner = nullptr;
    int r = pi_try(w2, k2, top, nr_requeue > 0, &owner);
    if (r < 0) return r;
    if (r == 0) {
      unqueue(top);
      top->wk = WK_PI;
      top->key = k2;
      wake(top, 0);
      task_count = 1;
      pos = 1;
    } else {
      PiState*& ps = W->pi[k2];
      if (!ps) {
        ps = new PiState();
        ps->owner = owner;
      }
    }
  }
  for (; pos < q.size(); pos++) {
    if (task_count - nr_wake >= nr_requeue) break;
    Thread* t = q[pos];
    if (t->wk != WK_REQ) return -EINVAL;
    if (!(t->key2 == k2)) return -EINVAL;
    unqueue(t);
    t->uaddr = t->uaddr2;
    Thread* owner = by_tid(*w2 & FUTEX_TID_MASK);
    pi_enqueue(k2, t, owner);
    task_count++;
  }
  pi_drop_if_empty(k2);
  pi_handoff_dead(k2, true);
  return (int)task_count;
}

static long do_futex(u32* w, int op, u32 val, uintptr_t a4, u32* w2, u32 val3) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  const struct timespec* ts = (const struct timespec*)a4;
  switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      int clk = 0;
      u64 dl = 0;
      if (ts) {
        if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return -EINVAL;
        dl = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
        clk = (op & FUTEX_CLOCK_REALTIME) ? 2 : 1;
        if (cmd == FUTEX_WAIT) dl += clk == 2 ? wall_ns() : mono_ns();
      }
      return futex_wait(w, val, clk, dl);
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET:
      return futex_wake_key(key_of(w), (int)val);
    case FUTEX_LOCK_PI:
      return futex_lock_pi(w, ts, false);
    case FUTEX_TRYLOCK_PI:
      return futex_lock_pi(w, nullptr, true);
    case FUTEX_UNLOCK_PI:
      return futex_unlock_pi(w);
    case FUTEX_WAIT_REQUEUE_PI:
      return futex_wait_requeue_pi(w, val, ts, w2);
    case FUTEX_CMP_REQUEUE_PI:
      return futex_cmp_requeue_pi(w, (int)val, (int)a4, w2, val3);
  }
  return -ENOSYS;
}

// ------------------------------------------------------------------ thread death
static bool user_ok(Proc* p, uintptr_t a, size_t n) {
  if (is_view(a)) {
    Mapping* m = find_mapping(a);
    return m && m->proc == p && a >= m->start && a + n <= m->start + m->len;
  }
  if (a - HEAP_BASE < HEAP_SIZE) return (int)((a - HEAP_BASE) >> SLOT_SHIFT) == (p->idx + 1) % NSLOT;
  if (a - STACK_BASE < ((size_t)NSTACK << STACK_SHIFT)) return ((a - STACK_BASE) & ((1u << STACK_SHIFT) - 1)) >= (1u << STACK_SHIFT) - STACK_SIZE;
  return a - HOST_BASE < HOST_SIZE;
}

static Key key_for(Proc* p, u32* w) {
  uintptr_t a = (uintptr_t)w;
  if (is_view(a)) {
    Mapping* m = find_mapping(a);
    if (m && m->ino == m->backing) return Key{m->ino->ino, a - m->start + 1};
  }
  return Key{(1ull << 40) + p->idx, a};
}

static int futex_death(Thread* t, uintptr_t a, bool pending) {
  if (a & 3) return -1;
  if (!user_ok(t->proc, a, 4)) return -1;
  u32* w = (u32*)a;
  u32 v = *w;
  u32 owner = v & FUTEX_TID_MASK;
  if (pending && !owner) {
    futex_wake_key(key_for(t->proc, w), 1);
    return 0;
  }
  if (owner != t->tid) return 0;
  *w = (v & FUTEX_WAITERS) | FUTEX_OWNER_DIED;
  note("robust: owner died mark at %lx", (long)a);
  if (v & FUTEX_WAITERS) futex_wake_key(key_for(t->proc, w), 1);
  return 0;
}

void cb_depth(int d) {
  if (W->cur) W->cur->cb_depth += d;
}
void no_locks_after_calls(const char* props) { W->no_lock_props = props; }
void expect_no_locks(const char* props) {
  Thread* t = W->cur;
  uintptr_t h = t->robust_head;
  if (!h || t->st != T_RUN || t->die_at != ~0ull || !user_ok(t->proc, h, 24)) return;
  if (*(uintptr_t*)h != h) fail(props, "lock-kept", "%s still holds a lock after its call returned", t->name.c_str());
}
void api_done() {
  if (W->cur && !W->cur->cb_depth && !W->no_lock_props.empty()) expect_no_locks(W->no_lock_props.c_str());
}

void exit_thread_kernel(Thread* t) {
  // waiting queues
  bool pi = t->wk == WK_PI && (t->retry || t->st == T_BLOCKED);
  Key k = t->key;
  unqueue(t);
  clear_timer(t);
  t->wk = WK_NONE;
  if (pi) pi_handoff_dead(k, false);
  // robust list
  uintptr_t h = t->robust_head;
  if (h && user_ok(t->proc, h, 24)) {
    uintptr_t* head = (uintptr_t*)h;
    uintptr_t entry = head[0];
    long off = (long)head[1];
    uintptr_t pend = head[2] & ~1ull;
    int limit = 2048;
    bool stop = false;
    while (entry && (entry & ~1ull) != h) {
      uintptr_t e = entry & ~1ull;
      bool rc = user_ok(t->proc, e, 8);
      uintptr_t next = rc ? *(uintptr_t*)e : 0;
      if (e != pend && futex_death(t, e + off, false)) {
        stop = true;
        break;
      }
      if (!rc) {
        stop = true;
        break;
      }
      entry = next;
      if (!--limit) break;
    }
    if (!stop && pend) futex_death(t, pend + off, true);
  }
  // priority inheritance hand-off
  std::vector<Key> owned;
  for (auto& e : W->pi)
    if (e.second->owner == t) owned.push_back(e.first);
  for (auto& kk : owned) {
    PiState* ps = pi_find(kk);
    if (!ps) continue;
    ps->owner = nullptr;
    pi_handoff_dead(kk, true);
  }
  // pthread mutexes die with their owner only if the whole process dies
}

// ------------------------------------------------------------------ vfs
static Inode* new_inode(int type, u32 mode) {
  Inode* n = new Inode();
  n->ino = W->next_ino++;
  n->type = type;
  n->mode = mode;
  return n;
}
void vfs_init() {
  W->root = new_inode(1, 0755);
  W->root->nlink = 1;
  W->root->parent = W->root;
  W->viewmap.push_back(nullptr);
}
static Inode* lookup(Inode* d, const std::string& name) {
  if (name == "." || name.empty()) return d;
  if (name == "..") return d->parent;
  for (auto& e : d->ents)
    if (e.first == name) return e.second;
  return nullptr;
}
// resolve; *parent and *last are set when the parent directory exists
// What scenarios do to the file system directly is not bound to the length of a path that can be given to a system call.
static bool g_anylen;
struct VGuard : KGuard {
  VGuard() { g_anylen = true; }
  ~VGuard() { g_anylen = false; }
};
static Inode* resolve(const char* path, Inode** parent, std::string* last, int* err, bool follow = true, int depth = 0) {
  Inode* cur = W->root;
  if (parent) *parent = nullptr;
  *err = ENOENT;
  if (!path || !*path) return nullptr;
  std::string p(path);
  if (p.size() >= PATH_MAX && !g_anylen && !(W->cur && W->cur->long_ok)) {
    *err = ENAMETOOLONG;
    return nullptr;
  }
  size_t i = 0;
  std::vector<std::string> parts;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    if (j > i) parts.push_back(p.substr(i, j - i));
    i = j + 1;
  }
  bool trail = p.size() > 1 && p.back() == '/';
  for (size_t n = 0; n < parts.size(); n++) {
    if (cur->type != 1) {
      *err = ENOTDIR;
      return nullptr;
    }
    if (parts[n].size() > 255) {
      *err = ENAMETOOLONG;
      return nullptr;
    }
    Inode* nx = lookup(cur, parts[n]);
    if (nx && nx->type == 2 && (n + 1 < parts.size() || trail || follow)) {
      if (depth > 20) {
        *err = ELOOP;
        return nullptr;
      }
      std::string rest = nx->target;
      for (size_t m = n + 1; m < parts.size(); m++) rest += "/" + parts[m];
      if (trail) rest += "/";
      return resolve(rest.c_str(), parent, last, err, follow, depth + 1);
    }
    if (n + 1 == parts.size()) {
      if (parent) *parent = cur;
      if (last) *last = parts[n];
      if (nx && trail && nx->type != 1) {
        *err = ENOTDIR;
        return nullptr;
      }
      return nx;
    }
    if (!nx) return nullptr;
    cur = nx;
  }
  if (parent) *parent = cur;
  return cur;
}

static bool fd_ready(FdObj* f);
static bool epoll_any(FdObj* ep, Proc* p) {
  for (auto& e : ep->eps) {
    auto it = p->fds.find(e.first);
    if (it != p->fds.end() && (e.second.first & EPOLLIN) && fd_ready(it->second)) return true;
  }
  return false;
}
static bool fd_ready(FdObj* f) {
  switch (f->kind) {
    case FD_INOTIFY: return !f->q.empty();
    case FD_EVENT: return f->cnt > 0;
    default: return true;
  }
}
static void poll_wake() {
  for (Thread* t : W->threads) {
    if (t->st != T_BLOCKED || t->wk != WK_POLL) continue;
    FdObj* f = (FdObj*)t->wobj;
    bool r = f->kind == FD_EPOLL ? epoll_any(f, t->proc) : fd_ready(f);
    if (r) wake(t, 0);
  }
}

static void push_ev(FdObj* f, int wd, u32 mask, const std::string& name) {
  if (!f->q.empty()) {
    InEv& l = f->q.back();
    if (l.wd == wd && l.mask == mask && l.name == name) return;
    if (l.wd == -1 && (int)f->q.size() > W->cfg.inotify_queue) return;
  }
  if ((int)f->q.size() >= W->cfg.inotify_queue) {
    if (!f->q.empty() && f->q.back().wd == -1) return;
    f->q.push_back(InEv{-1, IN_Q_OVERFLOW, ""});
    f->overflowed = true;
    W->any_overflow = true;
    count_fault(F_QOVERFLOW);
    return;
  }
  f->q.push_back(InEv{wd, mask, name});
}
static void notify(Inode* dir, u32 mask, const std::string& name) {
  for (auto& w : dir->watches) {
    auto it = w.first->wds.find(w.second);
    if (it == w.first->wds.end()) continue;
    if (it->second.second & mask & 0xfff) push_ev(w.first, w.second, mask, name);
  }
  poll_wake();
}
static void drop_watches(Inode* n, u32 selfmask) {
  auto ws = n->watches;
  n->watches.clear();
  for (auto& w : ws) {
    auto it = w.first->wds.find(w.second);
    if (it == w.first->wds.end()) continue;
    if (it->second.second & selfmask) push_ev(w.first, w.second, selfmask | (n->type == 1 ? 0 : 0), "");
    push_ev(w.first, w.second, IN_IGNORED, "");
    w.first->wds.erase(it);
  }
  poll_wake();
}

static void ino_alloc(Inode* n, size_t size) {
  size_t cap = (size + 4095) & ~4095ull;
  if (cap > n->cap) {
    size_t off = W->store_used;
    if (off + cap > VIEW_SIZE) fail_generic("sim-store-full", "simulated file store exhausted");
    if (n->cap) memcpy(g_store + off, g_store + n->off, n->size < n->cap ? n->size : n->cap);
    W->store_used = off + cap;
    n->off = off;
    n->cap = cap;
  }
  if (size < n->size) memset(g_store + n->off + size, 0, n->size - size);
  n->size = size;
}

static FdObj* getfd(int fd) {
  Proc* p = W->cur->proc;
  auto it = p->fds.find(fd);
  return it == p->fds.end() ? nullptr : it->second;
}
static int newfd(FdObj* f) {
  Proc* p = W->cur->proc;
  int fd = 3;
  while (p->fds.count(fd)) fd++;
  p->fds[fd] = f;
  return fd;
}
static bool ino_open(Inode* n) {
  for (Proc* p : W->procs)
    for (auto& e : p->fds)
      if (e.second->ino == n) return true;
  return false;
}
static void put_obj(FdObj* f) {
  if (--f->refs) return;
  if (f->ino && f->ino->doomed && !ino_open(f->ino)) {
    f->ino->doomed = false;
    drop_watches(f->ino, IN_DELETE_SELF);
  }
  if (f->kind == FD_INOTIFY) {
    for (auto& w : f->wds) {
      auto& ws = w.second.first->watches;
      for (size_t i = 0; i < ws.size();)
        if (ws[i].first == f)
          ws.erase(ws.begin() + i);
        else
          i++;
    }
    f->wds.clear();
  }
}
static void close_fd(Proc* p, int fd) {
  auto it = p->fds.find(fd);
  FdObj* f = it->second;
  p->fds.erase(it);
  for (auto& e : p->fds)
    if (e.second->kind == FD_EPOLL) {
      auto& eps = e.second->eps;
      for (size_t i = 0; i < eps.size();)
        if (eps[i].first == fd)
          eps.erase(eps.begin() + i);
        else
          i++;
    }
  put_obj(f);
}
void proc_gone(Proc* p) {
  while (!p->fds.empty()) close_fd(p, p->fds.begin()->first);
  for (Mapping* m : p->maps) m->alive = false;
  p->maps.clear();
}

static std::string dir_path(Inode* d) {
  std::string p;
  while (d != W->root && d->parent) {
    for (auto& e : d->parent->ents)
      if (e.second == d) p = "/" + e.first + p;
    d = d->parent;
  }
  return p;
}
static void remember(Inode* dir, const std::string& name) {
  if (W->track_ever) W->ever.insert(dir_path(dir) + "/" + name);
}
static Inode* do_create(Inode* dir, const std::string& name, int type, u32 mode) {
  Inode* n = new_inode(type, mode);
  n->nlink = 1;
  n->parent = dir;
  dir->ents.push_back({name, n});
  W->names_changed++;
  if (type == 0) remember(dir, name);
  notify(dir, IN_CREATE | (type == 1 ? IN_ISDIR : 0), name);
  return n;
}
static void rm_ent(Inode* dir, const std::string& name) {
  for (size_t i = 0; i < dir->ents.size(); i++)
    if (dir->ents[i].first == name) {
      dir->ents.erase(dir->ents.begin() + i);
      W->names_changed++;
      return;
    }
}
static int do_unlink(const char* path, bool dirok, bool fileok) {
  Inode* d;
  std::string last;
  int err;
  Inode* n = resolve(path, &d, &last, &err, false);
  if (!n) return err;
  if (n->type == 1) {
    if (!dirok) return EISDIR;
    if (n == W->root) return EBUSY;
    if (!n->ents.empty()) return ENOTEMPTY;
  } else if (!fileok) {
    return ENOTDIR;
  }
  rm_ent(d, last);
  n->nlink--;
  notify(d, IN_DELETE | (n->type == 1 ? IN_ISDIR : 0), last);
  if (n->nlink == 0 && !n->watches.empty()) {
    if (ino_open(n))
      n->doomed = true;
    else
      drop_watches(n, IN_DELETE_SELF);
  }
  return 0;
}
static int do_mkdir(const char* path, u32 mode) {
  Inode* d;
  std::string last;
  int err;
  Inode* n = resolve(path, &d, &last, &err);
  if (n) return EEXIST;
  if (!d) return err;
  do_create(d, last, 1, mode);
  return 0;
}
static void fill_stat(Inode* n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 7;
  st->st_ino = n->ino;
  st->st_mode = (n->type == 1 ? S_IFDIR : n->type == 2 ? S_IFLNK : S_IFREG) | n->mode;
  st->st_nlink = n->nlink;
  st->st_size = n->size;
  st->st_blksize = 4096;
  st->st_blocks = n->cap / 512;
}

// harness helpers
bool vfs_there(const char* p) {
  VGuard k;
  int e;
  return resolve(p, nullptr, nullptr, &e, false) != nullptr;
}
u64 vfs_changes() { return W->names_changed; }
bool vfs_islink(const char* p) {
  VGuard k;
  int e;
  Inode* n = resolve(p, nullptr, nullptr, &e, false);
  return n && n->type == 2;
}
bool vfs_exists(const char* p) {
  VGuard k;
  int e;
  return resolve(p, nullptr, nullptr, &e) != nullptr;
}
u64 vfs_inode(const char* p) {
  VGuard k;
  int e;
  Inode* n = resolve(p, nullptr, nullptr, &e);
  return n ? n->ino : 0;
}
u64 vfs_size(const char* p) {
  VGuard k;
  int e;
  Inode* n = resolve(p, nullptr, nullptr, &e);
  return n ? n->size : 0;
}
u32 vfs_mode(const char* p) {
  VGuard k;
  int e;
  Inode* n = resolve(p, nullptr, nullptr, &e);
  return n ? n->mode : 0;
}
static void list_rec(Inode* d, const std::string& pre, std::vector<std::string>& out) {
  for (auto& e : d->ents) {
    out.push_back(pre + "/" + e.first);
    if (e.second->type == 1) list_rec(e.second, pre + "/" + e.first, out);
  }
}
std::vector<std::string> vfs_list(const char* dir) {
  VGuard k;
  std::vector<std::string> out;
  int e;
  Inode* n = resolve(dir, nullptr, nullptr, &e);
  std::string pre = dir;
  if (pre == "/") pre = "";
  if (n && n->type == 1) list_rec(n, pre, out);
  return out;
}
bool vfs_mkdir(const char* p) {
  VGuard k;
  return do_mkdir(p, 0755) == 0;
}
void vfs_mkdirs(const char* path) {
  VGuard k;
  std::string p(path);
  for (size_t i = 1; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/') do_mkdir(p.substr(0, i).c_str(), 0755);
}
bool vfs_mkfile(const char* path) {
  VGuard k;
  Inode* d;
  std::string last;
  int err;
  Inode* n = resolve(path, &d, &last, &err);
  if (n || !d) return false;
  do_create(d, last, 0, 0644);
  return true;
}
bool vfs_symlink(const char* target, const char* path) {
  VGuard k;
  Inode* d;
  std::string last;
  int err;
  Inode* n = resolve(path, &d, &last, &err, false);
  if (n || !d) return false;
  do_create(d, last, 2, 0777)->target = target;
  return true;
}
bool vfs_unlink(const char* p) {
  VGuard k;
  return do_unlink(p, false, true) == 0;
}
bool vfs_rmdir(const char* p) {
  VGuard k;
  return do_unlink(p, true, false) == 0;
}
size_t proc_nfds(Proc* p, bool random_only) {
  if (!random_only) return p->fds.size();
  size_t n = 0;
  for (auto& f : p->fds) n += f.second->kind == FD_URANDOM;
  return n;
}
size_t proc_nmaps(Proc* p) { return p->maps.size(); }
u64 mapping_inode(const void* a) {
  if (!is_view((uintptr_t)a)) return 0;
  Mapping* m = find_mapping((uintptr_t)a);
  return m ? m->ino->ino : 0;
}
static Inode* find_ino(Inode* d, u64 ino) {
  for (auto& e : d->ents) {
    if (e.second->ino == ino) return e.second;
    if (e.second->type == 1) {
      Inode* r = find_ino(e.second, ino);
      if (r) return r;
    }
  }
  return nullptr;
}
void vfs_bytes(u64 ino, std::vector<unsigned char>& out) {
  Inode* n = find_ino(W->root, ino);
  out.clear();
  if (n) out.assign((unsigned char*)g_store + n->off, (unsigned char*)g_store + n->off + n->size);
}
void set_env(const char* k, const char* v) { W->env[k] = v; }
void vfs_track_ever() { W->track_ever = true; }
bool vfs_ever(const char* p) {
  VGuard k;
  return W->ever.count(p) > 0;
}
bool vfs_isdir(const char* p) {
  VGuard k;
  int e;
  Inode* n = resolve(p, nullptr, nullptr, &e);
  return n && n->type == 1;
}
bool inotify_overflowed() { return W->any_overflow; }

}  // namespace sim

using namespace sim;

// ====================================================================== wraps
#define SIMULATED (g_in_run && W && W->cur)
static inline long ret_err(int e) {
  errno = e;
  return -1;
}
#define ENTER(name)  \
  KGuard kg;         \
  sys_point(name);

extern "C" {

long __real_syscall(long, ...);
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (!SIMULATED) return __real_syscall(nr, a, b, c, d, e, f);
  KGuard kg;
  switch (nr) {
    case SYS_futex: {
      sys_point("futex");
      hmix((u64)b * 131 + (u64)c);
      long r = do_futex((u32*)a, (int)b, (u32)c, (uintptr_t)d, (u32*)e, (u32)f);
      hmix((u64)r);
      if (r < 0) return ret_err((int)-r);
      return r;
    }
    case SYS_gettid:
      return W->cur->tid;
    case SYS_getpid:
      return 100 + W->cur->proc->idx;
    case SYS_set_robust_list:
      W->cur->robust_head = (uintptr_t)a;
      return 0;
    case SYS_getrandom: {
      unsigned char* p = (unsigned char*)a;
      for (long i = 0; i < b; i++) p[i] = (unsigned char)W->drng.next();
      return b;
    }
  }
  fail_generic("sim-unsupported", "unsupported syscall %ld", nr);
}
pid_t __wrap_gettid() { return SIMULATED ? (pid_t)W->cur->tid : 1; }
pid_t __wrap_getpid() { return SIMULATED ? 100 + W->cur->proc->idx : (pid_t)__real_syscall(SYS_getpid); }

// ------------------------------------------------------------------ clocks
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  if (!SIMULATED) return __real_clock_gettime(id, ts);
  ENTER("clock");
  u64 v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall_ns() : id == CLOCK_BOOTTIME ? boot_ns() : mono_ns();
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t __wrap_time(time_t* out) {
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  if (!SIMULATED) return __real_nanosleep(a, b);
  ENTER("sleep");
  if (a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999) return ret_err(EINVAL);
  sleep_ns((u64)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec* a, struct timespec*) {
  ENTER("sleep");
  u64 v = (u64)a->tv_sec * 1000000000ull + a->tv_nsec;
  Thread* t = W->cur;
  if (!(flags & TIMER_ABSTIME)) {
    sleep_ns(v);
    return 0;
  }
  t->wk = WK_SLEEP;
  if (id == CLOCK_REALTIME)
    set_timer(t, 2, v);
  else
    set_timer(t, 1, id == CLOCK_BOOTTIME ? (v > W->susp ? v - W->susp : 0) : v);
  block();
  return 0;
}
int __wrap_usleep(unsigned us) {
  ENTER("sleep");
  sleep_ns(us * 1000ull);
  return 0;
}
unsigned __wrap_sleep(unsigned s) {
  ENTER("sleep");
  sleep_ns(s * 1000000000ull);
  return 0;
}
int __wrap_sched_yield() {
  if (SIMULATED) {
    ENTER("yield");
  }
  return 0;
}

// ------------------------------------------------------------------ threads
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!SIMULATED) return __real_pthread_create(out, at, fn, arg);
  ENTER("thread");
  int e;
  if (inject(SYSF_THREAD, {EAGAIN}, &e)) return e;
  Proc* p = W->cur->proc;
  char nm[16];
  snprintf(nm, sizeof nm, "t%zu", p->threads.size());
  Thread* t = make_thread(p, nm);
  t->cfn = fn;
  t->carg = arg;
  *out = (pthread_t)t;
  return 0;
}
static Thread* valid_thread(pthread_t p, const char* what) {
  for (Thread* t : W->threads)
    if ((pthread_t)t == p) return t;
  fail_generic("invalid-thread", "%s on an invalid thread id", what);
}
int __wrap_pthread_join(pthread_t p, void** ret) {
  ENTER("join");
  Thread* t = valid_thread(p, "pthread_join");
  Thread* me = W->cur;
  if (t == me) return EDEADLK;
  if (t->detached || t->joined) fail_generic("double-join", "pthread_join on a thread already joined or detached");
  t->joined = true;
  // A killed thread does not outlive its siblings: it never sees them gone.
  if (t->st != T_DEAD || me->die_at != ~0ull) {
    me->wk = WK_JOIN;
    me->wobj = t;
    block();
  }
  if (ret) *ret = t->ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t p) {
  KGuard kg;
  valid_thread(p, "pthread_detach")->detached = true;
  return 0;
}
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self() {
  if (!SIMULATED) return __real_pthread_self();
  return (pthread_t)W->cur;
}
static uintptr_t lkey(void* m) { return (uintptr_t)m + ((u64)W->cur->proc->idx << 52); }

int __wrap_pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
  if (!SIMULATED) {
    if (!*ctl) {
      *ctl = 2;
      fn();
    }
    return 0;
  }
  {
    ENTER("once");
    while (*ctl == 1) {
      Thread* t = W->cur;
      t->wk = WK_COND;
      t->wobj = (void*)lkey(ctl);
      W->cond[lkey(ctl)].push_back(t);
      block();
    }
    if (*ctl == 2) return 0;
    *ctl = 1;
  }
  fn();
  KGuard kg;
  *ctl = 2;
  auto it = W->cond.find(lkey(ctl));
  if (it != W->cond.end()) {
    auto v = it->second;
    W->cond.erase(it);
    for (Thread* t : v) wake(t, 0);
  }
  return 0;
}
int __wrap_pthread_atfork(void (*)(void), void (*)(void), void (*child)(void)) {
  if (!SIMULATED) return 0;
  KGuard kg;
  if (child) W->cur->proc->atfork_child.push_back(child);
  return 0;
}
static PMutex* pm(void* m) {
  PMutex*& p = W->mtx[lkey(m)];
  if (!p) p = new PMutex();
  return p;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
  if (!SIMULATED) return 0;
  KGuard kg;
  memset(m, 0, sizeof *m);
  W->mtx[lkey(m)] = new PMutex();
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  KGuard kg;
  PMutex* p = pm(m);
  if (p->owner) {
    if (p->owner->st != T_DEAD) fail_generic("mutex-destroyed-locked", "pthread mutex destroyed while locked by %s", p->owner->name.c_str());
    return EBUSY;
  }
  W->mtx.erase(lkey(m));
  return 0;
}
static bool mutex_recursive(pthread_mutex_t* m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  ENTER("mlock");
  PMutex* p = pm(m);
  Thread* t = W->cur;
  if (p->owner == t && mutex_recursive(m)) {
    p->count++;
    return 0;
  }
  if (!p->owner) {
    p->owner = t;
    return 0;
  }
  p->waiters.push_back(t);
  t->wk = WK_MUTEX;
  t->wobj = (void*)lkey(m);
  block();
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  ENTER("mtrylock");
  PMutex* p = pm(m);
  if (p->owner == W->cur && mutex_recursive(m)) {
    p->count++;
    return 0;
  }
  if (p->owner) return EBUSY;
  p->owner = W->cur;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  ENTER("munlock");
  PMutex* p = pm(m);
  if (p->count) {
    p->count--;
    return 0;
  }
  p->owner = nullptr;
  if (!p->waiters.empty()) {
    size_t i = pick_waiter(p->waiters.size());
    Thread* n = p->waiters[i];
    p->waiters.erase(p->waiters.begin() + i);
    p->owner = n;
    wake(n, 0);
  }
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof *c);
  return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wake(void* c, bool all) {
  if (!SIMULATED) return 0;
  ENTER("cwake");
  auto& q = W->cond[lkey(c)];
  while (!q.empty()) {
    size_t i = pick_waiter(q.size());
    Thread* t = q[i];
    q.erase(q.begin() + i);
    wake(t, 0);
    if (!all) break;
  }
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return cond_wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return cond_wake(c, true); }
static int cond_wait(void* c, pthread_mutex_t* m, int clk, u64 dl) {
  int r;
  {
    ENTER("cwait");
    Thread* t = W->cur;
    __wrap_pthread_mutex_unlock(m);
    t->wk = WK_COND;
    t->wobj = (void*)lkey(c);
    W->cond[lkey(c)].push_back(t);
    if (clk) set_timer(t, clk, dl);
    block();
    r = t->wres;
  }
  __wrap_pthread_mutex_lock(m);
  return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, 0, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  return cond_wait(c, m, 2, (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  return cond_wait(c, m, id == CLOCK_REALTIME ? 2 : 1, (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}

// ------------------------------------------------------------------ files
int __real_open(const char*, int, ...);
static int sim_open(const char* path, int flags, u32 mode) {
  int e;
  if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
    if (inject(SYSF_URANDOM, {EMFILE, ENFILE}, &e)) return ret_err(e);
    FdObj* f = new FdObj();
    f->kind = FD_URANDOM;
    return newfd(f);
  }
  if (inject(SYSF_OPEN, {EMFILE, ENFILE, ENOMEM}, &e)) return ret_err(e);
  Inode* d;
  std::string last;
  Inode* n = resolve(path, &d, &last, &e);
  if (n && (flags & O_CREAT) && (flags & O_EXCL)) return ret_err(EEXIST);
  if (n && (flags & O_NOFOLLOW)) {
    n = resolve(path, nullptr, nullptr, &e, false);
    if (n && n->type == 2) return ret_err(ELOOP);
  }
  if (!n) {
    if (!(flags & O_CREAT) || !d) return ret_err(e);
    n = do_create(d, last, 0, mode & 0777);
  }
  if (n->type == 1 && (flags & O_ACCMODE) != O_RDONLY) return ret_err(EISDIR);
  if (n->type != 1 && (flags & O_DIRECTORY)) return ret_err(ENOTDIR);
  if (flags & O_TRUNC) ino_alloc(n, 0);
  FdObj* f = new FdObj();
  f->kind = n->type == 1 ? FD_DIR : FD_FILE;
  f->ino = n;
  f->flags = flags;
  return newfd(f);
}
int __wrap_open(const char* path, int flags, unsigned mode) {
  if (!SIMULATED) return __real_open(path, flags, mode);
  ENTER("open");
  return sim_open(path, flags, mode);
}
int __wrap_open64(const char* path, int flags, unsigned mode) { return __wrap_open(path, flags, mode); }
// A path relative to an open directory, as a path from the root.
struct At {
  std::string s;
  int err = 0;
  At(int fd, const char* p) : s(p) {
    if (fd == AT_FDCWD || *p == '/') return;
    FdObj* f = getfd(fd);
    if (!f || f->kind != FD_DIR) {
      err = f ? ENOTDIR : EBADF;
      return;
    }
    bool there = f->ino == W->root;
    for (auto& e : f->ino->parent->ents)
      if (e.second == f->ino) there = true;
    if (!there || !*p) {
      err = ENOENT;
      return;
    }
    if (s.size() >= PATH_MAX) {
      err = ENAMETOOLONG;
      return;
    }
    s = dir_path(f->ino) + "/" + s;
    W->cur->long_ok = true;
  }
  ~At() { W->cur->long_ok = false; }
};
int __wrap_openat(int fd, const char* path, int flags, unsigned mode) {
  At at(fd, path);
  return at.err ? ret_err(at.err) : __wrap_open(at.s.c_str(), flags, mode);
}
int __wrap_creat(const char* path, unsigned mode) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int __real_close(int);
int __wrap_close(int fd) {
  if (!SIMULATED) return __real_close(fd);
  ENTER("close");
  if (!getfd(fd)) return ret_err(EBADF);
  close_fd(W->cur->proc, fd);
  return 0;
}
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* buf, size_t n) {
  if (!SIMULATED) return __real_read(fd, buf, n);
  ENTER("read");
  FdObj* f = getfd(fd);
  if (!f) return ret_err(EBADF);
  switch (f->kind) {
    case FD_URANDOM: {
      int e;
      if (inject(SYSF_URANDOM, {EINTR, EIO}, &e)) return ret_err(e);
      size_t m = n;
      if (!W->cur->proc->nosysfault && (W->cfg.sysmask >> SYSF_URANDOM & 1)) {
        m = n - choose(n, W->cfg.p_syserr, 300);
        if (m != n) count_fault(F_SHORTREAD);
      }
      for (size_t i = 0; i < m; i++) ((unsigned char*)buf)[i] = (unsigned char)(W->drng.next() >> 13);
      return m;
    }
    case FD_FILE: {
      size_t m = f->pos < f->ino->size ? f->ino->size - f->pos : 0;
      if (m > n) m = n;
      memcpy(buf, g_store + f->ino->off + f->pos, m);
      f->pos += m;
      return m;
    }
    case FD_EVENT: {
      if (n < 8) return ret_err(EINVAL);
      while (!f->cnt) {
        if (f->flags & EFD_NONBLOCK) return ret_err(EAGAIN);
        W->cur->wk = WK_POLL;
        W->cur->wobj = f;
        block();
        if (W->cur->wres) return ret_err(W->cur->wres);
      }
      *(u64*)buf = (f->flags & EFD_SEMAPHORE) ? 1 : f->cnt;
      f->cnt -= *(u64*)buf;
      return 8;
    }
    case FD_INOTIFY: {
      while (f->q.empty()) {
        if (f->flags & IN_NONBLOCK) return ret_err(EAGAIN);
        W->cur->wk = WK_POLL;
        W->cur->wobj = f;
        block();
        if (W->cur->wres) return ret_err(W->cur->wres);
      }
      size_t o = 0, i = 0;
      for (; i < f->q.size(); i++) {
        InEv& ev = f->q[i];
        size_t nl = ev.name.empty() ? 0 : (ev.name.size() + 1 + 15) & ~15ull;
        if (o + sizeof(inotify_event) + nl > n) break;
        inotify_event* out = (inotify_event*)((char*)buf + o);
        out->wd = ev.wd;
        out->mask = ev.mask;
        out->cookie = 0;
        out->len = nl;
        if (nl) {
          memset(out->name, 0, nl);
          memcpy(out->name, ev.name.data(), ev.name.size());
        }
        o += sizeof(inotify_event) + nl;
      }
      if (!i) return ret_err(EINVAL);
      f->q.erase(f->q.begin(), f->q.begin() + i);
      return o;
    }
    default:
      return ret_err(EISDIR);
  }
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* buf, size_t n) {
  if (!SIMULATED) return __real_write(fd, buf, n);
  ENTER("write");
  if (fd == 1 || fd == 2) return n;
  FdObj* f = getfd(fd);
  if (!f) return ret_err(EBADF);
  switch (f->kind) {
    case FD_EVENT:
      if (n < 8) return ret_err(EINVAL);
      f->cnt += *(const u64*)buf;
      poll_wake();
      return 8;
    case FD_FILE:
      if (f->pos + n > f->ino->size) ino_alloc(f->ino, f->pos + n);
      memcpy(g_store + f->ino->off + f->pos, buf, n);
      f->pos += n;
      return n;
    default:
      return ret_err(EINVAL);
  }
}
ssize_t __wrap_pread(int fd, void* buf, size_t n, off_t off) {
  ENTER("pread");
  FdObj* f = getfd(fd);
  if (!f || f->kind != FD_FILE) return ret_err(EBADF);
  size_t m = (size_t)off < f->ino->size ? f->ino->size - off : 0;
  if (m > n) m = n;
  memcpy(buf, g_store + f->ino->off + off, m);
  return m;
}
ssize_t __wrap_pwrite(int fd, const void* buf, size_t n, off_t off) {
  ENTER("pwrite");
  FdObj* f = getfd(fd);
  if (!f || f->kind != FD_FILE) return ret_err(EBADF);
  if (off + n > f->ino->size) ino_alloc(f->ino, off + n);
  memcpy(g_store + f->ino->off + off, buf, n);
  return n;
}
off_t __wrap_lseek(int fd, off_t off, int wh) {
  ENTER("lseek");
  FdObj* f = getfd(fd);
  if (!f || f->kind != FD_FILE) return ret_err(EBADF);
  f->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : f->ino->size + off;
  return f->pos;
}
int __real_stat(const char*, struct stat*);
static int sim_stat(const char* path, struct stat* st, bool follow = true) {
  ENTER("stat");
  int e;
  if (inject(SYSF_STAT, {ENOMEM}, &e)) return ret_err(e);
  Inode* n = resolve(path, nullptr, nullptr, &e, follow);
  if (!n) return ret_err(e);
  fill_stat(n, st);
  return 0;
}
int __wrap_stat(const char* p, struct stat* st) { return SIMULATED ? sim_stat(p, st) : __real_stat(p, st); }
int __real_lstat(const char*, struct stat*);
int __wrap_lstat(const char* p, struct stat* st) { return SIMULATED ? sim_stat(p, st, false) : __real_lstat(p, st); }
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* st) {
  if (!SIMULATED) return __real_fstat(fd, st);
  ENTER("fstat");
  int e;
  FdObj* f = getfd(fd);
  if (!f) return ret_err(EBADF);
  if (inject(SYSF_FSTAT, {ENOMEM}, &e)) return ret_err(e);
  if (f->ino)
    fill_stat(f->ino, st);
  else
    memset(st, 0, sizeof *st);
  return 0;
}
int __wrap_fstatat(int fd, const char* p, struct stat* st, int fl) {
  if (!*p && (fl & AT_EMPTY_PATH)) return __wrap_fstat(fd, st);
  At at(fd, p);
  return at.err ? ret_err(at.err) : sim_stat(at.s.c_str(), st, !(fl & AT_SYMLINK_NOFOLLOW));
}
int __wrap_access(const char* p, int) {
  ENTER("access");
  int e;
  return resolve(p, nullptr, nullptr, &e) ? 0 : ret_err(e);
}
int __wrap_mkdir(const char* p, mode_t m) {
  ENTER("mkdir");
  int e;
  if (inject(SYSF_MKDIR, {ENOSPC, ENOMEM}, &e)) return ret_err(e);
  e = do_mkdir(p, m & 0777);
  return e ? ret_err(e) : 0;
}
int __wrap_rmdir(const char* p) {
  ENTER("rmdir");
  int e;
  if (W->cfg.unlink_fails && inject(SYSF_UNLINK, {EBUSY, EPERM}, &e)) return ret_err(e);
  e = do_unlink(p, true, false);
  return e ? ret_err(e) : 0;
}
int __wrap_unlink(const char* p) {
  ENTER("unlink");
  int e;
  if (W->cfg.unlink_fails && inject(SYSF_UNLINK, {EBUSY, EPERM}, &e)) return ret_err(e);
  e = do_unlink(p, false, true);
  return e ? ret_err(e) : 0;
}
int __wrap_unlinkat(int fd, const char* p, int fl) {
  At at(fd, p);
  if (at.err) return ret_err(at.err);
  return (fl & AT_REMOVEDIR) ? __wrap_rmdir(at.s.c_str()) : __wrap_unlink(at.s.c_str());
}
int __wrap_remove(const char* p) {
  ENTER("remove");
  int e;
  if (W->cfg.unlink_fails && inject(SYSF_UNLINK, {EBUSY, EPERM}, &e)) return ret_err(e);
  e = do_unlink(p, true, true);
  return e ? ret_err(e) : 0;
}
static int sim_rename(const char* a, const char* b, bool noreplace) {
  Inode *da, *db;
  std::string la, lb;
  int e;
  Inode* n = resolve(a, &da, &la, &e, false);
  if (!n) return ret_err(e);
  Inode* o = resolve(b, &db, &lb, &e, false);
  if (!db) return ret_err(e);
  if (o == n) return 0;
  if (o && noreplace) return ret_err(EEXIST);
  if (o) {
    if (o->type == 1 && (n->type != 1 || !o->ents.empty())) return ret_err(o->ents.empty() ? EISDIR : ENOTEMPTY);
    rm_ent(db, lb);
    if (--o->nlink == 0) drop_watches(o, IN_DELETE_SELF);
  }
  rm_ent(da, la);
  db->ents.push_back({lb, n});
  W->names_changed++;
  n->parent = db;
  if (n->type == 0) remember(db, lb);
  notify(da, IN_MOVED_FROM | (n->type == 1 ? IN_ISDIR : 0), la);
  notify(db, IN_MOVED_TO | (n->type == 1 ? IN_ISDIR : 0), lb);
  return 0;
}
int __wrap_rename(const char* a, const char* b) {
  ENTER("rename");
  int e;
  if (inject(SYSF_LINK, {ENOSPC}, &e)) return ret_err(e);
  return sim_rename(a, b, false);
}
int __wrap_renameat2(int fa, const char* a, int fb, const char* b, unsigned fl) {
  At x(fa, a), y(fb, b);
  ENTER("rename");
  int e;
  if (x.err || y.err) return ret_err(x.err ? x.err : y.err);
  if (inject(SYSF_LINK, {ENOSPC}, &e)) return ret_err(e);
  return sim_rename(x.s.c_str(), y.s.c_str(), fl & 1);
}
int __wrap_link(const char* a, const char* b) {
  ENTER("link");
  int e;
  if (inject(SYSF_LINK, {ENOSPC, ENOMEM}, &e)) return ret_err(e);
  Inode* n = resolve(a, nullptr, nullptr, &e, false);
  if (!n) return ret_err(e);
  if (n->type == 1) return ret_err(EPERM);
  Inode* d;
  std::string last;
  Inode* o = resolve(b, &d, &last, &e);
  if (o) return ret_err(EEXIST);
  if (!d) return ret_err(e);
  d->ents.push_back({last, n});
  W->names_changed++;
  n->nlink++;
  remember(d, last);
  notify(d, IN_CREATE, last);
  return 0;
}
int __sim_linkat(int fa, const char* a, int fb, const char* b, int) {
  At x(fa, a), y(fb, b);
  return x.err || y.err ? ret_err(x.err ? x.err : y.err) : __wrap_link(x.s.c_str(), y.s.c_str());
}
int __sim_renameat(int fa, const char* a, int fb, const char* b) { return __wrap_renameat2(fa, a, fb, b, 0); }
int __sim_mkdirat(int fd, const char* p, mode_t m) {
  At at(fd, p);
  return at.err ? ret_err(at.err) : __wrap_mkdir(at.s.c_str(), m);
}
int __sim_faccessat(int fd, const char* p, int m, int) {
  At at(fd, p);
  return at.err ? ret_err(at.err) : __wrap_access(at.s.c_str(), m);
}
ssize_t __sim_readlinkat(int fd, const char* p, char* buf, size_t n) {
  At at(fd, p);
  if (at.err) return ret_err(at.err);
  ENTER("readlink");
  int e;
  Inode* i = resolve(at.s.c_str(), nullptr, nullptr, &e, false);
  if (!i || i->type != 2) return ret_err(i ? EINVAL : e);
  n = std::min(n, i->target.size());
  memcpy(buf, i->target.data(), n);
  return n;
}
ssize_t __sim_readlink(const char* p, char* buf, size_t n) { return __sim_readlinkat(AT_FDCWD, p, buf, n); }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t len) {
  if (!SIMULATED) return __real_ftruncate(fd, len);
  ENTER("ftruncate");
  int e;
  FdObj* f = getfd(fd);
  if (!f || f->kind != FD_FILE) return ret_err(EBADF);
  if (inject(SYSF_FTRUNCATE, {ENOSPC, EINTR}, &e)) return ret_err(e);
  if (len < 0) return ret_err(EINVAL);
  if (len > (1 << 28)) return ret_err(EFBIG);
  ino_alloc(f->ino, len);
  return 0;
}
int __wrap_fallocate(int fd, int, off_t off, off_t len) {
  ENTER("fallocate");
  int e;
  FdObj* f = getfd(fd);
  if (!f || f->kind != FD_FILE) return ret_err(EBADF);
  if (inject(SYSF_FTRUNCATE, {ENOSPC}, &e)) return ret_err(e);
  if ((size_t)(off + len) > f->ino->size) ino_alloc(f->ino, off + len);
  return 0;
}
int __wrap_posix_fallocate(int fd, off_t off, off_t len) { return __wrap_fallocate(fd, 0, off, len) ? errno : 0; }
int __wrap_fchmod(int fd, mode_t m) {
  ENTER("fchmod");
  int e;
  FdObj* f = getfd(fd);
  if (!f || !f->ino) return ret_err(EBADF);
  if (inject(SYSF_FCHMOD, {EIO}, &e)) return ret_err(e);
  f->ino->mode = m & 07777;
  return 0;
}
int __wrap_chmod(const char* p, mode_t m) {
  ENTER("chmod");
  int e;
  Inode* n = resolve(p, nullptr, nullptr, &e);
  if (!n) return ret_err(e);
  n->mode = m & 07777;
  return 0;
}
int __wrap_fsync(int) { return 0; }
int __wrap_msync(void*, size_t, int) { return 0; }
int __wrap_madvise(void*, size_t, int) { return 0; }
int __wrap_flock(int, int) { return 0; }
int __wrap_fcntl(int fd, int cmd, long arg) {
  KGuard kg;
  FdObj* f = getfd(fd);
  if (!f) return ret_err(EBADF);
  if (cmd == F_SETFL) f->flags = arg;
  if (cmd == F_GETFL) return f->flags;
  return 0;
}
int __wrap_dup(int fd) {
  KGuard kg;
  FdObj* f = getfd(fd);
  if (!f) return ret_err(EBADF);
  f->refs++;
  return newfd(f);
}
static int sim_mkstemp(char* tmpl) {
  ENTER("mkstemp");
  int e;
  if (inject(SYSF_MKSTEMP, {EMFILE, ENOSPC}, &e)) return ret_err(e);
  size_t n = strlen(tmpl);
  if (n < 6 || strcmp(tmpl + n - 6, "XXXXXX")) return ret_err(EINVAL);
  Inode* d;
  std::string last;
  do {
    u64 r = Rng::mix(W->seed * 977 + ++W->nmkstemp);
    for (int i = 0; i < 6; i++, r /= 62) tmpl[n - 6 + i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r % 62];
  } while (resolve(tmpl, &d, &last, &e));
  if (!d) return ret_err(e);
  Inode* ino = do_create(d, last, 0, 0600);
  FdObj* f = new FdObj();
  f->kind = FD_FILE;
  f->ino = ino;
  f->flags = O_RDWR;
  return newfd(f);
}
int __wrap_mkstemp(char* t) { return sim_mkstemp(t); }
int __wrap_mkstemp64(char* t) { return sim_mkstemp(t); }
int __wrap_mkostemp(char* t, int) { return sim_mkstemp(t); }

void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (!SIMULATED) return __real_mmap(a, len, prot, flags, fd, off);
  ENTER("mmap");
  int e;
  Proc* p = W->cur->proc;
  if (inject(SYSF_MMAP, {ENOMEM}, &e)) {
    errno = e;
    return MAP_FAILED;
  }
  if (!len) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  if (flags & MAP_ANONYMOUS) {
    void* r = heap_alloc(p, len, 4096);
    memset(r, 0, len);
    return r;
  }
  FdObj* f = getfd(fd);
  if (!f || f->kind != FD_FILE) {
    errno = EBADF;
    return MAP_FAILED;
  }
  Inode* back = f->ino;
  if (flags & MAP_PRIVATE) {
    back = new_inode(0, 0);
    ino_alloc(back, f->ino->size);
    memcpy(g_store + back->off, g_store + f->ino->off, f->ino->size);
  }
  if (W->viewmap.size() >= (size_t)NVIEW) fail_generic("sim-views", "too many mappings in one run");
  Mapping* m = new Mapping();
  m->proc = p;
  m->ino = f->ino;
  m->backing = back;
  m->view = W->viewmap.size();
  m->start = VIEW_BASE + ((uintptr_t)m->view << VIEW_SHIFT) + back->off;
  size_t avail = off > (off_t)back->size ? 0 : (back->size - off + 4095) & ~4095ull;
  m->len = off + (len < avail ? len : avail);
  m->alive = true;
  W->viewmap.push_back(m);
  p->maps.push_back(m);
  return (void*)(m->start + off);
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __real_munmap(void*, size_t);
int __wrap_munmap(void* a, size_t len) {
  if (!SIMULATED) return __real_munmap(a, len);
  ENTER("munmap");
  Proc* p = W->cur->proc;
  if ((uintptr_t)a - HEAP_BASE < HEAP_SIZE) {
    heap_free(a);
    return 0;
  }
  Mapping* m = (uintptr_t)a - VIEW_BASE < ((size_t)NVIEW << VIEW_SHIFT) ? find_mapping((uintptr_t)a) : nullptr;
  if (!m || m->proc != p) return ret_err(EINVAL);
  m->alive = false;
  p->maps.erase(std::remove(p->maps.begin(), p->maps.end(), m), p->maps.end());
  return 0;
}
int __wrap_mprotect(void*, size_t, int) { return 0; }

// directories
struct SimDir {
  Inode* d;
  bool snap;
  size_t pos;
  std::vector<std::pair<std::string, Inode*>>* ents;
  struct dirent de;
};
DIR* __wrap_opendir(const char* path) {
  ENTER("opendir");
  int e;
  if (inject(SYSF_OPENDIR, {EMFILE, ENOMEM}, &e)) {
    errno = e;
    return nullptr;
  }
  Inode* n = resolve(path, nullptr, nullptr, &e);
  if (!n || n->type != 1) {
    errno = n ? ENOTDIR : e;
    return nullptr;
  }
  SimDir* s = new SimDir();
  s->d = n;
  s->snap = false;
  s->pos = 0;
  s->ents = new std::vector<std::pair<std::string, Inode*>>();
  W->dirs.insert(s);
  FdObj* f = new FdObj();
  f->kind = FD_DIR;
  f->ino = n;
  newfd(f);
  f->pos = (size_t)s;
  return (DIR*)s;
}
DIR* __sim_fdopendir(int fd) {
  ENTER("fdopendir");
  int e;
  FdObj* f = getfd(fd);
  if (!f || f->kind != FD_DIR) {
    errno = f ? ENOTDIR : EBADF;
    return nullptr;
  }
  if (inject(SYSF_OPENDIR, {ENOMEM}, &e)) {
    errno = e;
    return nullptr;
  }
  SimDir* s = new SimDir();
  s->d = f->ino;
  s->snap = false;
  s->pos = 0;
  s->ents = new std::vector<std::pair<std::string, Inode*>>();
  W->dirs.insert(s);
  f->pos = (size_t)s;
  return (DIR*)s;
}
int __sim_dirfd(DIR* dp) {
  for (auto& e : W->cur->proc->fds)
    if (e.second->kind == FD_DIR && e.second->pos == (size_t)dp) return e.first;
  return ret_err(EINVAL);
}
void __sim_rewinddir(DIR* dp) {
  ((SimDir*)dp)->snap = false;
  ((SimDir*)dp)->pos = 0;
}
struct dirent* __wrap_readdir(DIR* dp) {
  ENTER("readdir");
  SimDir* s = (SimDir*)dp;
  if (!W->dirs.count(s)) fail_generic("invalid-dir", "readdir on a directory stream that is not open");
  if (!s->snap) {
    s->snap = true;
    *s->ents = s->d->ents;
    u64 salt = W->readdir_salt;
    std::sort(s->ents->begin(), s->ents->end(), [salt](const std::pair<std::string, Inode*>& a, const std::pair<std::string, Inode*>& b) {
      u64 x = hash_mem(a.first.data(), a.first.size()) ^ salt, y = hash_mem(b.first.data(), b.first.size()) ^ salt;
      return x != y ? x < y : a.first < b.first;
    });
    s->ents->insert(s->ents->begin(), {".", s->d});
    s->ents->insert(s->ents->begin(), {"..", s->d});
  }
  if (s->pos >= s->ents->size()) return nullptr;
  auto& e = (*s->ents)[s->pos++];
  memset(&s->de, 0, sizeof s->de);
  s->de.d_ino = e.second->ino;
  s->de.d_type = e.second->type == 1 ? DT_DIR : e.second->type == 2 ? DT_LNK : DT_REG;
  snprintf(s->de.d_name, sizeof s->de.d_name, "%s", e.first.c_str());
  return &s->de;
}
int __wrap_closedir(DIR* dp) {
  ENTER("closedir");
  if (!W->dirs.count(dp)) fail_generic("invalid-dir", "closedir on a directory stream that is not open");
  W->dirs.erase(dp);
  Proc* p = W->cur->proc;
  for (auto& e : p->fds)
    if (e.second->kind == FD_DIR && e.second->pos == (size_t)dp) {
      close_fd(p, e.first);
      break;
    }
  return 0;
}
char* __wrap_realpath(const char* p, char* out) {
  KGuard kg;
  int e;
  if (!resolve(p, nullptr, nullptr, &e)) {
    errno = e;
    return nullptr;
  }
  if (!out) out = (char*)heap_alloc(W->cur->proc, PATH_MAX);
  return strcpy(out, p);
}

// inotify, epoll, eventfd
int __wrap_inotify_init1(int flags) {
  ENTER("inotify");
  int e;
  if (inject(SYSF_INOTIFY, {EMFILE, ENOMEM}, &e)) return ret_err(e);
  FdObj* f = new FdObj();
  f->kind = FD_INOTIFY;
  f->flags = flags;
  return newfd(f);
}
int __wrap_inotify_init() { return __wrap_inotify_init1(0); }
int __wrap_inotify_add_watch(int fd, const char* path, u32 mask) {
  ENTER("watch");
  int e;
  FdObj* f = getfd(fd);
  if (!f) return ret_err(EBADF);
  if (f->kind != FD_INOTIFY) return ret_err(EINVAL);
  if (inject(SYSF_WATCH, {ENOSPC, ENOMEM}, &e)) return ret_err(e);
  Inode* n = resolve(path, nullptr, nullptr, &e);
  if (!n) return ret_err(e);
  if ((mask & IN_ONLYDIR) && n->type != 1) return ret_err(ENOTDIR);
  for (auto& w : f->wds)
    if (w.second.first == n) {
      if (mask & IN_MASK_CREATE) return ret_err(EEXIST);
      w.second.second = (mask & IN_MASK_ADD) ? w.second.second | mask : mask;
      return w.first;
    }
  int wd = f->next_wd++;
  f->wds[wd] = {n, mask};
  n->watches.push_back({f, wd});
  return wd;
}
int __wrap_inotify_rm_watch(int fd, int wd) {
  ENTER("rmwatch");
  FdObj* f = getfd(fd);
  if (!f) return ret_err(EBADF);
  if (f->kind != FD_INOTIFY) return ret_err(EINVAL);
  auto it = f->wds.find(wd);
  if (it == f->wds.end()) return ret_err(EINVAL);
  auto& ws = it->second.first->watches;
  for (size_t i = 0; i < ws.size(); i++)
    if (ws[i].first == f && ws[i].second == wd) {
      ws.erase(ws.begin() + i);
      break;
    }
  f->wds.erase(it);
  push_ev(f, wd, IN_IGNORED, "");
  poll_wake();
  return 0;
}
int __wrap_epoll_create1(int) {
  ENTER("epoll");
  int e;
  if (inject(SYSF_EPOLL, {EMFILE, ENOMEM}, &e)) return ret_err(e);
  FdObj* f = new FdObj();
  f->kind = FD_EPOLL;
  return newfd(f);
}
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
  ENTER("epollctl");
  int e;
  FdObj *f = getfd(ep), *g = getfd(fd);
  if (!f || !g) return ret_err(EBADF);
  if (f->kind != FD_EPOLL) return ret_err(EINVAL);
  if (op == EPOLL_CTL_ADD && inject(SYSF_EPOLL, {ENOSPC, ENOMEM}, &e)) return ret_err(e);
  for (size_t i = 0; i < f->eps.size(); i++)
    if (f->eps[i].first == fd) {
      if (op == EPOLL_CTL_ADD) return ret_err(EEXIST);
      if (op == EPOLL_CTL_DEL)
        f->eps.erase(f->eps.begin() + i);
      else
        f->eps[i].second = {ev->events, ev->data.u64};
      poll_wake();
      return 0;
    }
  if (op != EPOLL_CTL_ADD) return ret_err(ENOENT);
  f->eps.push_back({fd, {ev->events, ev->data.u64}});
  poll_wake();
  return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event* out, int max, int timeout) {
  ENTER("epollwait");
  FdObj* f = getfd(ep);
  if (!f) return ret_err(EBADF);
  if (f->kind != FD_EPOLL) return ret_err(EINVAL);
  Thread* t = W->cur;
  for (;;) {
    std::vector<size_t> r;
    for (size_t i = 0; i < f->eps.size(); i++) {
      auto it = t->proc->fds.find(f->eps[i].first);
      if (it != t->proc->fds.end() && (f->eps[i].second.first & EPOLLIN) && fd_ready(it->second)) r.push_back(i);
    }
    if (!r.empty()) {
      size_t s = r.size() > 1 ? choose(r.size(), 0.5, 13) : 0;
      int n = 0;
      for (size_t i = 0; i < r.size() && n < max; i++, n++) {
        auto& e = f->eps[r[(s + i) % r.size()]];
        out[n].events = EPOLLIN;
        out[n].data.u64 = e.second.second;
      }
      return n;
    }
    if (!timeout) return 0;
    t->wk = WK_POLL;
    t->wobj = f;
    if (timeout > 0) set_timer(t, 1, mono_ns() + timeout * 1000000ull);
    block();
    if (t->wres == ETIMEDOUT) return 0;
    if (t->wres) return ret_err(t->wres);
  }
}
int __wrap_epoll_pwait(int ep, struct epoll_event* out, int max, int timeout, const void*) { return __wrap_epoll_wait(ep, out, max, timeout); }
int __wrap_eventfd(unsigned init, int flags) {
  ENTER("eventfd");
  int e;
  if (inject(SYSF_EVENTFD, {EMFILE, ENOMEM}, &e)) return ret_err(e);
  FdObj* f = new FdObj();
  f->kind = FD_EVENT;
  f->cnt = init;
  f->flags = flags;
  return newfd(f);
}
int __wrap_poll(struct pollfd* p, nfds_t n, int timeout) {
  ENTER("poll");
  Thread* t = W->cur;
  u64 end = mono_ns() + (timeout > 0 ? timeout * 1000000ull : 0);
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      FdObj* f = getfd(p[i].fd);
      p[i].revents = !f ? POLLNVAL : (p[i].events & POLLIN) && fd_ready(f) ? POLLIN : 0;
      if (p[i].revents) c++;
    }
    if (c || !timeout || (timeout > 0 && mono_ns() >= end)) return c;
    Proc* pr = t->proc;
    std::vector<FdObj*> fs;
    for (nfds_t i = 0; i < n; i++) fs.push_back(getfd(p[i].fd));
    (void)pr;
    t->wk = WK_PRED;
    t->pred = [fs]() {
      for (FdObj* f : fs)
        if (f && fd_ready(f)) return true;
      return false;
    };
    if (timeout > 0) set_timer(t, 1, end);
    block();
  }
}

char* __real_getenv(const char*);
char* __wrap_getenv(const char* k) {
  if (!SIMULATED) return __real_getenv(k);
  KGuard kg;
  auto it = W->env.find(k);
  return it == W->env.end() ? nullptr : (char*)it->second.c_str();
}
char* __wrap_secure_getenv(const char* k) { return __wrap_getenv(k); }
ssize_t __wrap_getrandom(void* p, size_t n, unsigned) {
  KGuard kg;
  int e;
  if (inject(SYSF_URANDOM, {EINTR}, &e)) return ret_err(e);
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)(W->drng.next() >> 13);
  return n;
}

// The C library's generators. Its own state is one per process; a state passed in is read and written without any lock.
long __real_jrand48(unsigned short*);
static u64 lcg48(u64 x) { return (x * 0x5deece66dull + 0xb) & 0xffffffffffffull; }
static u64 step48(unsigned short* s) {
  ENTER("rand48");
  u64 x = lcg48((u64)s[2] << 32 | (u64)s[1] << 16 | s[0]);
  sys_point("rand48");
  s[0] = (unsigned short)x;
  s[1] = (unsigned short)(x >> 16);
  s[2] = (unsigned short)(x >> 32);
  return x;
}
static u64 proc48() {
  ENTER("rand48");
  u64& st = W->cur->proc->rand48;
  u64 x = lcg48(st);
  sys_point("rand48");
  return st = x;
}
static u64 procn() {
  ENTER("rand");
  u64& st = W->cur->proc->randn;
  st = st * 6364136223846793005ull + 1442695040888963407ull;
  return st >> 33;
}
long __wrap_jrand48(unsigned short* s) { return SIMULATED ? (long)(int)(step48(s) >> 16) : __real_jrand48(s); }
long __wrap_nrand48(unsigned short* s) { return (long)(step48(s) >> 17); }
double __wrap_erand48(unsigned short* s) { return step48(s) / 281474976710656.0; }
long __wrap_mrand48() { return (long)(int)(proc48() >> 16); }
long __wrap_lrand48() { return (long)(proc48() >> 17); }
double __wrap_drand48() { return proc48() / 281474976710656.0; }
void __wrap_srand48(long v) { W->cur->proc->rand48 = ((u64)(unsigned)v << 16) | 0x330e; }
int __wrap_rand() { return (int)procn(); }
void __wrap_srand(unsigned v) { W->cur->proc->randn = v; }
long __wrap_random() { return (long)procn(); }
void __wrap_srandom(unsigned v) { W->cur->proc->randn = v; }
}  // extern "C"

// std::future blocking primitives, otherwise inside libstdc++.so
#include <atomic>
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  KGuard kg;
  sys_point("futex");
  int r = (int)-futex_wait((u32*)addr, val, has_timeout ? 2 : 0, (u64)s.count() * 1000000000ull + ns.count());
  return r != ETIMEDOUT;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  KGuard kg;
  sys_point("futex");
  int r = (int)-futex_wait((u32*)addr, val, has_timeout ? 1 : 0, (u64)s.count() * 1000000000ull + ns.count());
  return r != ETIMEDOUT;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  KGuard kg;
  sys_point("futex");
  futex_wake_key(key_of((u32*)addr), INT_MAX);
}
}  // namespace std
