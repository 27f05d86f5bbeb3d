// Helpers shared by the scenarios.
#pragma once
#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/buf.h>
#include <a0/err.h>
#include <a0/file.h>
#include <a0/mtx.h>
#include <a0/time.h>
#include <errno.h>
#include <stdio.h>

#include "sim.h"

using namespace sim;

// Swarm-style selection of scheduling and fault parameters: every run enables a random subset.
struct Swarm {
  bool faults = false;
  bool kill = false, clocks = false, sysf = false, wake = false;
};
inline Swarm swarm(FaultCfg& c, double kill_weight = 0.6) {
  Rng& r = cfg_rng();
  Swarm s;
  double u = r.unit();
  if (u < 0.55) {
    c.strategy = 0;
    c.gap = r.pick({2.0, 4.0, 8.0, 15.0, 30.0, 60.0, 150.0, 400.0});
    c.w_atomic = r.pick({1, 1, 3, 8});
    c.w_sys = r.pick({1, 1, 5, 20});
  } else if (u < 0.8) {
    c.strategy = 1;
    c.gap = r.pick({10.0, 30.0, 100.0, 300.0});
  } else {
    c.strategy = 2;
    c.gap = r.pick({300.0, 1000.0});
    c.w_sys = 300;
    c.w_atomic = r.pick({30, 120});
  }
  c.p_order = r.pick({0.0, 0.1, 0.4});
  if (r.chance(0.2)) {
    c.p_order = 0;
    return s;  // scheduling only: the fault-free configuration
  }
  s.faults = true;
  if (r.chance(kill_weight)) {
    s.kill = true;
    c.max_kills = r.range(1, 4);
    double rate = 1.0 / r.pick({40.0, 100.0, 300.0, 800.0, 2000.0, 5000.0});
    c.p_kill = rate * c.gap;
    if (c.strategy == 2) c.p_kill = r.pick({0.05, 0.2});
    if (c.p_kill > 0.5) c.p_kill = 0.5;
  }
  if (r.chance(0.4)) {
    s.wake = true;
    c.p_spurious = r.pick({0.01, 0.05, 0.2});
    c.p_eintr = r.pick({0.0, 0.01, 0.05, 0.2});
  }
  if (r.chance(0.35)) {
    s.clocks = true;
    c.p_stall = r.pick({0.005, 0.02, 0.1});
    c.p_wall = r.pick({0.0, 0.01, 0.05});
    c.p_suspend = r.pick({0.0, 0.01, 0.05});
  }
  if (r.chance(0.4)) {
    s.sysf = true;
    c.p_syserr = r.pick({0.01, 0.05, 0.2});
    c.sysmask = (u32)r.next() | (u32)r.next();
  }
  return s;
}

inline int syserr(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }
inline void closed_ok(a0_err_t e) {
  if (e) fail("C08", "close-fails", "close returned %d/%d", (int)e, syserr(e));
}
// Closing from the own callback would wait for itself: it must be refused, and change nothing.
inline void refused_close(a0_err_t e) {
  if (syserr(e) != EDEADLK) fail("C08", "own-close", "closing from the own callback returned %d/%d", (int)e, syserr(e));
  mark("own_close_refused");
}

inline a0_file_options_t file_opts(size_t size, a0_arena_mode_t mode = A0_ARENA_MODE_SHARED) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = size;
  o.open_options.arena_mode = mode;
  return o;
}

// Runs code with system-call failures switched off for the process (setup steps of a scenario).
struct NoSysFault {
  Proc* p;
  NoSysFault() : p(cur_proc()) { p->nosysfault++; }
  ~NoSysFault() { p->nosysfault--; }
};

// Only the creation of threads may fail.
inline void thread_faults(FaultCfg& c) {
  if (!cfg_rng().chance(0.5)) c.p_syserr = 0;
  if (c.p_syserr > 0) c.p_syserr = cfg_rng().pick({0.1, 0.5});
  c.sysmask = 1u << SYSF_THREAD;
}
// Opens something that needs a thread, until it works.
template <typename F>
a0_err_t until_open(const char* props, F f) {
  for (int tries = 0;; tries++) {
    u64 f0 = sysfaults();
    if (tries == 2) cur_proc()->nosysfault++;
    a0_err_t e = f();
    if (tries == 2) cur_proc()->nosysfault--;
    if (sysfaults() == f0) return e;
    if (!e) fail(props, "failure-ignored", "opening reports success although its thread could not be created");
    if (syserr(e) != EAGAIN) fail(props, "strange-error", "opening without a thread failed with %d/%d", (int)e, syserr(e));
    mark("open_failed");
  }
}

inline a0_file_t open_file(const char* path, size_t size, a0_arena_mode_t mode = A0_ARENA_MODE_SHARED) {
  NoSysFault nf;
  a0_file_t f;
  memset(&f, 0, sizeof f);
  a0_file_options_t o = file_opts(size, mode);
  a0_err_t e = A(a0_file_open(path, &o, &f));
  if (e) fail("C18", "setup-open-failed", "a0_file_open(%s) failed without any fault: %d/%d", path, (int)e, syserr(e));
  return f;
}

inline a0_time_mono_t mono_at(u64 boot) {
  a0_time_mono_t t;
  t.ts.tv_sec = boot / 1000000000ull;
  t.ts.tv_nsec = boot % 1000000000ull;
  return t;
}

// Deadlines on, or across, full seconds, and long past ones.
inline u64 vary_deadline(Rng& r, u64 dl) {
  if (!r.chance(0.2)) return dl;
  switch (r.below(4)) {
    case 0: return (dl / 1000000000ull + 1) * 1000000000ull;
    case 1: return dl + 1000000000ull * (1 + r.below(3)) + r.below(1000000000);
    case 2: return dl + r.below(1000000000);
    default: return 1 + r.below(1000000000);
  }
}

// A library call with a deadline: the simulator watches that it does not sleep past it.
#define AT(dl, expr)              \
  ({                              \
    set_deadline(dl);             \
    auto _at_ret = A(expr);       \
    set_deadline(0);              \
    _at_ret;                      \
  })

// Objects of the library that live in the (checked) heap of a simulated process.
namespace sim {
void* heap_alloc(Proc* p, size_t n, size_t align);
void heap_free(void* p);
}
template <typename T>
T* palloc() {
  T* t = (T*)sim::heap_alloc(cur_proc(), sizeof(T), 16);
  memset((void*)t, 0, sizeof(T));
  return t;
}
template <typename T>
void pfree(T* t) {
  sim::heap_free((void*)t);
}

inline std::string payload(u64 id, size_t n) {
  std::string s(n, 0);
  Rng r(id * 7919 + 3);
  for (size_t i = 0; i < n; i++) s[i] = (char)('a' + (r.next() >> 7) % 26);
  if (n >= 8) memcpy(&s[0], &id, 8);
  return s;
}
