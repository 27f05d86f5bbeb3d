// Events and latches shared between processes: C19 (and C09).
#include <a0/event.h>
#include <a0/latch.h>

#include "scen.h"

namespace {

struct Shared {
  a0_event_t ev[2];
  a0_latch_t la[2];
};

struct EvScen : Scenario {
  struct E {
    u64 set_begun = 0, set_done = 0;
  } ev[2];
  struct L {
    long init = 0, begun = 0, done = 0;  // counted down
    bool used = true;
  } la[2];
  struct Op {
    int what = 0;  // 1 event wait, 2 latch wait, 3 event set, 4 latch down
    int i = 0;
    long n = 0;
  };
  std::map<Thread*, Op> ops;
  std::vector<Thread*> workers;
  Thread* insp = nullptr;
  int nops;
  bool ready = false;
  bool local = false;

  void setup() override {
    Rng& r = cfg_rng();
    swarm(cfg, 0.6);
    cfg.p_syserr = 0;
    cfg.fault_steps = 40000;
    set_generic_props("C19,C09");
    no_locks_after_calls("C19");
    nops = r.range(1, 6);
    for (int i = 0; i < 2; i++) la[i].init = r.range(1, 6);
    Proc* p = new_proc("init");
    p->killable = false;
    spawn(p, "i", [this]() {
      Shared* s = open();
      for (int i = 0; i < 2; i++)
        if (A(a0_latch_init(&s->la[i], la[i].init))) fail("C19", "init-fails", "latch init failed");
      ready = true;
    });
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* q = new_proc(n);
      int nt = r.range(1, 3);
      for (int j = 0; j < nt; j++) workers.push_back(spawn(q, j == 0 ? "a" : j == 1 ? "b" : "c", [this]() { worker(); }));
    }
  }
  Shared* open() { return (Shared*)open_file("/sim/ev", sizeof(Shared)).arena.buf.data; }
  void thread_dead(Thread* t) override {
    auto it = ops.find(t);
    if (it == ops.end()) return;
    if (it->second.what) mark("death_inside_operation");
    ops.erase(it);
  }
  void begin(int what, int i, long n = 0) { ops[cur_thread()] = Op{what, i, n}; }
  void end() { ops[cur_thread()].what = 0; }
  void sig() {
    long v[6] = {(long)ev[0].set_begun, (long)ev[0].set_done, la[0].begun, la[0].done, la[1].begun, la[1].done};
    state_sig(hash_mem(v, sizeof v) + ops.size());
  }

  void worker() {
    Rng& r = trng();
    while (!ready) yield();
    Shared* s = open();
    for (int k = 0; k < nops; k++) {
      for (int y = r.range(0, 4); y > 0; y--) yield();
      if (r.chance(0.1)) sleep_ns(r.below(300000));
      int i = r.range(0, 1);
      switch (r.pick({0, 1, 2, 2, 3, 4, 4, 5, 6, 7})) {
        case 0: {
          bool done0 = ev[i].set_done > 0, out = false;
          a0_err_t e = A(a0_event_is_set(&s->ev[i], &out));
          if (e) fail("C19", "operation-fails", "is_set returned %d/%d", (int)e, syserr(e));
          if (out && !ev[i].set_begun) fail("C19", "fires-early", "event reported set but nobody set it");
          if (!out && done0) fail("C19", "lost-set", "event was set but is reported unset");
          break;
        }
        case 1: set(s, i); break;
        case 2:
        case 3: {
          bool timed = r.chance(0.5);
          u64 dl = vary_deadline(r, boot_ns() + (r.chance(0.15) ? 0 : r.below(1500000)));
          if (r.chance(0.05)) dl = 0;  // A0_TIMEOUT_IMMEDIATE
          a0_time_mono_t tm = mono_at(dl);
          bool done0 = ev[i].set_done > 0;
          begin(1, i);
          note("event %d wait%s", i, timed ? " timed" : "");
          a0_err_t e = timed ? AT(dl, a0_event_timedwait(&s->ev[i], &tm)) : A(a0_event_wait(&s->ev[i]));
          end();
          note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
          if (!e) {
            if (!ev[i].set_begun) fail("C19,C09", "fires-early", "event wait returned success but nobody set the event");
            mark("event_wait_returned");
          } else if (timed && syserr(e) == ETIMEDOUT) {
            if (boot_ns() < dl) fail("C09,C19", "early-timeout", "event wait gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
            if (done0) fail("C19", "wait-misses-set", "wait timed out on an event that was set before");
            mark("event_wait_timeout");
          } else {
            fail("C19,C09", "wait-returns-error", "event wait returned %d/%d", (int)e, syserr(e));
          }
          break;
        }
        case 4: down(s, i, r.range(1, 2), false); break;
        case 5: down(s, i, r.range(0, 2), true); break;
        case 6: {
          bool out = false;
          long d0 = la[i].done;
          a0_err_t e = A(a0_latch_try_wait(&s->la[i], &out));
          if (e) fail("C19", "operation-fails", "latch try_wait returned %d/%d", (int)e, syserr(e));
          if (out && la[i].init - la[i].begun > 0) fail("C19", "fires-early", "latch reported open with %ld left", la[i].init - la[i].begun);
          if (!out && la[i].init - d0 <= 0) fail("C19", "lost-count", "latch reported closed although it was counted down");
          break;
        }
        default: {
          begin(2, i);
          a0_err_t e = A(a0_latch_wait(&s->la[i]));
          end();
          waited(e, i);
        }
      }
      sig();
    }
  }
  void waited(a0_err_t e, int i) {
    if (e) fail("C19", "wait-returns-error", "latch wait returned %d/%d", (int)e, syserr(e));
    if (la[i].init - la[i].begun > 0) fail("C19", "fires-early", "latch wait returned with %ld of %ld left", la[i].init - la[i].begun, la[i].init);
    mark("latch_wait_returned");
  }
  void set(Shared* s, int i) {
    ev[i].set_begun++;
    begin(3, i);
    a0_err_t e = A(a0_event_set(&s->ev[i]));
    end();
    ev[i].set_done++;
    if (e) fail("C19", "operation-fails", "event set returned %d/%d", (int)e, syserr(e));
  }
  void down(Shared* s, int i, long n, bool wait) {
    la[i].begun += n;
    begin(wait ? 2 : 4, i, n);
    note("latch %d down %ld%s", i, n, wait ? " and wait" : "");
    a0_err_t e = wait ? A(a0_latch_arrive_and_wait(&s->la[i], n)) : A(a0_latch_count_down(&s->la[i], n));
    end();
    la[i].done += n;
    if (wait) {
      waited(e, i);
    } else if (e) {
      fail("C19", "operation-fails", "count_down returned %d/%d", (int)e, syserr(e));
    }
  }
  // Counts of threads that are inside arrive_and_wait and certainly arrived (they sleep).
  long arrived(int i) {
    long n = la[i].done;
    for (auto& kv : ops)
      if (kv.second.what == 2 && kv.second.i == i) n += kv.second.n;
    return n;
  }
  bool idle(int stage) override {
    if (insp && !thread_done(insp)) fail("C19,C03", "stuck", "a fresh process cannot use events and latches");
    for (Thread* t : workers) {
      if (thread_done(t)) continue;
      Op o = ops[t];
      if (o.what != 1 && o.what != 2) fail("C19,C03", "stuck", "%s is blocked outside a wait", thread_name(t));
      if (o.what == 1 && (ev[o.i].set_done || seen_set[o.i])) fail("C19", "waiter-not-woken", "%s still waits for event %d which is set", thread_name(t), o.i);
      if (o.what == 2 && (la[o.i].init - arrived(o.i) <= 0 || seen_open[o.i])) fail("C19", "waiter-not-woken", "%s still waits for latch %d which is open", thread_name(t), o.i);
    }
    if (stage == 0) {
      Proc* p = new_proc("insp");
      p->killable = false;
      insp = spawn(p, "chk", [this]() {
        Shared* s = open();
        for (int i = 0; i < 2; i++) {
          bool out = false;
          A(a0_event_is_set(&s->ev[i], &out));
          if (out && !ev[i].set_begun) fail("C19", "fires-early", "event set but nobody set it");
          if (!out && ev[i].set_done) fail("C19", "lost-set", "event was set but is reported unset");
          seen_set[i] = out;
          A(a0_latch_try_wait(&s->la[i], &out));
          if (out && la[i].init - la[i].begun > 0) fail("C19", "fires-early", "latch open with %ld left", la[i].init - la[i].begun);
          if (!out && la[i].init - arrived(i) <= 0) fail("C19", "lost-count", "latch closed although it was counted down");
          seen_open[i] = out;
        }
      });
      return true;
    }
    if (stage == 1) {
      Proc* p = new_proc("fin");
      p->killable = false;
      insp = spawn(p, "fin", [this]() {
        Shared* s = open();
        Rng& r = trng();
        for (int i = 0; i < 2; i++) {
          set(s, i);
          long left = la[i].init - arrived(i);
          while (left > 0) {
            long n = r.range(1, left);
            down(s, i, n, false);
            left -= n;
          }
        }
      });
      return true;
    }
    for (Thread* t : workers)
      if (!thread_done(t) && stage == 2) return false;
    return false;
  }
  bool seen_set[2] = {false, false}, seen_open[2] = {false, false};
};
SCENARIO("ev", EvScen)
}  // namespace
