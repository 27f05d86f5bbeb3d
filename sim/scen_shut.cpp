// Shutting down a channel handle with waiters: C08 (and C07, C09).
#include "topic.h"

namespace {

struct ShutScen : Scenario {
  size_t fsize = 1500;
  struct H {                     // one handle
    a0_transport_t* t = nullptr;
    Proc* p = nullptr;
    bool shared = false;         // the one that gets shut down
    int inwait = 0;
    bool asked = false, done = false;
    a0_arena_t arena;
  };
  std::vector<H*> hs;
  std::vector<Thread*> threads, shutters;
  u64 committed = 0, flag = 0;
  bool never_writes = false;
  int nw = 0;
  struct W {
    H* h;
    u64 base;
    bool pending;
    int kind;
  };
  std::map<Thread*, W> waits;
  ~ShutScen() {
    for (H* h : hs) delete h;
  }

  void setup() override {
    Rng& r = cfg_rng();
    swarm(cfg, 0.6);
    cfg.p_syserr = 0;
    cfg.fault_steps = 60000;
    set_generic_props("C08,C07,C09");
    int np = r.range(1, 3);
    never_writes = r.chance(0.3);
    nw = r.range(0, 5);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* p = new_proc(n);
      if (i == 0) p->killable = r.chance(0.2);
      int nh = r.range(1, 2);
      for (int j = 0; j < nh; j++) {
        H* h = new H();
        h->p = p;
        h->shared = i == 0 ? j == 0 : r.chance(0.3);
        hs.push_back(h);
        int k = r.range(0, 3);
        threads.push_back(spawn(p, "o", [this, h, k]() { opener(h, k); }));
      }
    }
    if (!never_writes) {
      Proc* p = new_proc("w");
      threads.push_back(spawn(p, "a", [this]() { writer(); }));
    }
  }
  void opener(H* h, int k) {
    a0_file_t f = open_file("/sim/chan", fsize);
    a0_transport_t* t = palloc<a0_transport_t>();
    A(a0_transport_init(t, f.arena));
    h->t = t;
    h->arena = f.arena;
    for (int i = 0; i < k; i++) threads.push_back(spawn(cur_proc(), "w", [this, h]() { waiter(h); }));
    Rng& r = trng();
    if (h->shared) {
      for (int i = r.range(1, 2); i > 0; i--) shutters.push_back(spawn(cur_proc(), "s", [this, h]() { shutter(h); }));
    }
    waiter(h);
  }
  static a0_err_t pred_fn(void* ud, bool* out) {
    Cb cb;
    return (*(std::function<a0_err_t(bool*)>*)ud)(out);
  }
  void thread_dead(Thread* t) override {
    waits.erase(t);
  }
  void writer() {
    Rng& r = trng();
    a0_file_t f = open_file("/sim/chan", fsize);
    a0_transport_t* t = palloc<a0_transport_t>();
    A(a0_transport_init(t, f.arena));
    for (int i = 0; i < nw; i++) {
      for (int k = r.range(0, 10); k > 0; k--) yield();
      a0_transport_locked_t lk;
      A(a0_transport_lock(t, &lk));
      a0_transport_frame_t* fr;
      A(a0_transport_alloc(lk, r.below(100), &fr));
      A(a0_transport_commit(lk));
      A(a0_transport_unlock(lk));
    }
  }
  void waiter(H* h) {
    Rng& r = trng();
    for (int i = r.range(1, 6); i > 0; i--) {
      for (int k = r.range(0, 6); k > 0; k--) yield();
      a0_transport_locked_t lk;
      a0_err_t e = A(a0_transport_lock(h->t, &lk));
      if (e) fail("C03,C08", "lock-operation-fails", "channel lock returned %d", (int)e);
      bool req = false;
      a0_transport_shutdown_requested(lk, &req);
      if (req && !h->asked) fail("C08", "shutdown-leaks", "a handle that was not shut down says it was");
      if (!req && h->done) fail("C08", "shutdown-forgotten", "the handle was shut down but does not say so");
      u64 H0 = 0;
      a0_transport_seq_high(lk, &H0);
      int kind = r.range(0, 2);  // 0 never satisfied, 1 newer message, 2 immediately satisfied now and then
      bool timed = r.chance(0.3);
      u64 dl = vary_deadline(r, boot_ns() + r.below(2000000));
      a0_time_mono_t tm = mono_at(dl);
      bool was_done = h->done, was_asked = h->asked;
      bool evals = false;
      std::function<a0_err_t(bool*)> fn = [&](bool* out) {
        u64 H1 = 0;
        a0_transport_seq_high(lk, &H1);
        *out = kind == 0 ? false : kind == 1 ? H1 > H0 : evals;
        evals = true;
        return A0_OK;
      };
      a0_predicate_t pr{&fn, pred_fn};
      h->inwait++;
      waits[cur_thread()] = W{h, H0, true, kind};
      e = timed ? AT(dl, a0_transport_timedwait(lk, pr, &tm)) : A(a0_transport_wait(lk, pr));
      waits.erase(cur_thread());
      h->inwait--;
      note("wait kind %d -> %d/%d", kind, (int)e, e ? syserr(e) : 0);
      u64 H1 = 0;
      a0_transport_seq_high(lk, &H1);
      if (!e) {
        if (was_done) fail("C08", "wait-after-shutdown", "a wait on a handle that was shut down succeeded");
        if (kind == 0 || (kind == 1 && H1 <= H0)) fail("C09,C08", "success-without-condition", "the wait returned success but its condition does not hold");
      } else if (syserr(e) == ESHUTDOWN) {
        if (!h->asked) fail("C08", "shutdown-leaks", "a wait was told of a shutdown but its handle was not shut down");
        mark(was_asked ? "refused_after_shutdown" : "released_by_shutdown");
      } else if (syserr(e) == ETIMEDOUT && timed) {
        if (boot_ns() < dl) fail("C09", "early-timeout", "channel wait gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
      } else {
        fail("C08,C09", "wait-returns-error", "channel wait returned %d/%d", (int)e, syserr(e));
      }
      A(a0_transport_unlock(lk));
    }
  }
  void shutter(H* h) {
    Rng& r = trng();
    for (int k = r.pick({0, 3, 20, 60}); k > 0; k--) yield();
    if (r.chance(0.3)) sleep_ns(r.below(1500000));
    a0_transport_locked_t lk;
    A(a0_transport_lock(h->t, &lk));
    h->asked = true;
    note("shutdown");
    a0_err_t e = A(a0_transport_shutdown(lk));
    note("shutdown done");
    if (e) fail("C08", "shutdown-fails", "shutdown returned %d", (int)e);
    if (h->inwait) {
      for (auto& kv : waits)
        if (kv.second.h == h && thread_blocked(kv.first)) fail("C08", "waiter-left-behind", "shutdown returned while %s still waits", thread_name(kv.first));
    }
    h->done = true;
    mark("shutdowns");
    state_sig(h->inwait * 64 + hs.size() * 8 + waits.size());
    A(a0_transport_unlock(lk));
  }
  bool idle(int stage) override {
    for (Thread* t : shutters)
      if (!thread_done(t)) fail("C08", "shutdown-stuck", "shutting down a channel handle does not return");
    for (Thread* t : threads)
      if (!thread_done(t)) {
        if (!waits.count(t)) fail("C08,C03", "stuck", "%s is blocked outside a wait", thread_name(t));
        W& w = waits[t];
        if (w.h->done) fail("C08", "waiter-left-behind", "%s still waits although its handle was shut down", thread_name(t));
      }
    if (stage == 0) {
      // one more message: whoever waits for a newer one must go on
      Proc* p = new_proc("insp");
      p->killable = false;
      threads.push_back(spawn(p, "chk", [this]() {
        nw = 1;
        writer();
      }));
      return true;
    }
    for (Thread* t : threads)
      if (!thread_done(t) && waits[t].kind == 1 && peek(waits[t].h->arena.buf.data, fsize).high > waits[t].base) fail("C07,C08", "waiter-not-woken", "%s still waits although a message was committed", thread_name(t));
    return false;
  }
};
SCENARIO("shut", ShutScen)
}  // namespace
