// Channels at the transport level: C01, C05 (and C07/C09 for waits, C20 for refused writes).
#include <a0/transport.hpp>

#include "chan.h"
#include "cxx.h"

namespace {

struct TpScen : Scenario {
  ChanModel M;
  int nproc, nthr, nops;
  size_t fsize;
  int wkind;  // workload emphasis
  bool kills;
  std::vector<Thread*> workers;
  struct Wait {
    int pred = -1;  // 0 nonempty, 1 has_next, 2 empty
    u64 cur = 0;
    bool timed = false;
    u64 dl = 0;
  };
  std::map<Thread*, Wait> waits;
  Thread* cur_insp = nullptr;
  int made = 0, restarts = 0;
  int audit_mode = 0;
  bool slow = false;  // writers may take long

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.75);
    kills = s.kill;
    nproc = r.range(1, 3);
    nthr = r.range(1, 2);
    slow = r.chance(0.3);
    if (slow && r.chance(0.7)) {
      // nobody else queues for the lock
      nproc = 2;
      nthr = 1;
    }
    nops = r.range(3, 16);
    wkind = r.range(0, 3);
    fsize = r.pick({512, 640, 800, 1000, 1500, 2500});
    fsize += r.below(3) * 8;
    M.arena = M.arena_alt = fsize;
    cfg.fault_steps = 60000;
    set_generic_props("C01,C05,C02,C07,C09,C20");
    restarts = kills ? r.range(0, 2) : 0;
    audit_mode = r.range(0, 3);
    for (int i = 0; i < nproc; i++) add_proc();
  }
  void add_proc() {
    char n[16];
    snprintf(n, sizeof n, "p%d", made++);
    Proc* p = new_proc(n);
    for (int i = 0; i < nthr; i++) workers.push_back(spawn(p, i ? "b" : "a", [this]() { worker(); }));
  }
  void proc_dead(Proc* p) override {
    if (p->killed && restarts > 0) {
      restarts--;
      count_fault(F_RESTART);
      add_proc();
    }
  }
  void thread_dead(Thread* t) override {
    M.thread_dead(t);
    waits.erase(t);
  }

  static a0_err_t pred_fn(void* ud, bool* out) {
    Cb cb;
    auto* x = (std::function<a0_err_t(bool*)>*)ud;
    return (*x)(out);
  }

  size_t pick_size(Rng& r) {
    size_t cap = M.arena - M.WS - ChanModel::FH;
    double u = r.unit();
    if (u < 0.55) return r.below(60);
    if (u < 0.75) return r.below(200);
    if (u < 0.9) return cap - r.below(cap < 40 ? cap : 40);
    return cap / 2 + r.below(20);
  }

  // The same through the C++ interface.
  template <typename F>
  a0_err_t cx(a0_transport_locked_t lk, F f) {
    return X([&]() {
      a0::TransportLocked x;
      x.c = std::make_shared<a0_transport_locked_t>(lk);
      f(x);
    });
  }
  // Returns whether a message was committed.
  bool write(a0_transport_locked_t lk, Rng& r) {
    size_t size = r.chance(0.06) ? M.arena - M.WS - ChanModel::FH + 1 + r.below(100) : pick_size(r);
    if (r.chance(0.01)) size = r.chance(0.5) ? ~(size_t)0 - r.below(400) : ~(size_t)0 / 2 + r.below(100);
    int pred = -1;
    bool big = size > M.arena || M.WS + ChanModel::FH + size > M.arena;
    u64 ver0 = M.ver;
    if (r.chance(0.4)) {
      bool ev = false;
      a0_err_t e = r.chance(0.2) ? cx(lk, [&](a0::TransportLocked& x) { ev = x.alloc_evicts(size); }) : A(a0_transport_alloc_evicts(lk, size, &ev));
      if (big != (e != A0_OK)) fail("C05,C20", "prediction-wrong", "displacement query for %zu bytes returned %d", size, (int)e);
      if (!e) pred = ev;
    }
    a0_transport_frame_t* f = nullptr;
    M.begin(ChanModel::ALLOC);
    note("alloc %zu", size);
    bool cpp = r.chance(0.2);
    a0_err_t e = cpp ? cx(lk, [&](a0::TransportLocked& x) { f = x.alloc(size); }) : A(a0_transport_alloc(lk, size, &f));
    if (big) {
      M.end();
      if (!e) fail("C05,C20", "oversize-accepted", "a message of %zu bytes was accepted by an arena of %zu", size, M.arena);
      if (M.ver != ver0) fail("C02", "two-in-update", "model changed during a refused write");
      M.P = "C20,C01,C05";
      M.reconcile(lk, "after refused write");
      if (r.chance(0.5)) M.audit(lk, "after refused write");
      M.P = "C01,C05";
      mark("oversize_refused");
      return true;
    }
    if (e) fail("C05,C20", "write-refused", "allocation of %zu bytes in an arena of %zu failed: %d/%d", size, M.arena, (int)e, syserr(e));
    M.begin(ChanModel::HAVE);
    M.allocated(lk, f, size, pred);
    M.begin(ChanModel::HAVE);
    u64 id = M.next_id++;
    M.cand.id = id;
    M.cand.data = payload(id, size);
    size_t done = 0;
    while (done < size) {
      size_t n = 1 + r.below(size);
      if (n > size - done) n = size - done;
      memcpy(f->data + done, M.cand.data.data() + done, n);
      done += n;
      if (r.chance(0.5)) yield();
    }
    u64 dl = 0;
    for (auto& w : waits)
      if (w.second.timed && w.second.dl > boot_ns() && w.second.dl < boot_ns() + 5000000) dl = w.second.dl;
    if (slow && r.chance(dl ? 0.7 : 0.05)) {
      // until somebody's deadline has passed, and maybe the last thing this process does
      sleep_ns(dl ? dl - boot_ns() + r.pick({100, 3000, 20000}) : 20000);
      if (kills && faults_on() && r.chance(0.4)) {
        mark("slow_writer_dies");
        kill_proc(cur_proc());
        yield();
      }
    }
    if (r.chance(0.08)) {
      M.end();
      mark("aborted_write");
      note("abort");
      return false;
    }
    M.begin(ChanModel::COMMIT);
    note("commit %llu", (unsigned long long)M.high + 1);
    e = cpp ? cx(lk, [&](a0::TransportLocked& x) { x.commit(); }) : A(a0_transport_commit(lk));
    if (e) fail("C01", "commit-fails", "commit returned %d", (int)e);
    M.committed();
    note("committed %llu", (unsigned long long)M.high);
    if (r.chance(0.2)) M.audit(lk, "after commit");
    return true;
  }

  void worker() {
    Rng& r = trng();
    a0_file_t f = open_file("/sim/chan", fsize);
    a0_transport_t* t = palloc<a0_transport_t>();
    M.opened(t, f);
    a0_err_t e = A(a0_transport_init(t, f.arena));
    if (e) fail("C01", "open-fails", "opening the channel failed: %d", (int)e);
    expect_no_locks("C02,C03,C20");
    u64 cur = 0;  // our position
    for (int i = 0; i < nops; i++) {
      for (int k = r.range(0, 3); k > 0; k--) yield();
      a0_transport_locked_t lk;
      a0::TransportLocked* held = nullptr;
      if (r.chance(0.15)) {
        e = X([&]() {
          a0::Transport x;
          x.c = std::shared_ptr<a0_transport_t>(t, [](a0_transport_t*) {});
          held = new a0::TransportLocked(x.lock());
        });
        if (!e) lk = *held->c;
      } else {
        e = A(a0_transport_lock(t, &lk));
      }
      if (e) fail("C03,C01", "lock-operation-fails", "channel lock returned %d/%d", (int)e, syserr(e));
      M.reconcile(lk, "after lock");
      for (int k = r.pick({1, 1, 2, 3}); k > 0; k--) {
        double u = r.unit();
        if (u < (wkind == 1 ? 0.35 : 0.6)) {
          // a write in flight hides the committed state until it is committed or undone by unlock
          if (!write(lk, r)) break;
        } else if (u < 0.72) {
          step(lk, t, cur, r);
        } else if (u < 0.78) {
          M.audit(lk, "audit");
        } else if (u < 0.82 && wkind != 3) {
          M.begin(ChanModel::CLEAR);
          e = r.chance(0.2) ? cx(lk, [&](a0::TransportLocked& x) { x.clear(); }) : A(a0_transport_clear(lk));
          M.low = M.high + 1;
          M.clears++;
          M.ver++;
          M.end();
          if (e) fail("C05", "clear-fails", "clear returned %d", (int)e);
          note("cleared");
        } else if (u < 0.87 && wkind == 2) {
          resize(lk, r);
        } else {
          wait(lk, t, cur, r);
        }
      }
      e = A0_OK;
      if (held)
        AV(delete held);
      else
        e = A(a0_transport_unlock(lk));
      if (e) fail("C01", "unlock-fails", "unlock returned %d", (int)e);
      expect_no_locks("C02,C03,C20");
    }
  }
  // Places by number: those of live messages lead there, those outside of the messages' area nowhere.
  void jump(a0_transport_locked_t lk, u64& cur, Rng& r) {
    bool cpp = r.chance(0.2);
    auto to = [&](size_t off) { return cpp ? cx(lk, [&](a0::TransportLocked& x) { x.jump(off); }) : A(a0_transport_jump(lk, off)); };
    if (r.chance(0.6)) {
      if (M.empty()) return;
      u64 s = M.low + r.below(M.high - M.low + 1);
      ChanModel::Cand& c = M.live_or_old[s];
      if (c.off + ChanModel::FH + c.data.size() >= M.arena) return;  // a place up to the very end is refused
      a0_err_t e = to(c.off);
      if (e) fail("C05,C20", "jump-refused", "jump to live message %llu at %zu refused: %d", (unsigned long long)s, c.off, (int)e);
      cur = s;
      a0_transport_frame_t* f = nullptr;
      if (A(a0_transport_frame(lk, &f))) fail("C05,C20", "jump-refused", "live message %llu is not readable after a jump", (unsigned long long)s);
      M.check_frame(lk, f, s, "jump");
      mark("jumps");
      return;
    }
    size_t off = 0;
    switch (r.below(5)) {
      case 0: off = 16 * r.below(M.WS / 16); break;
      case 1: off = (M.arena + r.below(200)) & ~(size_t)15; break;
      case 2: off = ~(size_t)15 - 16 * r.below(20); break;
      case 3: off = (~(size_t)0 / 2 + 1) - 16 * r.below(3); break;
      default: off = M.WS + 16 * r.below((M.arena - M.WS) / 16) + 1 + r.below(15);
    }
    if (off < M.arena && off % 16 == 0 && off >= M.WS) off += 16;
    a0_err_t e = to(off);
    if (!e) fail("C20,C05", "jump-outside", "jump to %zu in a channel of %zu bytes is accepted", off, M.arena);
    if (cpp ? false : e != A0_ERR_RANGE) fail("C20", "strange-error", "jump to %zu returned %d/%d", off, (int)e, syserr(e));
    mark("jumps_refused");
  }
  void at_the_end(a0_transport_locked_t lk, bool back) {
    a0_err_t e = back ? A(a0_transport_step_prev(lk)) : A(a0_transport_step_next(lk));
    if (e != A0_ERR_RANGE) fail("C05,C06", "step-past-end", "step %s from the last message returned %d", back ? "back" : "ahead", (int)e);
  }
  void resize(a0_transport_locked_t lk, Rng& r) {
    size_t used = 0;
    A(a0_transport_used_space(lk, &used));
    size_t to = r.chance(0.4) ? used : r.chance(0.3) ? (used > 150 ? used - 1 - r.below(40) : used) : r.chance(0.6) ? fsize : used + r.below(fsize - used + 1);
    if (to > fsize) to = fsize;
    if (to < M.WS + ChanModel::FH + 16) to = M.WS + ChanModel::FH + 16;
    if (to > fsize) return;
    M.arena_alt = M.arena > to ? M.arena : to;
    a0_err_t e = r.chance(0.2) ? cx(lk, [&](a0::TransportLocked& x) { x.resize(to); }) : A(a0_transport_resize(lk, to));
    note("resize to %zu (used %zu) -> %d", to, used, (int)e);
    if (to < used) {
      if (!e) fail("C05", "resize-cuts-live", "shrinking to %zu below used space %zu was accepted", to, used);
    } else {
      if (e) fail("C05", "resize-refused", "resize to %zu with %zu used failed: %d", to, used, (int)e);
      M.arena = to;
      mark("resized");
    }
    M.ver++;
  }
  void step(a0_transport_locked_t lk, a0_transport_t* t, u64& cur, Rng& r) {
    if (M.empty()) {
      if (A(a0_transport_jump_head(lk)) != A0_ERR_RANGE || A(a0_transport_jump_tail(lk)) != A0_ERR_RANGE) fail("C05", "walk-broken", "jump to an end of an empty channel");
      at_the_end(lk, r.chance(0.5));
      return;
    }
    if (r.chance(0.15)) {
      jump(lk, cur, r);
      return;
    }
    double u = r.unit();
    if (r.chance(0.15)) {
      if (cur < M.low || cur > M.high) return;
      // walk in the same way through the C++ interface
      bool pv = false, nx = false, em = false, valid = false, back = r.chance(0.5);
      u64 lo = 0, hi = 0;
      size_t used = 0, cused = 0;
      a0_transport_frame_t* f = nullptr;
      a0_err_t e = cx(lk, [&](a0::TransportLocked& x) {
        em = x.empty();
        lo = x.seq_low();
        hi = x.seq_high();
        used = x.used_space();
        valid = x.iter_valid();
        f = x.frame();
      });
      A(a0_transport_used_space(lk, &cused));
      if (e || em || !valid || lo != M.low || hi != M.high || used != cused)
        fail("C05", "walk-broken", "C++ view of %llu to %llu: %d, empty %d, valid %d, %llu to %llu, %zu used instead of %zu", (unsigned long long)M.low, (unsigned long long)M.high, (int)e, em, valid, (unsigned long long)lo, (unsigned long long)hi, used, cused);
      M.check_frame(lk, f, cur, "C++ view");
      e = cx(lk, [&](a0::TransportLocked& x) {
        pv = x.has_prev();
        nx = x.has_next();
        if (back ? pv : nx) back ? x.step_prev() : x.step_next();
      });
      if (e || pv != (cur > M.low) || nx != (cur < M.high)) fail("C05", "walk-broken", "C++ walk from %llu of %llu to %llu: %d, previous %d, next %d", (unsigned long long)cur, (unsigned long long)M.low, (unsigned long long)M.high, (int)e, pv, nx);
      if (back ? pv : nx) cur += back ? -1 : 1;
    } else if (u < 0.1 || !cur) {
      if (r.chance(0.2) ? cx(lk, [&](a0::TransportLocked& x) { x.jump_head(); }) : A(a0_transport_jump_head(lk))) fail("C05", "walk-broken", "no head");
      cur = M.low;
    } else if (u < 0.2) {
      if (r.chance(0.2) ? cx(lk, [&](a0::TransportLocked& x) { x.jump_tail(); }) : A(a0_transport_jump_tail(lk))) fail("C05", "walk-broken", "no tail");
      cur = M.high;
    } else if (u < 0.35) {
      if (cur < M.low || cur > M.high) return;
      bool pv = false;
      A(a0_transport_has_prev(lk, &pv));
      if (pv != (cur > M.low)) fail("C05", "walk-broken", "has_prev %d at %llu, oldest %llu", pv, (unsigned long long)cur, (unsigned long long)M.low);
      if (pv) {
        if (A(a0_transport_step_prev(lk))) fail("C05", "walk-broken", "step back refused");
        cur--;
      } else {
        at_the_end(lk, true);
      }
    } else {
      bool nx = false;
      A(a0_transport_has_next(lk, &nx));
      if (nx != (cur < M.high)) fail("C05", "walk-broken", "has_next %d at %llu, newest %llu", nx, (unsigned long long)cur, (unsigned long long)M.high);
      if (nx) {
        if (A(a0_transport_step_next(lk))) fail("C05", "walk-broken", "step refused");
        u64 want = cur + 1 < M.low ? M.low : cur + 1;
        if (cur + 1 < M.low) mark("skip_displaced");
        cur = want;
      } else {
        at_the_end(lk, false);
        if (cur > M.high) return;
      }
    }
    bool valid = false;
    A(a0_transport_iter_valid(lk, &valid));
    if (valid != (cur >= M.low && cur <= M.high)) fail("C05", "walk-broken", "pointer validity wrong");
    a0_transport_frame_t* f = nullptr;
    a0_err_t e = A(a0_transport_frame(lk, &f));
    if (cur < M.low) {
      if (!e) fail("C05,C20", "displaced-visible", "displaced message %llu is readable", (unsigned long long)cur);
      return;
    }
    if (e) fail("C05", "walk-broken", "message %llu not readable", (unsigned long long)cur);
    M.check_frame(lk, f, cur, "step");
    mark("steps_checked");
  }
  bool truth(int pred, u64 cur) {
    if (pred == 0) return !M.empty();
    if (pred == 1) return !M.empty() && cur < M.high;
    return M.empty();
  }
  void wait(a0_transport_locked_t lk, a0_transport_t* t, u64& cur, Rng& r) {
    int kind = r.pick({0, 1, 1, 1, 2});
    if (kind == 2 && wkind == 3) kind = 1;
    Wait& w = waits[cur_thread()];
    w.pred = kind;
    w.cur = cur;
    w.timed = r.chance(0.6);
    w.dl = vary_deadline(r, boot_ns() + (r.chance(0.1) ? 0 : r.below(r.chance(0.5) ? 30000 : 3000000)));
    if (r.chance(0.05)) w.dl = r.below(2);
    a0_time_mono_t tm = mono_at(w.dl);
    bool bad = w.timed && r.chance(0.02);
    if (bad) {
      // no valid time
      w.dl = boot_ns();
      tm = r.chance(0.5) ? a0_time_mono_t{{-1 - (long)r.below(5), 0}} : a0_time_mono_t{{(long)(w.dl / 1000000000ull) + 3600, 1000000000 + (long)r.below(100)}};
    }
    bool first = true;
    std::function<a0_err_t(bool*)> fn = [&](bool* out) {
      M.reconcile(lk, "in a wait");
      *out = truth(kind, cur);
      bool real = false;
      a0_predicate_t p = kind == 0 ? a0_transport_nonempty_pred(&lk) : kind == 1 ? a0_transport_has_next_pred(&lk) : a0_transport_empty_pred(&lk);
      p.fn(p.user_data, &real);
      if (real != *out) fail("C01,C05", "predicate-wrong", "predicate %d is %d, model says %d", kind, real, *out);
      if (!first) mark("wait_rechecks");
      first = false;
      return A0_OK;
    };
    a0_predicate_t pr{&fn, pred_fn};
    note("wait %d%s", kind, w.timed ? " timed" : "");
    u64 t0 = boot_ns();
    a0_err_t e;
    if (!bad && r.chance(0.2)) {
      a0::TimeMono xt = cx_mono(w.dl);
      auto xfn = [&]() {
        bool out;
        pred_fn(&fn, &out);
        return out;
      };
      if (w.timed) set_deadline(w.dl);
      bool span = w.dl > t0 && w.dl < t0 + 1000000000000 && r.chance(0.4);
      e = cx(lk, [&](a0::TransportLocked& x) {
        if (w.timed && span)
          x.wait_for(xfn, std::chrono::nanoseconds(w.dl - t0));
        else if (w.timed)
          x.wait_until(xfn, xt);
        else
          x.wait(xfn);
      });
      set_deadline(0);
    } else {
      e = w.timed ? AT(w.dl, a0_transport_timedwait(lk, pr, &tm)) : A(a0_transport_wait(lk, pr));
    }
    note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
    waits.erase(cur_thread());
    M.reconcile(lk, "after a wait");
    (void)t0;
    if (!e) {
      if (!truth(kind, cur)) fail("C09", "success-without-condition", "wait %d returned success but the condition does not hold", kind);
      mark("wait_satisfied");
    } else if (bad && (syserr(e) == EINVAL || syserr(e) == ETIMEDOUT)) {
      mark("invalid_deadline");
    } else if (syserr(e) == ETIMEDOUT && w.timed) {
      if (boot_ns() < w.dl) fail("C09", "early-timeout", "channel wait gave up %llu ns early", (unsigned long long)(w.dl - boot_ns()));
      mark("wait_timeout");
    } else {
      fail("C09,C07", "wait-returns-error", "channel wait returned %d/%d", (int)e, syserr(e));
    }
  }

  void check_waiters() {
    for (auto& kv : waits)
      if (kv.second.pred >= 0 && !thread_done(kv.first) && truth(kv.second.pred, kv.second.cur))
        fail("C07", "waiter-not-woken", "%s still waits for condition %d which holds (newest %llu)", thread_name(kv.first), kv.second.pred, (unsigned long long)M.high);
  }
  bool idle(int stage) override {
    if (cur_insp && !thread_done(cur_insp)) fail("C03,C01", "lock-stuck", "an inspecting process cannot use the channel");
    bool blocked = false;
    for (Thread* t : workers)
      if (!thread_done(t)) {
        if (!waits.count(t)) fail("C03,C07", "stuck", "%s is blocked outside a wait", thread_name(t));
        blocked = true;
      }
    if (stage == 0) {
      check_waiters();
      // Read it without the lock, as somebody who is alone with the file may.
      Proc* p = new_proc("alone");
      p->killable = false;
      int mode = audit_mode;
      if (mode == 1 && blocked) mode = 2;
      cur_insp = spawn(p, "chk", [this, mode]() {
        if (mode == 0) return;
        a0_file_t f = open_file("/sim/chan", fsize, mode == 1 ? A0_ARENA_MODE_EXCLUSIVE : A0_ARENA_MODE_READONLY);
        a0_transport_t* t = palloc<a0_transport_t>();
        M.opened(t, f);
        if (A(a0_transport_init(t, f.arena))) fail("C01", "open-fails", "opening the channel alone failed");
        a0_transport_locked_t lk;
        if (A(a0_transport_lock(t, &lk))) fail("C01", "open-fails", "locking the channel alone failed");
        M.audit(lk, mode == 1 ? "exclusive" : "read-only");
        bool no = false;
        a0_predicate_t never{&no, [](void* x, bool* out) {
                               *out = *(bool*)x;
                               return A0_OK;
                             }};
        a0_time_mono_t tm = mono_at(boot_ns() + 5000);
        if (!A(a0_transport_timedwait(lk, never, &tm))) fail("C09", "success-without-condition", "a wait on a channel opened alone succeeds without its condition");
        mark(mode == 1 ? "exclusive_audits" : "readonly_audits");
        if (mode == 1) {
          Rng& r = trng();
          for (int i = r.range(0, 2); i > 0; i--) write_committed(lk, r);
          M.audit(lk, "exclusive after writes");
        } else {
          a0_transport_frame_t* fr;
          if (!A(a0_transport_alloc(lk, 8, &fr))) fail("C20", "readonly-write-accepted", "a write to a read-only channel was accepted");
        }
        A(a0_transport_unlock(lk));
      });
      return true;
    }
    if (stage <= 2) {
      if (stage > 1) check_waiters();
      Proc* p = new_proc("insp");
      p->killable = false;
      cur_insp = spawn(p, "chk", [this, stage]() {
        a0_file_t f = open_file("/sim/chan", fsize);
        a0_transport_t* t = palloc<a0_transport_t>();
        M.opened(t, f);
        A(a0_transport_init(t, f.arena));
        a0_transport_locked_t lk;
        A(a0_transport_lock(t, &lk));
        M.audit(lk, "final");
        check_waiters();
        Rng& r = trng();
        if (stage == 1) {
          write_committed(lk, r);
        } else {
          M.begin(ChanModel::CLEAR);
          A(a0_transport_clear(lk));
          M.low = M.high + 1;
          M.ver++;
          M.end();
        }
        M.audit(lk, "final after update");
        A(a0_transport_unlock(lk));
      });
      return true;
    }
    check_waiters();
    return false;
  }
  void write_committed(a0_transport_locked_t lk, Rng& r) {
    u64 c = M.commits;
    for (int i = 0; i < 60 && M.commits == c; i++) {
      // an uncommitted allocation is undone first
      size_t size = r.below(M.arena - M.WS - ChanModel::FH);
      a0_transport_frame_t* f = nullptr;
      M.begin(ChanModel::ALLOC);
      a0_err_t e = A(a0_transport_alloc(lk, size, &f));
      if (e) fail("C01,C05", "write-refused", "write after recovery failed: %d", (int)e);
      M.allocated(lk, f, size, -1);
      u64 id = M.next_id++;
      M.cand.id = id;
      M.cand.data = payload(id, size);
      memcpy(f->data, M.cand.data.data(), size);
      M.begin(ChanModel::COMMIT);
      e = A(a0_transport_commit(lk));
      if (e) fail("C01", "commit-fails", "commit returned %d", (int)e);
      M.committed();
    }
  }
};
SCENARIO("tp", TpScen)
}  // namespace
