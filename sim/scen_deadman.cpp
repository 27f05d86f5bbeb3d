// Deadman switches: C10, C11 (and C09, C03).
#include <a0/deadman.h>
#include <a0/deadman.hpp>
#include <a0/deadman_mtx.h>

#include "cxx.h"

namespace {

struct DmScen : Scenario {
  // One successful (or attempted) take.
  struct Period {
    Thread* owner;
    a0_tid_t tid;
    u64 begun;               // the take was called
    u64 returned = 0;        // the take returned success
    bool has_tkn = false;
    u64 tkn = 0;
    u64 rel_begun = 0;       // release (or close) was called
    u64 ended = 0;           // release returned, owner died, or the take failed
    bool failed = false, died = false;
    bool maybe_free() const { return rel_begun || ended; }
  };
  struct Obs {  // a token nobody had reported yet, with the takes it may belong to
    u64 tkn;
    std::vector<int> cand;
  };
  std::vector<Period> per;
  std::vector<Obs> obs;
  std::map<u64, u64> declared_over;  // tokens whose release was reported -> when
  int holder = -1;
  bool must_od = false, may_od = false;
  int inop = 0;
  u64 ver = 0;

  enum K { NONE, TAKE, RELEASE, WTAKEN, WREL, SHUT, OTHER };
  struct H {  // one handle
    a0_deadman_t d;
    a0_deadman_mtx_t* m;
    a0::Deadman* x;  // the C++ interface is used
    bool topic = false;
    bool done = false;     // its user needs it no more
    bool closing = false;  // another thread ends the handle while its user is blocked: no further use
    bool shut_asked = false, shut_done = false;
  };
  struct Op {
    K k = NONE;
    u64 start = 0, tkn = 0;
    int period = -1;
    H* h = nullptr;
  };
  std::map<Thread*, Op> ops;
  std::vector<Thread*> workers;
  Thread* insp = nullptr;
  bool topic = false, stop = false, let_go = false, insp_holds = false, exits = false, shuts = false, closes = false;
  int nops = 0;

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.7);
    cfg.p_syserr = 0;
    cfg.fault_steps = 60000;
    set_generic_props("C10,C11,C09");
    topic = r.chance(0.4);
    nops = r.range(2, 10);
    exits = s.faults && r.chance(0.4);
    shuts = !topic && r.chance(0.4);
    closes = !shuts && r.chance(0.4);
    int np = r.range(1, 4);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* p = new_proc(n);
      int nt = r.range(1, 3);
      if (np == 1 && nt == 1) nt = 2;
      for (int j = 0; j < nt; j++) workers.push_back(spawn(p, j == 0 ? "a" : j == 1 ? "b" : "c", [this]() { worker(); }));
    }
  }

  // -------------------------------------------------------------- the model
  Op& begin(K k, H* h) {
    Op& o = ops[cur_thread()];
    o = Op{};
    o.k = k;
    o.start = lclock();
    o.h = h;
    inop++;
    ver++;
    return o;
  }
  void end() {
    ops[cur_thread()].k = NONE;
    inop--;
    ver++;
    u64 h = per.size() * 8 + (holder >= 0) + 2 * must_od + 4 * may_od;
    for (auto& kv : ops) h = h * 31 + kv.second.k;
    state_sig(hash_mem(&h, sizeof h));
  }
  void thread_dead(Thread* t) override {
    auto it = ops.find(t);
    if (it != ops.end()) {
      Op& o = it->second;
      if (o.k != NONE) {
        inop--;
        mark("death_inside_operation");
        may_od = may_od || o.k == TAKE || o.k == RELEASE;
      }
      if (o.k == TAKE && o.period >= 0) {
        per[o.period].died = true;
        per[o.period].ended = lclock();
      }
      ops.erase(it);
    }
    if (holder >= 0 && per[holder].owner == t) {
      Period& p = per[holder];
      if (p.rel_begun) {
        may_od = true;
      } else {
        must_od = true;
      }
      p.died = true;
      p.ended = lclock();
      holder = -1;
      mark("death_while_holding");
    }
    ver++;
  }
  // Is there a take that was (possibly) in force at some time between a and now?
  bool overlaps(const Period& p, u64 a) { return !p.failed && (!p.ended || p.ended >= a); }
  void resolve(int pi) {
    // the token of period pi is known now (or will never be)
    Period& p = per[pi];
    for (size_t i = 0; i < obs.size();) {
      Obs& o = obs[i];
      bool drop = false, was = false;
      for (size_t j = 0; j < o.cand.size(); j++)
        if (o.cand[j] == pi) {
          was = true;
          if (p.has_tkn && p.tkn == o.tkn) drop = true;
          o.cand.erase(o.cand.begin() + j);
          break;
        }
      if (was && !drop && o.cand.empty())
        fail("C10", "token-of-no-period", "waiting for the switch to be taken reported token %llu, which belongs to no holding period of that time",
             (unsigned long long)o.tkn);
      if (drop) {
        obs.erase(obs.begin() + i);
      } else {
        i++;
      }
    }
  }
  void saw_token(u64 tkn, u64 start) {
    Obs o{tkn, {}};
    bool wild = false;
    for (size_t i = 0; i < per.size(); i++) {
      Period& p = per[i];
      if (p.has_tkn && p.tkn == tkn) {
        if (!overlaps(p, start))
          fail("C10", "stale-token", "waiting for the switch to be taken reported token %llu of a period that ended before the wait began", (unsigned long long)tkn);
        return;
      }
      if (!overlaps(p, start) || p.has_tkn) continue;
      if (p.died) wild = true;
      o.cand.push_back(i);
    }
    if (wild) return;
    if (o.cand.empty())
      fail("C10", "token-of-no-period", "waiting for the switch to be taken reported token %llu, which belongs to no holding period of that time", (unsigned long long)tkn);
    obs.push_back(o);
  }
  void acquired(int pi, bool od) {
    Period& p = per[pi];
    if (holder >= 0 && !per[holder].maybe_free())
      fail("C10", "two-owners", "take succeeded in %s while %s holds the switch", thread_name(p.owner), thread_name(per[holder].owner));
    if (od && !must_od && !may_od) fail("C10", "owner-death-invented", "take reports a dead owner but no owner died");
    if (!od && must_od) fail("C10", "owner-death-hidden", "take does not report that the last owner died");
    if (od) mark("owner_death_reported");
    must_od = may_od = false;
    holder = pi;
    p.returned = lclock();
  }

  // -------------------------------------------------------------- calls
  H* open() {
    H* h = palloc<H>();
    h->topic = topic;
    NoSysFault nf;
    if (topic && trng().chance(0.3)) {
      a0_err_t e = X([&]() { h->x = new a0::Deadman("sw"); });
      if (e) fail("C10,C18", "init-fails", "deadman init returned %d/%d", (int)e, syserr(e));
    } else if (topic) {
      a0_deadman_topic_t t = {"sw"};
      a0_err_t e = A(a0_deadman_init(&h->d, t));
      if (e) fail("C10,C18", "init-fails", "deadman init returned %d/%d", (int)e, syserr(e));
    } else {
      a0_file_t f = open_file("/sim/dm", sizeof(a0_deadman_mtx_shared_token_t));
      h->m = palloc<a0_deadman_mtx_t>();
      A(a0_deadman_mtx_init(h->m, (a0_deadman_mtx_shared_token_t*)f.arena.buf.data));
    }
    return h;
  }
#define DMT(h, mcall, dcall, ...) ((h)->topic ? AT(dl, a0_deadman_##dcall(&(h)->d, ##__VA_ARGS__)) : AT(dl, a0_deadman_mtx_##mcall((h)->m, ##__VA_ARGS__)))
#define DM(h, mcall, dcall, ...) ((h)->topic ? A(a0_deadman_##dcall(&(h)->d, ##__VA_ARGS__)) : A(a0_deadman_mtx_##mcall((h)->m, ##__VA_ARGS__)))
  // The C++ interface does not tell whether the previous owner died.
  a0_err_t cx_take(H* h, int how, u64 dl) {
    a0::TimeMono tm = cx_mono(dl);
    a0_err_t e;
    bool ok = true;
    if (how == 0)
      e = X([&]() { h->x->take(); });
    else if (how == 1)
      e = X([&]() { ok = h->x->try_take(); });
    else
      e = XT(dl, ([&]() { h->x->take(tm); }));
    if (!ok) {
      a0_err_syscode = EBUSY;
      return A0_ERR_SYS;
    }
    if (!e) {
      may_od = must_od || may_od;
      must_od = false;
    }
    return e;
  }
  a0_err_t state(H* h, a0_deadman_state_t* st) {
    if (!h->x) return DM(h, state, state, st);
    return X([&]() {
      a0::Deadman::State s = h->x->state();
      *st = {s.is_taken, s.is_owner, s.owner_tid, s.tkn};
    });
  }


  bool take(H* h, int how) {
    Rng& r = trng();
    bool quiet = holder < 0 && inop == 0;
    Op& o = begin(TAKE, h);
    u64 v0 = ver;
    o.period = per.size();
    int pi = o.period;
    Period p;
    p.owner = cur_thread();
    p.tid = thread_tid(cur_thread());
    p.begun = o.start;
    per.push_back(p);
    bool shut0 = h->shut_done;
    u64 dl = vary_deadline(r, boot_ns() + (r.chance(0.2) ? 0 : r.below(r.chance(0.5) ? 30000 : 3000000)));
    a0_time_mono_t tm = mono_at(dl);
    note("take %s", how == 0 ? "" : how == 1 ? "try" : "timed");
    a0_err_t e = h->x ? cx_take(h, how, dl) : how == 0 ? DM(h, lock, take) : how == 1 ? DM(h, trylock, trytake) : DMT(h, timedlock, timedtake, &tm);
    note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
    bool same = ver == v0;
    bool ok = !e || syserr(e) == EOWNERDEAD;
    if (ok) {
      if (shut0) fail("C11", "take-after-shutdown", "take succeeded on a handle that was shut down before");
      acquired(pi, e != 0);
      end();
      mark("taken");
      if (h->closing) return true;
      a0_deadman_state_t st = mystate(h, pi);
      per[pi].has_tkn = true;
      per[pi].tkn = st.tkn;
      for (size_t i = 0; i < per.size(); i++)
        if ((int)i != pi && per[i].has_tkn && per[i].tkn == st.tkn)
          fail("C10", "token-reused", "two holding periods have the token %llu", (unsigned long long)st.tkn);
      if (declared_over.count(st.tkn))
        fail("C10", "release-invented", "the release of token %llu was reported although its period had only begun", (unsigned long long)st.tkn);
      resolve(pi);
      return true;
    }
    per[pi].failed = true;
    per[pi].ended = lclock();
    end();
    resolve(pi);
    int se = syserr(e);
    if (se == ESHUTDOWN && h->shut_asked) return false;
    if (how == 1 && se == EBUSY) {
      if (quiet && same) fail("C10", "free-switch-refused", "try-take of a free, untouched switch failed");
      return false;
    }
    if (how == 2 && se == ETIMEDOUT) {
      if (boot_ns() < dl) fail("C09,C11", "early-timeout", "timed take gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
      if (quiet && same) fail("C10,C09", "free-switch-refused", "timed take of a free, untouched switch failed");
      mark("take_timeout");
      return false;
    }
    fail("C10,C11", "operation-fails", "take returned %d/%d", (int)e, se);
    return false;
  }
  // State seen by the owner itself, while it surely holds the switch.
  a0_deadman_state_t mystate(H* h, int pi) {
    a0_deadman_state_t st;
    memset(&st, 0, sizeof st);
    begin(OTHER, h);
    state(h, &st);
    end();
    if (!st.is_locked || !st.is_owner || st.owner_tid != per[pi].tid)
      fail("C10", "owner-sees-wrong-state", "the owner sees locked=%d owner=%d tid=%u (own tid %u)", st.is_locked, st.is_owner, (unsigned)st.owner_tid, (unsigned)per[pi].tid);
    if (per[pi].has_tkn && st.tkn != per[pi].tkn)
      fail("C10", "token-changes", "the token changed from %llu to %llu within one holding period", (unsigned long long)per[pi].tkn, (unsigned long long)st.tkn);
    return st;
  }
  void release(H* h, int pi, bool close) {
    begin(RELEASE, h);
    per[pi].rel_begun = lclock();
    note(close ? "close" : "release");
    a0_err_t e = A0_OK;
    if (h->x && close)
      AV(delete h->x);
    else if (h->x)
      e = X([&]() { h->x->release(); });
    else
      e = close ? A(a0_deadman_close(&h->d)) : DM(h, unlock, release);
    if (holder == pi) holder = -1;
    per[pi].ended = lclock();
    end();
    if (e) fail("C10", "owner-cannot-release", "release by the owner returned %d/%d", (int)e, syserr(e));
  }
  // Waits for a take; returns whether a token was obtained.
  bool wait_taken(H* h, bool timed, u64* tkn) {
    Rng& r = trng();
    u64 start = begin(WTAKEN, h).start;
    u64 dl = vary_deadline(r, boot_ns() + (r.chance(0.2) ? 0 : r.below(2000000)));
    a0_time_mono_t tm = mono_at(dl);
    u64* out = tkn;
    if (!h->x && r.chance(0.1)) tkn = nullptr;
    note("wait taken%s", timed ? " timed" : "");
    a0::TimeMono xt = cx_mono(dl);
    a0_err_t e = h->x && timed ? XT(dl, ([&]() { *tkn = h->x->wait_taken(xt); }))
                 : h->x        ? X([&]() { *tkn = h->x->wait_taken(); })
                 : timed ? DMT(h, timedwait_locked, timedwait_taken, &tm, tkn) : DM(h, wait_locked, wait_taken, tkn);
    note("  -> %d/%d token %llu", (int)e, e ? syserr(e) : 0, (unsigned long long)*out);
    bool shut = h->shut_asked;
    end();
    if (!e) {
      bool any = false;
      for (Period& p : per) any = any || overlaps(p, start);
      if (!any) fail("C10,C09", "taken-invented", "waiting for a take returned although nobody took the switch");
      if (!tkn) return false;
      saw_token(*tkn, start);
      mark("wait_taken_returned");
      return true;
    }
    int se = syserr(e);
    if (se == ESHUTDOWN && shut) return false;
    if (timed && se == ETIMEDOUT) {
      if (boot_ns() < dl) fail("C09,C11", "early-timeout", "timed wait gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
      return false;
    }
    fail("C11,C10", "operation-fails", "waiting for a take returned %d/%d", (int)e, se);
    return false;
  }
  void wait_released(H* h, bool timed, u64 tkn) {
    Rng& r = trng();
    Op& o = begin(WREL, h);
    o.tkn = tkn;
    u64 dl = vary_deadline(r, boot_ns() + (r.chance(0.2) ? 0 : r.below(2000000)));
    a0_time_mono_t tm = mono_at(dl);
    note("wait released %llu%s", (unsigned long long)tkn, timed ? " timed" : "");
    a0::TimeMono xt = cx_mono(dl);
    a0_err_t e = h->x && timed ? XT(dl, ([&]() { h->x->wait_released(tkn, xt); }))
                 : h->x        ? X([&]() { h->x->wait_released(tkn); })
                 : timed ? DMT(h, timedwait_unlocked, timedwait_released, &tm, tkn) : DM(h, wait_unlocked, wait_released, tkn);
    note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
    bool shut = h->shut_asked;
    end();
    if (!e) {
      mark("wait_released_returned");
      bool known = false;
      for (Period& p : per)
        if (p.has_tkn && p.tkn == tkn) {
          known = true;
          if (!p.maybe_free()) fail("C10", "release-invented", "the release of token %llu was reported although %s still holds it", (unsigned long long)tkn, thread_name(p.owner));
        }
      if (!known) declared_over[tkn] = lclock();
      return;
    }
    int se = syserr(e);
    if (se == ESHUTDOWN && shut) return;
    if (timed && se == ETIMEDOUT) {
      if (boot_ns() < dl) fail("C09,C11", "early-timeout", "timed wait gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
      return;
    }
    fail("C11,C10", "operation-fails", "waiting for a release returned %d/%d", (int)e, se);
  }
  void other_state(H* h) {
    u64 start = lclock();
    int h0 = holder;
    if (h0 >= 0 && per[h0].rel_begun) h0 = -1;
    begin(OTHER, h);
    a0_deadman_state_t st;
    memset(&st, 0, sizeof st);
    state(h, &st);
    end();
    if (st.is_owner) fail("C10", "wrong-state", "a participant that does not own the switch is told that it does");
    if (st.is_locked) {
      bool any = false;
      for (Period& p : per) any = any || (overlaps(p, start) && p.tid == st.owner_tid);
      if (!any) fail("C10", "wrong-state", "state shows owner %u, who did not hold the switch then", (unsigned)st.owner_tid);
    } else {
      if (h0 >= 0 && holder == h0 && !per[h0].rel_begun) fail("C10", "wrong-state", "state shows a free switch while %s holds it", thread_name(per[h0].owner));
      if (st.owner_tid) fail("C10", "wrong-state", "state shows a free switch with owner %u", (unsigned)st.owner_tid);
    }
  }

  // Ends the handle of a thread that is blocked in a wait.
  void ender(H* h, Thread* victim) {
    Rng& r = trng();
    if (r.chance(0.5)) sleep_ns(r.below(500000));
    for (;;) {
      auto blocked = [this, h, victim]() {
        if (!thread_blocked(victim) || !ops.count(victim) || ops[victim].h != h) return false;
        K k = ops[victim].k;
        return k == WTAKEN || k == WREL || (!topic && k == TAKE);
      };
      auto ready = [this, h, victim, blocked]() { return thread_done(victim) || h->done || blocked(); };
      block_forever_until(ready);
      if (thread_done(victim) || h->done) return;
      if (!blocked()) continue;
      break;
    }
    h->closing = h->shut_asked = true;
    begin(SHUT, h);
    note("end the handle of %s", thread_name(victim));
    a0_err_t e = topic ? A(a0_deadman_close(&h->d)) : A(a0_deadman_mtx_shutdown(h->m));
    end();
    if (e) fail("C11", "operation-fails", "closing a handle returned %d/%d", (int)e, syserr(e));
    h->shut_done = true;
    if (!topic) pfree(h->m);
    mark("ended_while_blocked");
  }

  void worker() {
    Rng& r = trng();
    H* h = open();
    if (shuts && r.chance(0.5)) {
      int delay = r.range(0, 3000);
      Thread* victim = cur_thread();
      workers.push_back(spawn(cur_proc(), "s", [this, h, delay, victim]() {
        Rng& r = trng();
        for (int i = r.range(0, 20); i > 0; i--) yield();
        if (r.chance(0.7)) sleep_ns(delay * 1000);
        (void)victim;
        h->shut_asked = true;
        begin(SHUT, h);
        note("shutdown of %s", thread_name(victim));
        a0_err_t e = A(a0_deadman_mtx_shutdown(h->m));
        end();
        if (e) fail("C11", "operation-fails", "shutdown returned %d/%d", (int)e, syserr(e));
        h->shut_done = true;
        mark("shutdown");
      }));
    }
    if (closes && !h->x && r.chance(0.4)) {
      Thread* victim = cur_thread();
      workers.push_back(spawn(cur_proc(), "e", [this, h, victim]() { ender(h, victim); }));
    }
    u64 tkn = 0;
    bool has = false;
    int mine = -1;
    for (int k = 0; k < nops && !stop; k++) {
      if (h->closing) break;
      for (int y = r.range(0, 3); y > 0; y--) yield();
      if (r.chance(0.1)) sleep_ns(r.below(400000));
      if (mine >= 0) {
        switch (r.range(0, 5)) {
          case 0:
          case 1:
          case 2: release(h, mine, false); mine = -1; break;
          case 3: mystate(h, mine); break;
          case 4: {
            begin(OTHER, h);
            a0_err_t e = h->x ? cx_take(h, 1, 0) : DM(h, trylock, trytake);
            end();
            if (e) fail("C10", "owner-take-fails", "take by the owner returned %d/%d", (int)e, syserr(e));
            break;
          }
          default:
            if (exits && faults_on() && r.chance(0.5)) {
              note("thread exits holding");
              thread_exit_now();
            }
        }
        continue;
      }
      switch (r.pick({0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5})) {
        case 0: if (take(h, 0)) mine = per.size() - 1, mine = holder; break;
        case 1: if (take(h, 1)) mine = holder; break;
        case 2: if (take(h, 2)) mine = holder; break;
        case 3: has = wait_taken(h, r.chance(0.4), &tkn) || has; break;
        case 4:
          if (has) {
            wait_released(h, r.chance(0.4), tkn);
          } else {
            other_state(h);
          }
          break;
        default: {
          begin(OTHER, h);
          a0_err_t e = h->x ? X([&]() { h->x->release(); }) : DM(h, unlock, release);
          end();
          if (syserr(e) != EPERM) fail("C10", "foreign-release", "release by a participant that does not hold the switch returned %d/%d", (int)e, syserr(e));
        }
      }
    }
    if (h->closing) {
      if (mine >= 0) thread_exit_now();
      return;
    }
    h->done = true;
    if (mine >= 0) {
      if (topic && r.chance(0.6)) {
        release(h, mine, true);
      } else if (!(exits && r.chance(0.3))) {
        release(h, mine, false);
      }
    } else if (topic && r.chance(0.5)) {
      begin(OTHER, h);
      a0_err_t e = A0_OK;
      if (h->x)
        AV(delete h->x);
      else
        e = A(a0_deadman_close(&h->d));
      end();
      if (e) fail("C10", "operation-fails", "close returned %d/%d", (int)e, syserr(e));
    }
    // what is left ends with the thread
  }

  bool idle(int stage) override {
    int alive = 0;
    for (Thread* t : workers) {
      if (thread_done(t)) continue;
      alive++;
      Op o = ops.count(t) ? ops[t] : Op{};
      const char* n = thread_name(t);
      if (o.h && o.h->shut_asked && o.k != NONE) fail("C11", "shutdown-does-not-release", "%s is still blocked although its handle was shut down", n);
      if (o.k == TAKE) {
        if (holder < 0) fail("C11,C03", "taker-stuck", "%s waits to take the switch, which is free", n);
      } else if (o.k == WREL) {
        bool held = false;
        for (Period& p : per) held = held || (p.has_tkn && p.tkn == o.tkn && !p.maybe_free());
        if (!held) fail("C11", "release-not-notified", "%s still waits for the release of token %llu, whose period is over", n, (unsigned long long)o.tkn);
      } else if (o.k == WTAKEN) {
        if (holder >= 0) fail("C11", "take-not-notified", "%s still waits for the switch to be taken, which it is", n);
      } else {
        fail("C11,C03", "stuck", "%s is blocked outside of a wait", n);
      }
    }
    if (insp && !thread_done(insp) && !(insp_holds && !let_go)) fail("C11,C03", "stuck", "a fresh process cannot use the switch");
    if (stage == 0) {
      stop = true;
      Proc* p = new_proc("insp");
      p->killable = false;
      bool dies = cfg_rng().chance(0.4);
      insp = spawn(p, "chk", [this, dies]() {
        H* h = open();
        a0_deadman_state_t st;
        memset(&st, 0, sizeof st);
        begin(OTHER, h);
        state(h, &st);
        end();
        if (st.is_locked || st.owner_tid || st.is_owner) fail("C10", "wrong-state", "state shows owner %u for a free switch at rest", (unsigned)st.owner_tid);
        if (!take(h, trng().range(0, 1))) fail("C10,C11", "free-switch-refused", "take of a free switch at rest failed");
        insp_holds = true;
        int mine = holder;
        block_forever_until([this]() { return let_go; });
        if (dies) thread_exit_now();
        release(h, mine, false);
      });
      if (cfg_rng().chance(0.5)) {
        // While the switch is kept, whoever wants it only for a time gives up.
        workers.push_back(spawn(new_proc("late"), "l", [this]() {
          H* h = open();
          block_forever_until([this]() { return insp_holds; });
          if (trng().chance(0.6)) {
            if (take(h, 2)) fail("C10", "two-owners", "a timed take succeeded while another process owns the switch");
          } else {
            wait_released(h, true, per[holder].tkn);
          }
          mark("gave_up");
        }));
      }
      return true;
    }
    if (stage == 1) {
      let_go = true;
      return true;
    }
    if (alive) fail("C11", "stuck", "%d participants are still blocked", alive);
    return false;
  }
};
SCENARIO("dm", DmScen)
}  // namespace
