// Mutexes and condition variables: C02, C03, C04 (and the timed forms for C09).
#include "scen.h"

namespace {

inline bool lk_ok(a0_err_t e) { return !e || syserr(e) == EOWNERDEAD; }
inline bool lk_od(a0_err_t e) { return e && syserr(e) == EOWNERDEAD; }

struct MState {
  Thread* holder = nullptr;
  bool releasing = false;
  bool must_od = false;  // the last holder certainly died holding
  bool may_od = false;   // somebody died inside an operation on it
  int inop = 0;
  u64 ver = 0;
};
enum OpKind { OP_NONE, OP_LOCK, OP_UNLOCK, OP_WAIT };
struct TOp {
  OpKind k = OP_NONE;
  int m = -1;
};

struct Locks {
  std::vector<MState> ms;
  std::map<Thread*, TOp> op;
  const char* props_ex = "C02";

  void begin(int m, OpKind k) {
    op[cur_thread()] = TOp{k, m};
    ms[m].inop++;
    ms[m].ver++;
  }
  void end(int m) {
    op[cur_thread()] = TOp{};
    ms[m].inop--;
    ms[m].ver++;
  }
  void acquired(int m, bool od, const char* how) {
    MState& s = ms[m];
    Thread* me = cur_thread();
    if (s.holder && s.holder != me && !thread_done(s.holder) && !s.releasing)
      fail("C02", "two-holders", "%s of lock %d succeeded in %s while %s holds it", how, m, thread_name(me), thread_name(s.holder));
    if (od && !s.must_od && !s.may_od)
      fail("C02", "owner-death-invented", "%s of lock %d reports a dead owner but no holder died", how, m);
    if (!od && s.must_od) fail("C02", "owner-death-hidden", "%s of lock %d does not report that the last holder died", how, m);
    if (od) mark("owner_death_reported");
    s.holder = me;
    s.releasing = false;
    s.must_od = s.may_od = false;
    u64 h = m * 2 + od;
    for (MState& x : ms) h = h * 1000003 + (x.holder ? thread_tid(x.holder) * 8 : 0) + x.releasing + 2 * x.must_od + 4 * x.may_od;
    state_sig(hash_mem(&h, sizeof h));
  }
  void dead(Thread* t) {
    TOp o = op.count(t) ? op[t] : TOp{};
    for (size_t i = 0; i < ms.size(); i++) {
      MState& s = ms[i];
      if (s.holder == t) {
        if (s.releasing || (o.m == (int)i && o.k != OP_NONE)) {
          s.may_od = true;
        } else {
          s.must_od = true;
        }
        s.holder = nullptr;
        s.releasing = false;
        mark("death_while_holding");
      } else if (o.m == (int)i && o.k != OP_NONE) {
        s.may_od = true;
        mark("death_inside_operation");
      }
      if (o.m == (int)i && o.k != OP_NONE) s.inop--;
      s.ver++;
    }
    op.erase(t);
  }
};

struct MtxScen : Scenario {
  Locks L;
  int nproc, nthr, nm, nops;
  bool timed, exits;
  int restarts = 0, forks = 0, kids = 0;
  std::vector<Thread*> workers;
  std::vector<Thread*> finals;
  int procs_made = 0;

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.75);
    nproc = r.range(1, 3);
    nthr = r.range(1, 3);
    if (nproc * nthr < 2) nthr = 2;
    nm = r.range(1, 3);
    nops = r.range(3, 14);
    timed = r.chance(0.6);
    exits = s.faults && r.chance(0.4);
    cfg.fault_steps = 40000;
    set_generic_props("C02,C03,C09");
    L.ms.resize(nm);
    restarts = s.kill ? r.range(0, 2) : 0;
    forks = r.chance(0.3) ? r.range(1, 2) : 0;
    for (int i = 0; i < nproc; i++) add_proc();
  }
  void add_proc() {
    char nm_[16];
    snprintf(nm_, sizeof nm_, "p%d", procs_made++);
    Proc* p = new_proc(nm_);
    for (int i = 0; i < nthr; i++) {
      char n[16];
      snprintf(n, sizeof n, "w%d", i);
      workers.push_back(spawn(p, n, [this]() { worker(); }));
    }
  }
  a0_mtx_t* mtxs() {
    // one mapping per thread: different addresses of the same locks within one process as well
    a0_file_t f = open_file("/sim/locks", 4096);
    return (a0_mtx_t*)(f.arena.buf.data + 64);
  }
  void bad_err(const char* what, int m, a0_err_t e) {
    fail("C03", "lock-operation-fails", "%s of lock %d in %s returned unexpected error %d (system error %d)", what, m, thread_name(cur_thread()), (int)e,
         syserr(e));
  }
  void worker() {
    a0_mtx_t* mt = mtxs();
    Rng& r = trng();
    std::vector<int> held;
    auto unlock_one = [&]() {
      size_t i = r.below(held.size());
      int m = held[i];
      held.erase(held.begin() + i);
      L.begin(m, OP_UNLOCK);
      L.ms[m].releasing = true;
      note("unlock %d", m);
      a0_err_t e = A(a0_mtx_unlock(&mt[m]));
      if (L.ms[m].holder == cur_thread()) {
        L.ms[m].holder = nullptr;
        L.ms[m].releasing = false;
      }
      L.end(m);
      if (e) fail("C02", "holder-cannot-unlock", "unlock of held lock %d returned %d", m, syserr(e));
    };
    for (int i = 0; i < nops; i++) {
      for (int k = r.range(0, 3); k > 0; k--) yield();
      if (!held.empty() && r.chance(0.4)) {
        unlock_one();
        continue;
      }
      if (exits && r.chance(0.03) && faults_on()) {
        note("thread exits holding %zu", held.size());
        thread_exit_now();
      }
      if (kids < forks && r.chance(0.1)) {
        char n[16];
        snprintf(n, sizeof n, "k%d", kids++);
        note("fork %s", n);
        mark("fork");
        workers.push_back(fork_proc(n, [this]() { worker(); })->threads[0]);
      }
      int m;
      bool relock = false;
      if (!held.empty() && r.chance(0.15)) {
        m = held[r.below(held.size())];
        relock = true;
      } else {
        // take locks in increasing order so that the workload itself cannot deadlock
        int lo = -1;
        for (int h : held) lo = h > lo ? h : lo;
        if (lo + 1 >= nm) {
          unlock_one();
          continue;
        }
        m = r.range(lo + 1, nm - 1);
      }
      if (!relock && r.chance(0.08)) {
        // not ours: must be refused
        MState& s = L.ms[m];
        if (s.holder != cur_thread()) {
          a0_err_t e = A(a0_mtx_unlock(&mt[m]));
          if (!e) fail("C02", "unlock-by-non-holder", "unlock of lock %d by %s, which does not hold it, succeeded", m, thread_name(cur_thread()));
          mark("foreign_unlock_refused");
          continue;
        }
      }
      int how = r.range(0, timed ? 2 : 1);
      MState& s = L.ms[m];
      bool quiet = !s.holder && s.inop == 0;
      L.begin(m, OP_LOCK);
      u64 ver = s.ver;
      a0_err_t e;
      u64 dl = 0, susp0 = suspended_ns();
      if (how == 0) {
        note("lock %d", m);
        e = A(a0_mtx_lock(&mt[m]));
      } else if (how == 1) {
        note("trylock %d", m);
        e = A(a0_mtx_trylock(&mt[m]));
      } else {
        dl = vary_deadline(r, boot_ns() + (r.chance(0.3) ? 0 : r.below(r.chance(0.5) ? 20000 : 2000000)));
        note("timedlock %d", m);
        a0_time_mono_t t = mono_at(dl);
        e = AT(dl, a0_mtx_timedlock(&mt[m], &t));
      }
      note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
      (void)susp0;
      bool same = s.ver == ver;
      L.end(m);
      bool ok = lk_ok(e);
      if (relock) {
        if (ok) fail("C02", "relock-succeeds", "re-lock of lock %d by its holder succeeded", m);
        mark("relock_refused");
        continue;
      }
      if (ok) {
        L.acquired(m, lk_od(e), how == 0 ? "lock" : how == 1 ? "trylock" : "timedlock");
        held.push_back(m);
        continue;
      }
      int se = syserr(e);
      if (how == 1 && se == EBUSY) {
        if (quiet && same)
          fail("C02,C03", "trylock-refuses-free-lock", "trylock of lock %d reports busy while nobody holds or uses it", m);
        mark("trylock_busy");
        continue;
      }
      if (how == 2 && se == ETIMEDOUT) {
        if (boot_ns() < dl) fail("C09", "early-timeout", "timed lock gave up %llu ns before its deadline", (unsigned long long)(dl - boot_ns()));
        mark("lock_timeout");
        continue;
      }
      bad_err(how == 0 ? "lock" : how == 1 ? "trylock" : "timedlock", m, e);
    }
    while (!held.empty()) {
      if (exits && r.chance(0.05) && faults_on()) thread_exit_now();
      unlock_one();
    }
  }
  void thread_dead(Thread* t) override { L.dead(t); }
  void proc_dead(Proc* p) override {
    if (p->killed && restarts > 0) {
      restarts--;
      count_fault(F_RESTART);
      add_proc();
    }
  }
  bool idle(int stage) override {
    if (stage == 0) {
      for (Thread* t : workers)
        if (!thread_done(t))
          fail("C03", "lock-stuck", "%s is blocked for ever in a lock operation although all live threads finished or wait", thread_name(t));
      Proc* p = new_proc("final");
      p->killable = false;
      finals.push_back(spawn(p, "check", [this]() {
        a0_mtx_t* mt = mtxs();
        for (int m = 0; m < nm; m++) {
          L.begin(m, OP_LOCK);
          a0_err_t e = (m & 1) ? A(a0_mtx_lock(&mt[m])) : A(a0_mtx_trylock(&mt[m]));
          L.end(m);
          if (!lk_ok(e)) bad_err("final lock", m, e);
          L.acquired(m, lk_od(e), "final lock");
          L.begin(m, OP_UNLOCK);
          L.ms[m].releasing = true;
          e = A(a0_mtx_unlock(&mt[m]));
          L.ms[m].holder = nullptr;
          L.end(m);
          if (e) fail("C02", "holder-cannot-unlock", "final unlock failed");
        }
      }));
      return true;
    }
    for (Thread* t : finals)
      if (!thread_done(t)) fail("C03", "lock-stuck", "a fresh process cannot take a lock nobody holds");
    return false;
  }
};
SCENARIO("mtx", MtxScen)

// ---------------------------------------------------------------- condition variables
struct CndScen : Scenario {
  Locks L;
  int nwait, nsig, rounds, sends;
  bool bcast_only, timed;
  struct Waiter {
    Thread* t = nullptr;
    bool waiting = false;   // registered under the lock, wait not returned yet
    u64 bc = 0;             // number of the last broadcast announced before waiting
  };
  std::map<Thread*, Waiter> ws;
  std::vector<Thread*> all, finals;
  u64 bc_done = 0;          // highest number of a completed broadcast
  bool burst = false;       // several signals at once, all after releasing the lock
  bool outside = false;     // some wakers announce under the lock and wake after releasing it
  int deaths = 0;
  bool stop = false;

  struct Sh {
    a0_mtx_t m;
    a0_cnd_t c;
    uint32_t pad;
    u64 gen;      // guarded by m; bumped before every broadcast
    u64 credits;  // guarded by m; bumped before every signal
  };

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.6);
    nwait = r.chance(0.8) ? r.range(1, 4) : r.range(4, 7);
    nsig = r.range(1, 3);
    outside = r.chance(0.5);
    rounds = r.range(1, 5);
    sends = r.chance(0.5) ? rounds * 2 : r.range(1, 3);
    bcast_only = r.chance(0.5);
    timed = r.chance(0.5);
    burst = r.chance(0.15);
    if (burst) {
      nwait = r.range(3, 6);
      nsig = r.range(3, 6);
      rounds = sends = 1;
      outside = true;
      bcast_only = timed = false;
    }
    cfg.fault_steps = 40000;
    set_generic_props("C04,C02,C03,C09");
    L.ms.resize(1);
    int np = r.range(1, 3);
    std::vector<Proc*> ps;
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      ps.push_back(new_proc(n));
    }
    for (int i = 0; i < nwait; i++) all.push_back(spawn(ps[r.below(np)], "wait", [this]() { waiter(); }));
    for (int i = 0; i < nsig; i++) all.push_back(spawn(ps[r.below(np)], "sig", [this]() { signaller(); }));
  }
  Sh* sh() { return (Sh*)(open_file("/sim/cnd", 4096).arena.buf.data + 128); }

  bool lock(Sh* s) {
    L.begin(0, OP_LOCK);
    a0_err_t e = A(a0_mtx_lock(&s->m));
    L.end(0);
    if (!lk_ok(e)) fail("C03", "lock-operation-fails", "lock returned %d/%d", (int)e, syserr(e));
    L.acquired(0, lk_od(e), "lock");
    return true;
  }
  void unlock(Sh* s) {
    L.begin(0, OP_UNLOCK);
    L.ms[0].releasing = true;
    a0_err_t e = A(a0_mtx_unlock(&s->m));
    if (L.ms[0].holder == cur_thread()) {
      L.ms[0].holder = nullptr;
      L.ms[0].releasing = false;
    }
    L.end(0);
    if (e) fail("C02,C04", "holder-cannot-unlock", "unlock failed with %d after a wait or lock that reported holding it", syserr(e));
  }
  // A wait that cannot begin is refused and leaves the lock as it is.
  void refused(Sh* s, bool held) {
    Rng& r = trng();
    a0_time_mono_t t = mono_at(boot_ns() + 1000);
    const char* what = "by a thread that does not hold the lock";
    if (held) {
      what = "with a malformed deadline";
      switch (r.below(4)) {
        case 0: t.ts.tv_sec = -1; break;
        case 1: t.ts.tv_nsec = -1; break;
        case 2: t.ts.tv_nsec = 1000000000 + r.below(3); break;
        default: t.ts.tv_sec = t.ts.tv_nsec = 0;
      }
    }
    a0_err_t e = held || r.chance(0.5) ? A(a0_cnd_timedwait(&s->c, &s->m, &t)) : A(a0_cnd_wait(&s->c, &s->m));
    note("refused wait (%d) -> %d", held, e ? syserr(e) : 0);
    if (!e || syserr(e) == EOWNERDEAD) fail("C04", "bad-wait-accepted", "a wait %s succeeded", what);
    bool mine = (u32)s->m.ftx % (1u << 30) == thread_tid(cur_thread());
    if (mine != held) fail("C04,C02", "bad-wait-moves-lock", "a wait %s returned %d/%d and %s", what, (int)e, syserr(e), held ? "gave the lock up" : "took the lock");
    mark("refused_wait");
  }
  void waiter() {
    Sh* s = sh();
    Rng& r = trng();
    for (int i = 0; i < rounds; i++) {
      if (r.chance(0.05)) refused(s, false);
      lock(s);
      if (r.chance(0.05)) refused(s, true);
      for (int k = r.range(0, 2); k > 0; k--) yield();
      u64 g0 = s->gen;
      Waiter& w = ws[cur_thread()];
      bool done = false;
      while (!done && !stop) {
        if (!bcast_only && s->credits) {
          s->credits--;
          mark("signal_seen");
          break;
        }
        u64 dl = 0;
        a0_time_mono_t t;
        bool tm = timed && r.chance(0.6);
        if (tm) {
          dl = vary_deadline(r, boot_ns() + 1 + r.below(r.chance(0.5) ? 10000 : 3000000));
          t = mono_at(dl);
        }
        w.waiting = true;
        w.bc = s->gen;
        L.begin(0, OP_WAIT);
        L.ms[0].releasing = true;  // the wait gives the lock up
        note("cnd wait%s", tm ? " timed" : "");
        a0_err_t e = tm ? AT(dl, a0_cnd_timedwait(&s->c, &s->m, &t)) : A(a0_cnd_wait(&s->c, &s->m));
        int se = e ? syserr(e) : 0;
        note("  -> %d", se);
        L.end(0);
        w.waiting = false;
        // A wait returns holding the lock whatever the reason.
        bool od = se == EOWNERDEAD;
        if (e && !od && !(tm && se == ETIMEDOUT))
          fail("C04", "wait-returns-error", "condition wait returned %d/%d", (int)e, se);
        if (se == ETIMEDOUT) {
          if (boot_ns() < dl) fail("C09", "early-timeout", "condition wait gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
          MState& ms = L.ms[0];
          if (ms.holder && ms.holder != cur_thread() && !thread_done(ms.holder) && !ms.releasing)
            fail("C02,C04", "two-holders", "timed out wait returned while %s holds the lock", thread_name(ms.holder));
          ms.holder = cur_thread();
          ms.releasing = false;
          ms.must_od = ms.may_od = false;  // the timeout takes precedence in what is reported
          mark("wait_timeout");
          done = r.chance(0.5);
        } else {
          // releasing by ourselves: not another holder
          if (L.ms[0].holder == cur_thread()) L.ms[0].holder = nullptr;
          L.acquired(0, od, "condition wait");
        }
        if ((u32)s->m.ftx % (1u << 30) != thread_tid(cur_thread()))
          fail("C04,C02", "wait-returns-without-lock", "condition wait returned %d but the lock word names another owner", se);
        if (s->gen != g0) {
          done = true;
          mark("woken_by_broadcast");
        }
      }
      unlock(s);
    }
  }
  void signaller() {
    Sh* s = sh();
    Rng& r = trng();
    for (int i = 0; i < sends; i++) {
      for (int k = r.range(0, 6); k > 0; k--) yield();
      lock(s);
      for (int k = r.range(0, 2); k > 0; k--) yield();
      send(s, bcast_only || (!burst && r.chance(0.4)), burst || (outside && r.chance(0.6)));
    }
  }
  // Called with the lock held, returns with the lock released.
  void send(Sh* s, bool bc, bool out) {
    a0_err_t e;
    u64 no = 0;
    if (bc)
      no = ++s->gen;
    else
      s->credits++;
    if (out) {
      unlock(s);
      mark("wake_outside");
    }
    if (bc)
      e = A(a0_cnd_broadcast(&s->c, &s->m));
    else
      e = A(a0_cnd_signal(&s->c, &s->m));
    note("%s -> %d", bc ? "broadcast" : "signal", e ? syserr(e) : 0);
    if (e) fail("C04", "wake-fails", "%s returned %d/%d", bc ? "broadcast" : "signal", (int)e, syserr(e));
    if (no > bc_done) bc_done = no;
    if (!out) {
      if (trng().chance(0.3)) yield();
      unlock(s);
    }
  }
  void thread_dead(Thread* t) override {
    L.dead(t);
    if (thread_proc(t)->killed) deaths++;
    ws.erase(t);
  }
  bool idle(int stage) override {
    // Whoever still waits must have seen no broadcast since it started waiting, and no unconsumed signal may exist.
    if (stage < 3) {
      Proc* p = new_proc("inspect");
      p->killable = false;
      finals.push_back(spawn(p, "chk", [this, stage]() {
        Sh* s = sh();
        lock(s);
        int waiting = 0;
        for (auto& w : ws)
          if (w.second.waiting) {
            waiting++;
            if (w.second.bc < bc_done)
              fail("C04", "lost-broadcast", "%s still waits although a broadcast was issued since it started", thread_name(w.first));
          }
        if (waiting && s->credits && !bcast_only && !deaths)
          fail("C04", "lost-signal", "%d threads wait although a signal was issued for one of them", waiting);
        if (stage == 1 && !bcast_only) {
          send(s, false, false);
        } else {
          if (stage == 2) stop = true;
          send(s, true, false);
        }
      }));
      return true;
    }
    for (Thread* t : finals)
      if (!thread_done(t)) fail("C03,C04", "lock-stuck", "inspecting process cannot take the lock");
    for (Thread* t : all)
      if (!thread_done(t)) fail("C04,C03", "waiter-stuck", "%s still blocked after a broadcast", thread_name(t));
    return false;
  }
};
SCENARIO("cnd", CndScen)
}  // namespace
