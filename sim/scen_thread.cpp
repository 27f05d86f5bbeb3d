// Thread ids and error codes: C27.
#include <a0/file.hpp>
#include <a0/mtx.h>
#include <a0/tid.h>
#include <a0/transport.hpp>

#include "cxx.h"

namespace {

struct ThreadScen : Scenario {
  std::vector<Thread*> all;
  int nops = 0, forks = 0, kids = 0;

  void setup() override {
    Rng& r = cfg_rng();
    swarm(cfg, 0.3);
    cfg.p_syserr = 0;
    cfg.fault_steps = 40000;
    set_generic_props("C27");
    no_locks_after_calls("C27");
    vfs_mkdirs("/sim/full/dir");
    vfs_mkfile("/sim/plain");
    nops = r.range(2, 10);
    forks = r.chance(0.5) ? r.range(1, 3) : 0;
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* p = new_proc(n);
      int nt = r.range(1, 4);
      for (int j = 0; j < nt; j++) all.push_back(spawn(p, "t", [this]() { worker(nops); }));
    }
  }
  void worker(int n) {
    Rng& r = trng();
    for (int i = 0; i < n; i++) {
      for (int y = r.range(0, 3); y > 0; y--) yield();
      switch (r.below(4)) {
        case 0: ids(); break;
        case 1:
          if (kids < forks) {
            char nm[16];
            snprintf(nm, sizeof nm, "k%d", kids++);
            int m = r.range(1, nops);
            mark("fork");
            all.push_back(fork_proc(nm, [this, m]() { worker(m); })->threads[0]);
          }
          break;
        case 2: thrown(); break;
        default: code();
      }
    }
    ids();
  }
  void ids() {
    u32 t = A(a0_tid()), want = thread_tid(cur_thread());
    if (t != want) fail("C27", "wrong-thread-id", "the id of thread %u is reported as %u", want, t);
    mark("ids");
  }
  static a0_err_t bad_wait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) {
    a0_mtx_lock(m);
    a0_err_t e = a0_cnd_timedwait(c, m, t);
    a0_mtx_unlock(m);
    return e;
  }
  // A call that fails in a known way; the reason stays what it is until the next failure of the thread.
  void code() {
    Rng& r = trng();
    a0_err_t e = A0_OK;
    int want = 0;
    switch (r.below(6)) {
      case 0: {
        a0_file_options_t o = file_opts(64);
        a0_file_t f;
        e = A(a0_file_open("/sim/plain/x", &o, &f));
        want = ENOTDIR;
        break;
      }
      case 1:
        e = A(a0_file_remove("/sim/not.there"));
        want = ENOENT;
        break;
      case 2:
        e = A(a0_file_remove("/sim/full"));
        want = ENOTEMPTY;
        break;
      case 3: {
        a0_mtx_t* m = palloc<a0_mtx_t>();
        e = A(a0_mtx_unlock(m));
        want = EPERM;
        pfree(m);
        break;
      }
      case 4: {
        a0_file_iter_t* it = palloc<a0_file_iter_t>();
        e = A(a0_file_iter_init(it, "/sim/plain"));
        want = ENOTDIR;
        pfree(it);
        break;
      }
      default: {
        a0_mtx_t* m = palloc<a0_mtx_t>();
        a0_cnd_t* c = palloc<a0_cnd_t>();
        a0_time_mono_t t;
        t.ts.tv_sec = -1;
        t.ts.tv_nsec = 0;
        e = A(bad_wait(c, m, &t));
        want = EINVAL;
        pfree(m);
        pfree(c);
      }
    }
    if (e != A0_ERR_SYS) fail("C27", "wrong-error", "a call that must fail with %d returned %d", want, (int)e);
    for (int y = r.range(0, 8); y > 0; y--) yield();
    if (r.chance(0.2)) ids();
    int got = syserr(e);
    if (got != want) fail("C27", "wrong-code", "a call failed with %d, the thread's error code is %d", want, got);
    std::string s = A(a0_strerror(e)), t = strerror(want);
    if (s != t) fail("C27", "wrong-text", "error %d is described as '%s'", want, s.c_str());
    mark("codes");
  }
  // What a predicate throws comes out of the wait.
  void thrown() {
    Rng& r = trng();
    std::string text(r.pick({0, 1, 5, 30, 200, 1022, 1023, 1024, 3000}), (char)('a' + r.below(26)));
    std::string want = text.substr(0, 1023), got;
    std::string path = "/sim/th" + std::to_string(thread_tid(cur_thread()));
    bool threw = false;
    a0_err_t e = X([&]() {
      a0::File f(path, cx_file_opts(4096));
      a0::Transport t(f);
      a0::TransportLocked lk = t.lock();
      try {
        lk.wait([&]() -> bool {
          Cb cb;
          if (trng().chance(0.3)) yield();
          throw std::runtime_error(text);
        });
      } catch (const std::exception& x) {
        Cb cb;
        threw = true;
        got = x.what();
      }
    });
    if (e) fail("C27", "wrong-error", "waiting in a channel failed with %d/%d", (int)e, syserr(e));
    if (!threw) fail("C27", "exception-lost", "what the predicate threw did not come out of the wait");
    if (got != want) fail("C27", "wrong-text", "an exception with %zu characters '%.20s' came out with %zu characters: '%.40s'", text.size(), text.c_str(), got.size(), got.c_str());
    mark("thrown");
  }
  bool idle(int) override {
    for (Thread* t : all)
      if (!thread_done(t)) fail("C27", "stuck", "%s is stuck", thread_name(t));
    return false;
  }
};
SCENARIO("th", ThreadScen)
}  // namespace
