// Logging: C16.
#include <a0/log.h>
#include <a0/log.hpp>

#include "cxx.h"
#include "walk.h"

namespace {

struct LogScen : Scenario {
  struct Ent {
    u64 n = 0;
    int level = 0;                // 6: written past the logger, without a level
    std::string data;
    u64 t_start = 0, t_done = 0;
  };
  struct Lis {
    LogScen* S;
    Proc* p;
    a0_log_listener_t* q = nullptr;
    TestAlloc al;
    int level = 0;
    bool cpp = false;             // uses the C++ interface
    std::vector<Kept> kept;
    a0_reader_options_t o;
    u64 t_init0 = 0, t_init1 = 0, t_close = 0;
    bool closed = false;
    std::vector<u64> got;
    u64 last = 0;
  };
  size_t size = 0;
  const char* path = "/dev/shm/alephzero/t.log.a0";
  u64 next = 1;
  std::map<u64, Ent*> ents;
  std::vector<Lis*> ls;
  std::vector<Thread*> all;
  int nops = 0, restarts = 0;
  bool finish = false;

  void setup() override {
    Rng& r = cfg_rng();
    swarm(cfg, 0.6);
    thread_faults(cfg);
    cfg.fault_steps = 80000;
    set_generic_props("C16,C08");
    no_locks_after_calls("C16,C20,C03");
    size = r.pick({1500, 4096, 65536, 65536, 65536});
    nops = r.range(1, 10);
    restarts = r.range(0, 2);
    int np = r.range(1, 3), nl = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* p = new_proc(n);
      int nt = r.range(1, 2);
      all.push_back(spawn(p, "l", [this, nt]() { logger(nt); }));
    }
    for (int i = 0; i < nl; i++) new_listener();
  }
  void new_listener() {
    Rng& r = cfg_rng();
    Lis* l = new Lis();
    l->S = this;
    l->p = new_proc("w");
    l->level = r.chance(0.1) ? 5 : r.range(0, 4);
    l->cpp = r.chance(0.3);
    l->o.init = r.pick({A0_INIT_OLDEST, A0_INIT_AWAIT_NEW, A0_INIT_AWAIT_NEW, A0_INIT_MOST_RECENT});
    l->o.iter = r.chance(0.75) ? A0_ITER_NEXT : A0_ITER_NEWEST;
    ls.push_back(l);
    all.push_back(spawn(l->p, "w", [this, l]() { listener(l); }));
  }
  a0_log_topic_t topic() {
    a0_file_options_t* o = palloc<a0_file_options_t>();
    *o = file_opts(size);
    return a0_log_topic_t{"t", o};
  }
  struct H {
    a0_logger_t* l;
    a0::Logger* x = nullptr;
    int busy = 0;
  };
  void logger(int nt) {
    H* h = new H();
    a0_err_t e;
    if (trng().chance(0.3)) {
      e = X([&]() { h->x = new a0::Logger(a0::LogTopic("t", cx_file_opts(size))); });
    } else {
      h->l = palloc<a0_logger_t>();
      e = A(a0_logger_init(h->l, topic()));
    }
    if (e) fail("C16", "init-fails", "logger init failed with %d/%d", (int)e, syserr(e));
    for (int i = 1; i < nt; i++) {
      h->busy++;
      all.push_back(spawn(cur_proc(), "t", [this, h]() {
        work(h);
        h->busy--;
      }));
    }
    work(h);
    block_forever_until([h]() { return !h->busy; });
    if (h->x) {
      AV(delete h->x);
      return;
    }
    A(a0_logger_close(h->l));
    pfree(h->l);
  }
  void work(H* h) {
    a0_logger_t* l = h->l;
    Rng& r = trng();
    a0_file_t f;
    memset(&f, 0, sizeof f);
    for (int k = 0; k < nops; k++) {
      for (int y = r.pick({0, 0, 1, 4, 20}); y > 0; y--) yield();
      Ent* x = new Ent();
      x->n = next++;
      x->level = r.chance(0.06) ? r.range(5, 6) : r.range(0, 4);
      x->data = payload(x->n, r.pick({0, 1, 9, 60, 200}));
      ents[x->n] = x;
      a0_packet_t p;
      memset(&p, 0, sizeof p);
      TopicModel::id_of(x->n, p.id);
      p.payload.data = (uint8_t*)x->data.data();
      p.payload.size = x->data.size();
      x->t_start = lclock();
      note("log %llu at level %d", (unsigned long long)x->n, x->level);
      a0_err_t e = A0_OK;
      bool named = r.chance(0.5);
      if (x->level == 6) {
        a0_writer_t* w = palloc<a0_writer_t>();
        if (!f.arena.buf.data) f = open_file(path, size);
        A(a0_writer_init(w, f.arena));
        A(a0_writer_push(w, a0_add_standard_headers()));
        e = A(a0_writer_write(w, p));
        A(a0_writer_close(w));
        pfree(w);
      } else if (h->x) {
        e = X([&]() {
          a0::Packet q(p, nullptr);
          switch (named ? x->level : -1) {
            case 0: h->x->crit(q); break;
            case 1: h->x->err(q); break;
            case 2: h->x->warn(q); break;
            case 3: h->x->info(q); break;
            case 4: h->x->dbg(q); break;
            default: h->x->log((a0::LogLevel)x->level, q); break;
          }
        });
      } else if (named && x->level == 0) {
        e = A(a0_logger_crit(l, p));
      } else if (named && x->level == 1) {
        e = A(a0_logger_err(l, p));
      } else if (named && x->level == 2) {
        e = A(a0_logger_warn(l, p));
      } else if (named && x->level == 3) {
        e = A(a0_logger_info(l, p));
      } else if (named && x->level == 4) {
        e = A(a0_logger_dbg(l, p));
      } else {
        e = A(a0_logger_log(l, (a0_log_level_t)x->level, p));
      }
      if (e) fail("C16", "log-fails", "logging failed with %d/%d", (int)e, syserr(e));
      x->t_done = lclock();
    }
    if (f.arena.buf.data) A(a0_file_close(&f));
  }
  static void on_entry(void* ud, a0_packet_t p) {
    Cb cb;
    Lis* l = (Lis*)ud;
    l->S->entry(l, p);
    if (trng().chance(0.02)) refused_close(A(a0_log_listener_close(l->q)));
  }
  void entry(Lis* l, a0_packet_t p) {
    Msg m = from_pkt(p);
    u64 n = TopicModel::num_of(m.id.c_str());
    note("listener at level %d gets %llu", l->level, (unsigned long long)n);
    if (l->closed) fail("C08,C16", "callback-after-close", "a listener was called after it was closed");
    if (!n || !ents.count(n)) fail("C16,C06", "invented-entry", "a listener got an entry nobody logged");
    Ent* x = ents[n];
    if (m.data != x->data) fail("C16,C06", "entry-altered", "a listener got an entry with other content");
    if (x->level > l->level) fail("C16", "below-threshold", "a listener at level %d got an entry of level %d", l->level, x->level);
    const std::string* lv = m.get("a0_log_level");
    const char* names[] = {"CRIT", "ERR", "WARN", "INFO", "DBG", "UNKNOWN"};
    if (!lv || *lv != names[x->level]) fail("C16", "level-altered", "an entry of level %d arrives as %s", x->level, lv ? lv->c_str() : "nothing");
    const std::string* ts = m.get("a0_transport_seq");
    u64 sq = ts ? strtoull(ts->c_str(), nullptr, 10) + 1 : 0;
    if (ts && sq <= l->last) fail("C16,C06", "out-of-order", "a listener got entry %llu after %llu", (unsigned long long)sq, (unsigned long long)l->last);
    l->last = sq;
    if (l->o.init == A0_INIT_AWAIT_NEW && x->t_done && x->t_done < l->t_init0) fail("C16,C06", "old-entry", "a listener that wants new entries got one logged before it started");
    l->got.push_back(n);
    mark("entry_delivered");
    if (trng().chance(0.1)) sleep_ns(trng().below(200000));
  }
  void listener(Lis* l) {
    Rng& r = trng();
    for (int y = r.pick({0, 0, 20, 200}); y > 0; y--) yield();
    if (l->cpp) return cx_listener(l);
    a0_log_listener_t* q = l->q = palloc<a0_log_listener_t>();
    a0_packet_callback_t cb{l, on_entry};
    l->t_init0 = lclock();
    a0_err_t e = until_open("C16,C08", [&]() { return A(a0_log_listener_init(q, topic(), l->al.get(), (a0_log_level_t)l->level, l->o, cb)); });
    if (e) fail("C16", "init-fails", "listener init failed with %d/%d", (int)e, syserr(e));
    l->t_init1 = lclock();
    if (r.chance(0.85)) block_forever_until([this]() { return finish; });
    closed_ok(A(a0_log_listener_close(q)));
    l->closed = true;
    l->al.clear();
    pfree(q);
  }
  void cx_listener(Lis* l) {
    a0::LogListener* q = nullptr;
    auto fn = [this, l](a0::Packet p) {
      Cb cb;
      l->kept.push_back(Kept(p));
      entry(l, *p.c);
    };
    l->t_init0 = lclock();
    a0_err_t e = until_open("C16,C08", [&]() { return X([&]() {
      q = new a0::LogListener(a0::LogTopic("t", cx_file_opts(size)), (a0::LogLevel)l->level, cx_reader_opts(l->o), fn);
    }); });
    if (e) fail("C16", "init-fails", "listener init failed with %d/%d", (int)e, syserr(e));
    l->t_init1 = lclock();
    if (trng().chance(0.85)) block_forever_until([this]() { return finish; });
    AV(delete q);
    l->closed = true;
    for (Kept& k : l->kept)
      if (!k.intact()) fail("C16", "kept-entry-altered", "an entry the program has kept has other content now");
  }
  void proc_dead(Proc* p) override {
    for (Lis* l : ls)
      if (l->p == p && restarts > 0 && p->killed) {
        restarts--;
        count_fault(F_RESTART);
        new_listener();
        break;
      }
  }
  bool idle(int stage) override {
    if (stage == 0) {
      settle();
      finish = true;
      return true;
    }
    for (Thread* t : all)
      if (!thread_done(t)) fail("C16,C08", "stuck", "logging or closing does not return");
    return false;
  }
  void settle() {
    if (!vfs_exists(path)) return;
    std::vector<unsigned char> b;
    vfs_bytes(vfs_inode(path), b);
    if (b.size() != size) return;
    std::vector<u64> chan;
    Span sp = walk(b.data(), b.size(), 0, [&](Msg& m) { chan.push_back(TopicModel::num_of(m.id.c_str())); });
    if (sp.empty()) return;
    if (sp.low <= 1) mark("complete_history");
    for (Lis* l : ls) {
      if (!l->t_init1) continue;
      bool live = !l->closed && !l->p->dead && !l->p->dying;
      // the newest entry it wants, if that is also the newest of all
      if (live) {
        Ent* x = ents[chan.back()];
        bool due = l->o.init != A0_INIT_AWAIT_NEW || x->t_start > l->t_init1;
        if (due && x->level <= l->level && (l->got.empty() || l->got.back() != x->n))
          fail("C16,C06,C07", "entry-lost", "the last entry did not reach a listener at level %d", l->level);
      }
      if (sp.low > 1 || l->o.iter != A0_ITER_NEXT) continue;
      // what it got must be a run of the entries it wants, and complete at both ends
      std::vector<u64> want;
      for (u64 n : chan)
        if (ents[n]->level <= l->level) want.push_back(n);
      size_t i = 0;
      if (!l->got.empty()) {
        while (i < want.size() && want[i] != l->got[0]) i++;
        for (size_t k = 0; k < l->got.size(); k++)
          if (i + k >= want.size() || want[i + k] != l->got[k]) fail("C16,C06", "entry-lost", "a listener at level %d missed an entry between two it got", l->level);
      } else {
        i = want.size();
      }
      for (size_t k = 0; k < i && live; k++)
        if (l->o.init == A0_INIT_OLDEST || ents[want[k]]->t_start > l->t_init1)
          fail("C16,C06", "entry-lost", "entry %llu did not reach a listener at level %d that was there", (unsigned long long)want[k], l->level);
      if (live && !l->got.empty() && i + l->got.size() != want.size()) fail("C16,C06,C07", "entry-lost", "the last entries did not reach a listener at level %d", l->level);
      mark("listener_complete");
    }
    state_sig(chan.size() * 1009 + ls.size() * 31 + ls[0]->got.size());
  }
};
SCENARIO("log", LogScen)
}  // namespace
