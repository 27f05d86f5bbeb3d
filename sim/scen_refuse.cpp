// Writes that cannot be done, through every layer above the channel: C20.
#include <a0/cfg.h>
#include <a0/log.h>
#include <a0/prpc.h>
#include <a0/pubsub.h>
#include <a0/rpc.h>

#include "walk.h"

namespace {

struct RefScen : Scenario {
  enum { PUB, LOG, CFG, RPC, PRPC, NKINDS };
  struct W {
    u64 n = 0;
    std::string data;
    bool bad = false;  // must be refused
    int st = 0;        // 0 started, 1 succeeded, 2 refused
    int answers = 0;
    bool done = false;
    Proc* p = nullptr;
  };
  int kind = 0, nops = 0;
  double p_bad = 0;
  size_t size = 0;
  std::string path;
  u64 next = 1;
  std::map<u64, W> ws;
  std::vector<Thread*> all;
  bool ready = false, finish = false;
  Proc* sproc = nullptr;
  TestAlloc sal;
  a0_rpc_server_t* rs = nullptr;
  a0_prpc_server_t* ps = nullptr;

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.4);
    (void)s;
    cfg.p_syserr = 0;
    cfg.fault_steps = 60000;
    set_generic_props("C20");
    no_locks_after_calls("C20");
    kind = r.range(0, NKINDS - 1);
    size = kind == CFG ? 12288 : 32768;
    nops = r.range(1, 4);
    p_bad = r.pick({0.2, 0.5, 0.9});
    static const char* const names[] = {"pubsub", "log", "cfg", "rpc", "prpc"};
    path = std::string("/dev/shm/alephzero/t.") + names[kind] + ".a0";
    // The first one sets the file up, and serves the calls.
    sproc = new_proc("first");
    sproc->killable = false;
    all.push_back(spawn(sproc, "m", [this]() { first(); }));
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      bool ro = kind <= CFG && r.chance(0.4);
      all.push_back(spawn(new_proc(n), "m", [this, ro]() { user(ro); }));
    }
  }
  a0_file_options_t* opts(bool ro) {
    a0_file_options_t* o = palloc<a0_file_options_t>();
    *o = file_opts(size, ro ? A0_ARENA_MODE_READONLY : A0_ARENA_MODE_SHARED);
    return o;
  }
  W& make(bool bad, bool large) {
    Rng& r = trng();
    W& w = ws[next];
    w.n = next++;
    w.bad = bad;
    w.p = cur_proc();
    size_t n = large ? size - r.below(200) + (kind == CFG ? 0 : r.pick({0, 0, 100, 5000})) : r.pick({1, 20, 60, 150});
    if (kind == CFG) {
      char b[40];
      snprintf(b, sizeof b, "{\"k%llu\":\"", (unsigned long long)w.n);
      w.data = b + std::string(n, 'x') + "\"}";
    } else {
      w.data = payload(w.n, n);
    }
    note("packet %llu: %zu bytes%s", (unsigned long long)w.n, w.data.size(), bad ? ", to be refused" : "");
    return w;
  }
  a0_packet_t pkt(W& w) {
    a0_packet_t p;
    memset(&p, 0, sizeof p);
    TopicModel::id_of(w.n, p.id);
    p.payload.data = (uint8_t*)w.data.data();
    p.payload.size = w.data.size();
    return p;
  }
  void result(W& w, a0_err_t e, const char* how) {
    note("  -> %d/%d", (int)e, syserr(e));
    if (w.bad && !e) fail("C20", "accepted", "%s: packet %llu of %zu bytes cannot be written but success was reported", how, (unsigned long long)w.n, w.data.size());
    if (!w.bad && e) fail("C20", "refused", "%s: packet %llu of %zu bytes was refused: %d/%d", how, (unsigned long long)w.n, w.data.size(), (int)e, syserr(e));
    w.st = e ? 2 : 1;
    mark(e ? "refused" : "written");
  }

  // ----------------------------------------------------------------- serving
  static void on_request(void* ud, a0_rpc_request_t q) {
    Cb cb;
    RefScen* s = (RefScen*)ud;
    Rng& r = trng();
    for (int k = r.chance(s->p_bad) ? r.range(1, 2) : 0; k > 0; k--) {
      W& w = s->make(true, true);
      s->result(w, A(a0_rpc_server_reply(q, s->pkt(w))), "reply");
    }
    W& w = s->make(false, false);
    s->result(w, A(a0_rpc_server_reply(q, s->pkt(w))), "reply");
  }
  static void on_cancel(void*, a0_uuid_t) {}
  static void on_connection(void* ud, a0_prpc_connection_t c) {
    Cb cb;
    RefScen* s = (RefScen*)ud;
    Rng& r = trng();
    for (int k = r.chance(s->p_bad) ? r.range(1, 2) : 0; k > 0; k--) {
      W& w = s->make(true, true);
      s->result(w, A(a0_prpc_server_send(c, s->pkt(w), r.chance(0.5))), "progress");
    }
    W& w = s->make(false, false);
    s->result(w, A(a0_prpc_server_send(c, s->pkt(w), true)), "progress");
  }
  void first() {
    if (kind == RPC) {
      rs = palloc<a0_rpc_server_t>();
      a0_rpc_request_callback_t q{this, on_request};
      a0_packet_id_callback_t c{this, on_cancel};
      if (A(a0_rpc_server_init(rs, (a0_rpc_topic_t{"t", opts(false)}), sal.get(), q, c))) fail("C20", "init-fails", "server init failed");
    } else if (kind == PRPC) {
      ps = palloc<a0_prpc_server_t>();
      a0_prpc_connection_callback_t q{this, on_connection};
      a0_packet_id_callback_t c{this, on_cancel};
      if (A(a0_prpc_server_init(ps, (a0_prpc_topic_t{"t", opts(false)}), sal.get(), q, c))) fail("C20", "init-fails", "server init failed");
    } else {
      work(false, 1, 0);
    }
    ready = true;
    block_forever_until([this]() { return finish; });
    if (rs) A(a0_rpc_server_close(rs));
    if (ps) A(a0_prpc_server_close(ps));
    sal.clear();
  }

  // ------------------------------------------------------------------- users
  void user(bool ro) {
    block_forever_until([this]() { return ready; });
    for (int y = trng().range(0, 10); y > 0; y--) yield();
    work(ro, nops, p_bad);
  }
  static void on_reply(void* ud, a0_packet_t p) {
    Cb cb;
    ((W*)ud)->answers++;
  }
  static void on_progress(void* ud, a0_packet_t p, bool done) {
    Cb cb;
    ((W*)ud)->answers++;
    if (done) ((W*)ud)->done = true;
  }
  void work(bool ro, int n, double pb) {
    Rng& r = trng();
    a0_err_t e = A0_OK;
    TestAlloc* al = new TestAlloc();
    a0_publisher_t* pub = nullptr;
    a0_logger_t* log = nullptr;
    a0_cfg_t* cf = nullptr;
    a0_rpc_client_t* rc = nullptr;
    a0_prpc_client_t* pc = nullptr;
    switch (kind) {
      case PUB: pub = palloc<a0_publisher_t>(); e = A(a0_publisher_init(pub, (a0_pubsub_topic_t{"t", opts(ro)}))); break;
      case LOG: log = palloc<a0_logger_t>(); e = A(a0_logger_init(log, (a0_log_topic_t{"t", opts(ro)}))); break;
      case CFG: cf = palloc<a0_cfg_t>(); e = A(a0_cfg_init(cf, (a0_cfg_topic_t{"t", opts(ro)}))); break;
      case RPC: rc = palloc<a0_rpc_client_t>(); e = A(a0_rpc_client_init(rc, (a0_rpc_topic_t{"t", opts(false)}), al->get())); break;
      default: pc = palloc<a0_prpc_client_t>(); e = A(a0_prpc_client_init(pc, (a0_prpc_topic_t{"t", opts(false)}), al->get())); break;
    }
    if (e) fail("C20", "init-fails", "opening %s failed: %d/%d", path.c_str(), (int)e, syserr(e));
    std::vector<W*> mine;
    for (int k = 0; k < n; k++) {
      for (int y = r.pick({0, 0, 3, 15}); y > 0; y--) yield();
      bool large = r.chance(pb);
      W& w = make(large || ro, large);
      mine.push_back(&w);
      switch (kind) {
        case PUB: result(w, A(a0_publisher_pub(pub, pkt(w))), ro ? "read-only publish" : "publish"); break;
        case LOG: result(w, A(a0_logger_log(log, (a0_log_level_t)r.range(0, 4), pkt(w))), ro ? "read-only log" : "log"); break;
        case CFG: {
          int op = w.bad ? r.range(0, 2) : 0;
          if (op == 0) {
            result(w, A(a0_cfg_write(cf, pkt(w))), ro ? "read-only config write" : "config write");
          } else if (op == 1) {
            bool did = false;
            e = A(a0_cfg_write_if_empty(cf, pkt(w), &did));
            if (!e && did) fail("C20", "accepted", "a conditional config write of %zu bytes reported success", w.data.size());
            w.st = 2;
          } else {
            result(w, A(a0_cfg_mergepatch(cf, pkt(w))), ro ? "read-only config merge" : "config merge");
          }
          if (r.chance(0.3)) {
            a0_packet_t out;
            TestAlloc* ra = new TestAlloc();
            e = A(a0_cfg_read(cf, ra->get(), &out));
            if (e) fail("C20", "read-fails", "reading the config failed: %d/%d", (int)e, syserr(e));
            check(from_pkt(out), "config read");
            ra->clear();
          }
          break;
        }
        case RPC:
          if (w.bad && r.chance(0.5)) {
            a0_packet_t out;
            TestAlloc* ra = new TestAlloc();
            result(w, A(a0_rpc_client_send_blocking(rc, pkt(w), ra->get(), &out)), "blocking call");
            ra->clear();
          } else {
            a0_packet_callback_t cb{&w, on_reply};
            result(w, A(a0_rpc_client_send(rc, pkt(w), cb)), "request");
          }
          break;
        default: {
          a0_prpc_progress_callback_t cb{&w, on_progress};
          result(w, A(a0_prpc_client_connect(pc, pkt(w), cb)), "connect");
        }
      }
    }
    if (rc || pc) block_forever_until([this]() { return finish; });
    if (pub) A(a0_publisher_close(pub));
    if (log) A(a0_logger_close(log));
    if (cf) A(a0_cfg_close(cf));
    if (rc) A(a0_rpc_client_close(rc));
    if (pc) A(a0_prpc_client_close(pc));
    for (W* w : mine)
      if ((rc || pc) && !w->bad && w->answers != 1) fail("C20", "not-answered", "packet %llu got %d answers", (unsigned long long)w->n, w->answers);
    al->clear();
  }
  void check(const Msg& m, const char* how) {
    u64 n = TopicModel::num_of(m.id.c_str());
    auto it = ws.find(n);
    if (it == ws.end()) fail("C20", "invented", "%s: a packet nobody wrote", how);
    W& w = it->second;
    if (w.bad) fail("C20", "refused-visible", "%s: packet %llu can be read although it cannot be written", how, (unsigned long long)n);
    if (m.data != w.data) fail("C20,C01", "altered", "%s: packet %llu has other content", how, (unsigned long long)n);
  }
  bool idle(int stage) override {
    if (stage == 0) {
      // Everything that was written is still there.
      std::vector<unsigned char> b;
      vfs_bytes(vfs_inode(path.c_str()), b);
      std::map<u64, int> have;
      Span sp = walk(b.data(), b.size(), 0, [&](Msg& m) {
        const std::string* ty = m.get("a0_rpc_type");
        if (!ty) ty = m.get("a0_prpc_type");
        if (ty && *ty == "cancel") return;
        check(m, "channel");
        have[TopicModel::num_of(m.id.c_str())]++;
      });
      if (sp.low > 1) fail("C20", "displaced", "messages up to %llu were displaced although the channel has room", (unsigned long long)sp.low - 1);
      for (auto& x : ws)
        if (x.second.st == 1 && !have[x.first]) fail("C20,C01", "written-lost", "packet %llu was written but is not in the channel", (unsigned long long)x.first);
      Proc* p = new_proc("late");
      p->killable = false;
      all.push_back(spawn(p, "m", [this]() { work(false, 1, 0); }));
      state_sig(ws.size() * 1009 + have.size() * 8 + kind);
      return true;
    }
    if (!finish) {
      finish = true;
      return true;
    }
    for (Thread* t : all)
      if (!thread_done(t)) fail("C20", "stuck", "%s does not get on after a refused write", thread_name(t));
    return false;
  }
};
SCENARIO("ref", RefScen)
}  // namespace
