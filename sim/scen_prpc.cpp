// RPC with progress: C13.
#include <a0/prpc.h>
#include <a0/prpc.hpp>

#include "cxx.h"
#include "walk.h"

namespace {

struct PrpcScen : Scenario {
  struct Cli;
  struct Conn {
    u64 n = 0;
    Cli* c = nullptr;
    std::string data;
    u64 t_start = 0, t_sent = 0;
    int ncancel = 0;              // cancellations begun
    bool own_cancel = false;      // one of them by its own client
    u64 cancel_first = 0;
    u64 cancelled = 0;            // when the first one by its own client that began after connect returned itself returned
    std::vector<u64> got;         // progress packets delivered
    u64 last_seq = 0;
    bool done = false;
    int again = 0;                // how often it was made again, with the same id, once it was done
  };
  struct Prog {
    u64 n = 0;
    Conn* q = nullptr;
    std::string data;
    u64 t_start = 0;
    bool done = false;
  };
  struct Cli {
    PrpcScen* S;
    Proc* p = nullptr;
    a0_prpc_client_t* c = nullptr;
    bool cpp = false;             // uses the C++ interface
    a0::PrpcClient* x = nullptr;
    std::vector<Kept> kept;
    TestAlloc al;
    bool open = false, closing = false, closed = false;
    int busy = 0;
    std::vector<Conn*> conns;
  };
  struct Job {
    u64 n;
    int left;
  };
  struct Srv {
    PrpcScen* S;
    Proc* p = nullptr;
    a0_prpc_server_t* s = nullptr;
    bool cpp = false;
    a0::PrpcServer* x = nullptr;
    std::map<u64, a0::PrpcConnection*> held;
    TestAlloc al;
    u64 t_init0 = 0, t_init1 = 0;
    bool closing = false, closed = false;
    int mode = 0;                 // 0 in the handler, 1 from other threads, 2 both
    double p_more = 0, p_never = 0;
    std::map<u64, int> seen, cancels;
    std::vector<Job> queue;
    bool stop = false;
    int workers = 0;
  };
  size_t size = 65536;
  const char* path = "/dev/shm/alephzero/t.prpc.a0";
  u64 next = 1;
  std::map<u64, Conn*> conns;
  std::map<u64, Prog*> progs;
  std::vector<Cli*> clis;
  std::vector<Srv*> srvs;
  std::vector<Thread*> all;
  int nops = 0, restarts = 0, burst = 0;  // burst: connections made at once, to begin with
  double p_cancel = 0, p_nested = 0, p_again = 0;
  bool finish = false;

  void setup() override {
    Rng& r = cfg_rng();
    id_style = r.pick({0, 0, 1, 2});
    swarm(cfg, 0.5);
    thread_faults(cfg);
    cfg.fault_steps = 80000;
    set_generic_props("C13,C08");
    no_locks_after_calls("C13,C20,C03");
    size = r.pick({2000, 4096, 65536, 65536, 65536});
    nops = r.range(1, 4);
    burst = r.chance(0.15) ? r.range(6, 12) : 0;
    if (burst) nops = 1;
    p_cancel = r.pick({0.0, 0.2, 0.4});
    p_nested = r.pick({0.0, 0.0, 0.1});
    p_again = r.pick({0.0, 0.0, 0.5});
    restarts = r.range(0, 2);
    int ns = r.pick({1, 1, 1, 2, 0}), nc = r.range(1, 3);
    for (int i = 0; i < ns; i++) new_server();
    for (int i = 0; i < nc; i++) {
      char n[8];
      snprintf(n, sizeof n, "c%d", i);
      Cli* c = new Cli();
      c->S = this;
      c->p = new_proc(n);
      c->cpp = r.chance(0.3);
      clis.push_back(c);
      int nt = r.range(1, 3);
      all.push_back(spawn(c->p, "c", [this, c, nt]() { client(c, nt); }));
    }
  }
  a0_prpc_topic_t topic() {
    a0_file_options_t* o = palloc<a0_file_options_t>();
    *o = file_opts(size);
    return a0_prpc_topic_t{"t", o};
  }
  bool pristine() const { return size == 65536; }

  // ------------------------------------------------------------------ server
  void new_server() {
    Rng& r = cfg_rng();
    Srv* s = new Srv();
    s->S = this;
    s->p = new_proc("srv");
    s->cpp = r.chance(0.3);
    s->mode = r.range(0, 2);
    s->p_more = r.pick({0.0, 0.0, 0.3});
    s->p_never = r.pick({0.0, 0.2});
    srvs.push_back(s);
    int w = s->mode ? r.range(1, 3) : 0;
    bool closes = r.chance(0.2);
    bool nocancel = r.chance(0.2);
    all.push_back(spawn(s->p, "s", [this, s, w, closes, nocancel]() { server(s, w, closes, nocancel); }));
  }
  static void on_connect(void* ud, a0_prpc_connection_t q) {
    Cb cb;
    Srv* s = (Srv*)ud;
    s->S->connected(s, q);
  }
  static void on_cancel(void* ud, a0_uuid_t id) {
    Cb cb;
    Srv* s = (Srv*)ud;
    s->S->cancelled(s, (const char*)id);
  }
  void server(Srv* s, int w, bool closes, bool nocancel) {
    Rng& r = trng();
    for (int y = r.pick({0, 0, 5, 50}); y > 0; y--) yield();
    a0_err_t e;
    s->t_init0 = lclock();
    if (s->cpp) {
      std::function<void(a0::string_view)> oc;
      if (!nocancel) oc = [this, s](a0::string_view id) {
        Cb cb;
        cancelled(s, id.data());
      };
      e = until_open("C13,C08", [&]() { return X([&]() {
        s->x = new a0::PrpcServer(a0::PrpcTopic("t", cx_file_opts(size)), [this, s](a0::PrpcConnection q) { cx_connected(s, q); }, oc);
      }); });
    } else {
      s->s = palloc<a0_prpc_server_t>();
      a0_prpc_connection_callback_t oq{s, on_connect};
      a0_packet_id_callback_t oc{s, nocancel ? nullptr : on_cancel};
      e = until_open("C13,C08", [&]() { return A(a0_prpc_server_init(s->s, topic(), s->al.get(), oq, oc)); });
    }
    if (e) fail("C13", "init-fails", "server init failed with %d/%d", (int)e, syserr(e));
    s->t_init1 = lclock();
    for (int i = 0; i < w; i++) {
      s->workers++;
      all.push_back(spawn(s->p, "r", [this, s]() { sender(s); }));
    }
    if (nocancel) s->cancels[0] = 1;  // not told
    if (closes) {
      for (int y = r.pick({20, 100, 400}); y > 0; y--) yield();
    } else {
      block_forever_until([this]() { return finish; });
    }
    s->closing = true;
    s->stop = true;
    block_forever_until([s]() { return !s->workers; });
    note("close server");
    if (s->cpp) {
      AV(delete s->x);
      s->closed = true;
      return;
    }
    closed_ok(A(a0_prpc_server_close(s->s)));
    s->closed = true;
    s->al.clear();
    pfree(s->s);
  }
  // Several threads serve the queue, and one connection may be queued more than once.
  void sender(Srv* s) {
    Rng& r = trng();
    while (true) {
      block_forever_until([s]() { return s->stop || !s->queue.empty(); });
      if (s->queue.empty()) break;
      if (r.chance(0.3)) sleep_ns(r.below(500000));
      if (s->queue.empty()) continue;
      size_t i = r.below(s->queue.size());
      Job j = s->queue[i];
      s->queue.erase(s->queue.begin() + i);
      serve(s, j);
    }
    s->workers--;
  }
  void serve(Srv* s, Job j) {
    Rng& r = trng();
    bool never = r.chance(s->p_never);
    for (int k = 0; k < j.left; k++) {
      send(s, j.n, false);
      if (r.chance(0.3)) yield();
    }
    if (!never) send(s, j.n, true);
    if (r.chance(s->p_more)) send(s, j.n, r.chance(0.5));
  }
  Conn& known(const char* id, const char* how) {
    u64 n = TopicModel::num_of(id);
    auto it = conns.find(n);
    if (!n || it == conns.end()) fail("C13", "unknown-connection", "%s: an id no client used", how);
    return *it->second;
  }
  void cx_connected(Srv* s, const a0::PrpcConnection& q) {
    Cb cb;
    u64 n = TopicModel::num_of(q.c->pkt.id);
    if (!s->held.count(n)) {
      Api g;
      s->held[n] = new a0::PrpcConnection(q);
    }
    connected(s, *q.c);
  }
  void connected(Srv* s, a0_prpc_connection_t q) {
    if (s->closed) fail("C08,C13", "callback-after-close", "the connection handler ran after the server was closed");
    Msg m = from_pkt(q.pkt);
    Conn& k = known(m.id.c_str(), "connection handler");
    note("server handles connection %llu", (unsigned long long)k.n);
    if (!s->cpp && q.server != s->s) fail("C13", "wrong-server", "the connection names another server");
    if (m.data != k.data) fail("C13,C01", "request-altered", "connection %llu arrives at the handler with other content", (unsigned long long)k.n);
    if (s->seen[k.n]++ > k.again) fail("C13", "connection-twice", "the server handles connection %llu more often than it was made", (unsigned long long)k.n);
    if (k.t_sent && k.t_sent < s->t_init0) fail("C13", "old-connection", "the server handles connection %llu made before it was started", (unsigned long long)k.n);
    mark("connection_handled");
    Rng& r = trng();
    if (!s->cpp && r.chance(0.02)) refused_close(A(a0_prpc_server_close(s->s)));
    int jobs = s->mode ? r.range(1, 2) : 1;
    for (int i = 0; i < jobs; i++) {
      Job j{k.n, r.range(0, 4)};
      if (s->mode == 0 || (s->mode == 2 && r.chance(0.3)))
        serve(s, j);
      else
        s->queue.push_back(j);
    }
  }
  void cancelled(Srv* s, const char* id) {
    if (s->closed) fail("C08,C13", "callback-after-close", "the cancel handler ran after the server was closed");
    std::string i(id, strnlen(id, sizeof(a0_uuid_t)));
    Conn& k = known(i.c_str(), "cancel handler");
    if (++s->cancels[k.n] > k.ncancel) fail("C13", "cancel-invented", "the server is told %d times that connection %llu was cancelled, it was cancelled %d times", s->cancels[k.n], (unsigned long long)k.n, k.ncancel);
    mark("cancel_handled");
  }
  void send(Srv* s, u64 n, bool done) {
    Rng& r = trng();
    Conn& k = *conns[n];
    Prog* y = new Prog();
    y->n = next++;
    y->q = &k;
    y->done = done;
    y->data = payload(y->n, r.pick({0, 1, 9, 60, 200}));
    progs[y->n] = y;
    a0_packet_t p, qp;
    memset(&p, 0, sizeof p);
    memset(&qp, 0, sizeof qp);
    TopicModel::id_of(y->n, p.id);
    TopicModel::id_of(n, qp.id);
    p.payload.data = (uint8_t*)y->data.data();
    p.payload.size = y->data.size();
    y->t_start = lclock();
    note("progress %llu for connection %llu%s", (unsigned long long)y->n, (unsigned long long)n, done ? ", done" : "");
    a0_err_t e;
    if (s->cpp) {
      a0::PrpcConnection* h = s->held[n];
      Msg m = from_pkt(h->c->pkt);
      if (m.data != k.data || m.id != qp.id) fail("C13", "request-altered", "connection %llu, kept by the server, has other content now", (unsigned long long)n);
      e = X([&]() { h->send(a0::Packet(p, nullptr), done); });
    } else {
      e = A(a0_prpc_server_send((a0_prpc_connection_t{s->s, qp}), p, done));
    }
    if (e) fail("C13", "send-fails", "progress failed with %d/%d", (int)e, syserr(e));
    note("  sent");
  }

  // ------------------------------------------------------------------ client
  static void on_progress(void* ud, a0_packet_t p, bool done) {
    Cb cb;
    Conn* q = (Conn*)ud;
    q->c->S->progress(q, p, done);
    if (trng().chance(0.02)) refused_close(A(a0_prpc_client_close(q->c->c)));
  }
  void progress(Conn* q, a0_packet_t p, bool done) {
    Msg m = from_pkt(p);
    u64 n = TopicModel::num_of(m.id.c_str());
    note("connection %llu gets progress %llu%s", (unsigned long long)q->n, (unsigned long long)n, done ? ", done" : "");
    if (q->c->closed) fail("C08,C13", "callback-after-close", "a progress callback ran after the client was closed");
    auto it = progs.find(n);
    if (!n || it == progs.end()) fail("C13", "not-progress", "connection %llu gets a packet no server sent as progress", (unsigned long long)q->n);
    Prog* y = it->second;
    if (y->q != q) fail("C13", "wrong-connection", "connection %llu gets the progress of connection %llu", (unsigned long long)q->n, (unsigned long long)y->q->n);
    if (m.data != y->data) fail("C13,C01", "progress-altered", "connection %llu: progress arrives with other content", (unsigned long long)q->n);
    if (y->done != done) fail("C13", "done-flag", "connection %llu: packet sent with done=%d arrives with done=%d", (unsigned long long)q->n, y->done, done);
    if (q->done) fail("C13", "after-done", "connection %llu gets something after its done packet", (unsigned long long)q->n);
    for (u64 g : q->got)
      if (g == n) fail("C13", "progress-twice", "connection %llu gets progress %llu twice", (unsigned long long)q->n, (unsigned long long)n);
    const std::string* ts = m.get("a0_transport_seq");
    u64 sq = ts ? strtoull(ts->c_str(), nullptr, 10) + 1 : 0;
    if (ts && sq <= q->last_seq) fail("C13", "out-of-order", "connection %llu gets progress out of order", (unsigned long long)q->n);
    q->last_seq = sq;
    if (q->cancelled && q->cancelled < y->t_start) fail("C13", "after-cancel", "connection %llu gets progress sent after it was cancelled", (unsigned long long)q->n);
    q->got.push_back(n);
    q->done = done;
    mark(done ? "done" : "progress");
    if (q->c->cpp && q->c->closing) return;  // an object being destroyed is not used any more
    if (done && q->again < 2 && p_again > 0 && trng().chance(p_again)) {
      q->c->busy += q->c->cpp;
      q->again++;
      q->done = false;
      q->t_sent = q->cancelled = 0;
      mark("connected_again");
      connect(q->c, q);
      q->c->busy -= q->c->cpp;
      return;
    }
    if (p_nested > 0 && q->c->conns.size() < 8 && trng().chance(p_nested)) {
      q->c->busy += q->c->cpp;
      if (trng().chance(0.5))
        connect(q->c);
      else
        cancel(q->c, q);
      q->c->busy -= q->c->cpp;
    }
  }
  void client(Cli* c, int nt) {
    Rng& r = trng();
    for (int y = r.pick({0, 0, 5, 50}); y > 0; y--) yield();
    a0_err_t e;
    if (c->cpp) {
      e = until_open("C13,C08", [&]() { return X([&]() { c->x = new a0::PrpcClient(a0::PrpcTopic("t", cx_file_opts(size))); }); });
    } else {
      c->c = palloc<a0_prpc_client_t>();
      e = until_open("C13,C08", [&]() { return A(a0_prpc_client_init(c->c, topic(), c->al.get())); });
    }
    if (e) fail("C13", "init-fails", "client init failed with %d/%d", (int)e, syserr(e));
    c->open = true;
    for (int i = 1; i < nt; i++) {
      c->busy++;
      all.push_back(spawn(c->p, "t", [this, c]() {
        work(c);
        c->busy--;
      }));
    }
    work(c);
    if (r.chance(0.8)) block_forever_until([this]() { return finish; });
    block_forever_until([c]() { return !c->busy; });
    c->closing = true;
    note("close client");
    if (c->cpp) {
      check_kept(c);
      AV(delete c->x);
      c->closed = true;
      check_kept(c);
      return;
    }
    closed_ok(A(a0_prpc_client_close(c->c)));
    c->closed = true;
    c->al.clear();
    pfree(c->c);
  }
  void check_kept(Cli* c) {
    for (Kept& k : c->kept)
      if (!k.intact()) fail("C13", "kept-progress-altered", "a progress packet the program has kept has other content now");
  }
  void work(Cli* c) {
    Rng& r = trng();
    while (burst > 0) {
      burst--;
      connect(c);
      if (r.chance(p_cancel / 2)) cancel(c, c->conns[r.below(c->conns.size())]);
    }
    for (int k = 0; k < nops; k++) {
      for (int y = r.pick({0, 1, 4, 20, 60}); y > 0; y--) yield();
      if (r.chance(p_cancel)) {
        // own, or somebody else's
        Cli* o = r.chance(0.6) ? c : clis[r.below(clis.size())];
        if (!o->conns.empty()) cancel(c, o->conns[r.below(o->conns.size())]);
        continue;
      }
      connect(c);
    }
  }
  void connect(Cli* c) {
    Rng& r = trng();
    Conn* q = new Conn();
    q->n = next++;
    q->c = c;
    q->data = payload(q->n, r.pick({0, 1, 9, 60, 200}));
    conns[q->n] = q;
    c->conns.push_back(q);
    q->t_start = lclock();
    connect(c, q);
  }
  void connect(Cli* c, Conn* q) {
    a0_packet_t p;
    memset(&p, 0, sizeof p);
    TopicModel::id_of(q->n, p.id);
    p.payload.data = (uint8_t*)q->data.data();
    p.payload.size = q->data.size();
    note("connect %llu", (unsigned long long)q->n);
    a0_prpc_progress_callback_t cb{q, on_progress};
    a0_err_t e;
    if (c->cpp)
      e = X([&]() {
        c->x->connect(a0::Packet(p, nullptr), [this, q](a0::Packet y, bool done) {
          Cb cb;
          q->c->kept.push_back(Kept(y));
          progress(q, *y.c, done);
        });
      });
    else
      e = A(a0_prpc_client_connect(c->c, p, cb));
    if (e) fail("C13", "connect-fails", "connect failed with %d/%d", (int)e, syserr(e));
    q->t_sent = lclock();
    note("  connected");
  }
  void cancel(Cli* c, Conn* q) {
    a0_uuid_t id;
    TopicModel::id_of(q->n, id);
    note("cancel connection %llu", (unsigned long long)q->n);
    bool after = q->t_sent != 0 && q->c == c;
    int again = q->again;
    q->ncancel++;
    if (q->c == c) q->own_cancel = true;
    if (!q->cancel_first) q->cancel_first = lclock();
    a0_err_t e = c->cpp ? X([&]() { c->x->cancel(a0::string_view(id)); }) : A(a0_prpc_client_cancel(c->c, id));
    if (e) fail("C13", "cancel-fails", "cancel failed with %d/%d", (int)e, syserr(e));
    if (after && !q->cancelled && q->again == again) q->cancelled = lclock();
    note("  cancelled");
  }
  bool live(Cli* c) { return c->open && !c->closed && !c->p->dead && !c->p->dying; }
  void proc_dead(Proc* p) override {
    for (Srv* s : srvs)
      if (s->p == p && restarts > 0 && p->killed) {
        restarts--;
        count_fault(F_RESTART);
        new_server();
        break;
      }
  }

  // ------------------------------------------------------------------- rest
  bool idle(int stage) override {
    if (stage == 0) {
      settle();
      finish = true;
      return true;
    }
    for (Thread* t : all)
      if (!thread_done(t)) fail("C13,C08", "stuck", "closing a client or server does not return");
    return false;
  }
  void settle() {
    if (!pristine() || !vfs_exists(path)) return;
    std::vector<unsigned char> b;
    vfs_bytes(vfs_inode(path), b);
    if (b.size() != size) return;
    std::map<u64, int> committed, cancels;
    std::map<u64, std::vector<u64>> sent;
    Span sp = walk(b.data(), b.size(), 0, [&](Msg& m) {
      const std::string* ty = m.get("a0_prpc_type");
      if (!ty) return;
      note("channel %llu: %s %s", (unsigned long long)m.seq, ty->c_str(), m.id.c_str());
      const std::string* id = *ty == "connect" ? &m.id : m.get("a0_conn_id");
      u64 n = id ? TopicModel::num_of(id->c_str()) : 0;
      if (*ty == "connect")
        committed[n]++;
      else if (*ty == "cancel")
        cancels[n]++;
      else
        sent[n].push_back(TopicModel::num_of(m.id.c_str()));
    });
    if (sp.low > 1) return;
    mark("complete_history");
    for (Srv* s : srvs) {
      if (!s->t_init1 || s->closing || s->p->dead || s->p->dying) continue;
      for (auto& x : committed) {
        Conn* q = conns[x.first];
        if (q->t_start > s->t_init1 && s->seen[x.first] != x.second)
          fail("C13,C06,C07", "connection-lost", "connection %llu was made %d times while the server was running, the handler saw it %d times", (unsigned long long)x.first, x.second, s->seen[x.first]);
      }
      if (!s->cancels[0])
        for (auto& x : cancels) {
          Conn* q = conns[x.first];
          if (q && q->cancel_first > s->t_init1 && s->cancels[x.first] != x.second)
            fail("C13,C06,C07", "cancel-lost", "connection %llu was cancelled %d times while the server was running, the handler was told %d times", (unsigned long long)x.first, x.second, s->cancels[x.first]);
        }
    }
    for (Cli* c : clis)
      for (Conn* q : c->conns) {
        std::vector<u64>& v = sent[q->n];
        size_t want = 0;
        int dones = 0;
        while (want < v.size() && dones <= q->again) {
          dones += progs.count(v[want]) && progs[v[want]]->done;
          want++;
        }
        for (size_t i = 0; i < q->got.size(); i++)
          if (i >= want || q->got[i] != v[i]) fail("C13", "wrong-progress", "connection %llu: delivery %zu is not what was sent", (unsigned long long)q->n, i);
        if (live(c) && !q->own_cancel && q->got.size() != want)
          fail("C13,C06,C07", "progress-lost", "connection %llu got %zu of %zu progress packets", (unsigned long long)q->n, q->got.size(), want);
      }
    state_sig(conns.size() * 1000003 + progs.size() * 1009 + srvs.size());
  }
};
SCENARIO("prpc", PrpcScen)
}  // namespace
