// RPC: C12 (and C09 for timed calls).
#include <a0/rpc.h>
#include <a0/rpc.hpp>

#include "cxx.h"
#include "walk.h"

namespace {

struct RpcScen : Scenario {
  enum { ASYNC, NOCB, BLOCK, TIMED };
  struct Cli;
  struct Srv;
  struct Req {
    u64 n = 0;
    Cli* c = nullptr;
    int kind = 0, nuser = 0;
    std::string data;
    u64 t_start = 0, t_sent = 0;
    int ncancel = 0;              // cancellations begun
    u64 cancel_first = 0;         // when the first one began
    u64 cancelled = 0;            // when the first one that began after the request was sent returned
    int ran = 0;                  // callbacks run
    int sends = 1;                // times it was sent
    bool returned = false, ok = false, dead = false;
    std::vector<u64> replies;
  };
  struct Reply {
    u64 n = 0;
    Req* q = nullptr;
    std::string data;
    u64 t_start = 0;
    bool failed = false;
  };
  struct Cli {
    RpcScen* S;
    Proc* p = nullptr;
    a0_rpc_client_t* c = nullptr;
    bool cpp = false;             // uses the C++ interface
    a0::RpcClient* x = nullptr;
    std::vector<Kept> kept;
    std::vector<std::pair<Req*, std::future<a0::Packet>*>> futs;
    TestAlloc al;
    bool open = false, closing = false, closed = false;
    int busy = 0;
    std::vector<Req*> reqs;
  };
  struct Srv {
    RpcScen* S;
    Proc* p = nullptr;
    a0_rpc_server_t* s = nullptr;
    bool cpp = false;
    a0::RpcServer* x = nullptr;
    std::map<u64, a0::RpcRequest*> held;
    TestAlloc al;
    u64 t_init0 = 0, t_init1 = 0;
    bool closing = false, closed = false;
    int mode = 0;                 // 0 in the handler, 1 from other threads, 2 both
    double p_reply = 1, p_twice = 0;
    std::map<u64, int> seen, cancels;
    std::vector<u64> queue;       // request numbers to be answered by other threads
    bool stop = false;
    int workers = 0;
  };
  size_t size = 65536;
  const char* path = "/dev/shm/alephzero/t.rpc.a0";
  u64 next = 1;
  std::map<u64, Req*> reqs;
  std::map<u64, Reply*> replies;
  std::vector<Cli*> clis;
  std::vector<Srv*> srvs;
  std::vector<Thread*> all;
  int nops = 0, restarts = 0, burst = 0;  // burst: requests made at once, to begin with
  double p_cancel = 0, p_nested = 0, p_resend = 0;
  bool finish = false;
  a0_file_options_t opts;

  void setup() override {
    Rng& r = cfg_rng();
    id_style = r.pick({0, 0, 1, 2});
    swarm(cfg, 0.5);
    thread_faults(cfg);
    cfg.fault_steps = 80000;
    set_generic_props("C12,C08,C09");
    no_locks_after_calls("C12,C20,C03");
    size = r.pick({2000, 4096, 65536, 65536, 65536});
    nops = r.range(1, 6);
    p_cancel = r.pick({0.0, 0.1, 0.3});
    p_nested = r.pick({0.0, 0.0, 0.2});
    p_resend = r.pick({0.0, 0.0, 0.3});
    restarts = r.range(0, 2);
    burst = r.chance(0.15) ? r.range(6, 24) : 0;
    if (burst) nops = 1;
    int ns = r.pick({1, 1, 1, 2, 0}), nc = r.range(1, 3);
    for (int i = 0; i < ns; i++) new_server();
    for (int i = 0; i < nc; i++) {
      char n[8];
      snprintf(n, sizeof n, "c%d", i);
      Cli* c = new Cli();
      c->S = this;
      c->p = new_proc(n);
      c->cpp = r.chance(0.3);
      clis.push_back(c);
      int nt = r.range(1, 3);
      all.push_back(spawn(c->p, "c", [this, c, nt]() { client(c, nt); }));
    }
  }
  a0_rpc_topic_t topic() {
    a0_file_options_t* o = palloc<a0_file_options_t>();
    *o = file_opts(size);
    return a0_rpc_topic_t{"t", o};
  }
  bool pristine() const { return size == 65536; }

  // ------------------------------------------------------------------ server
  void new_server() {
    Rng& r = cfg_rng();
    Srv* s = new Srv();
    s->S = this;
    s->p = new_proc("srv");
    s->cpp = r.chance(0.3);
    s->mode = r.range(0, 2);
    s->p_reply = r.pick({1.0, 1.0, 0.7});
    s->p_twice = r.pick({0.0, 0.0, 0.2});
    srvs.push_back(s);
    int w = s->mode ? r.range(1, 2) : 0;
    bool closes = r.chance(0.2);
    bool nocancel = r.chance(0.2);
    all.push_back(spawn(s->p, "s", [this, s, w, closes, nocancel]() { server(s, w, closes, nocancel); }));
  }
  static void on_request(void* ud, a0_rpc_request_t q) {
    Cb cb;
    Srv* s = (Srv*)ud;
    s->S->request(s, q);
  }
  static void on_cancel(void* ud, a0_uuid_t id) {
    Cb cb;
    Srv* s = (Srv*)ud;
    s->S->cancelled(s, (const char*)id);
  }
  void server(Srv* s, int w, bool closes, bool nocancel) {
    Rng& r = trng();
    for (int y = r.pick({0, 0, 5, 50}); y > 0; y--) yield();
    a0_err_t e;
    s->t_init0 = lclock();
    if (s->cpp) {
      std::function<void(a0::string_view)> oc;
      if (!nocancel) oc = [this, s](a0::string_view id) {
        Cb cb;
        cancelled(s, id.data());
      };
      e = until_open("C12,C08", [&]() { return X([&]() {
        s->x = new a0::RpcServer(a0::RpcTopic("t", cx_file_opts(size)), [this, s](a0::RpcRequest q) { cx_request(s, q); }, oc);
      }); });
    } else {
      s->s = palloc<a0_rpc_server_t>();
      a0_rpc_request_callback_t oq{s, on_request};
      a0_packet_id_callback_t oc{s, nocancel ? nullptr : on_cancel};
      e = until_open("C12,C08", [&]() { return A(a0_rpc_server_init(s->s, topic(), s->al.get(), oq, oc)); });
    }
    if (e) fail("C12", "init-fails", "server init failed with %d/%d", (int)e, syserr(e));
    s->t_init1 = lclock();
    for (int i = 0; i < w; i++) {
      s->workers++;
      all.push_back(spawn(s->p, "r", [this, s]() { replier(s); }));
    }
    if (nocancel) s->cancels[0] = 1;  // not told
    if (closes) {
      for (int y = r.pick({20, 100, 400}); y > 0; y--) yield();
    } else {
      block_forever_until([this]() { return finish; });
    }
    s->closing = true;
    s->stop = true;
    block_forever_until([s]() { return !s->workers; });
    note("close server");
    if (s->cpp) {
      AV(delete s->x);
      s->closed = true;
      return;
    }
    closed_ok(A(a0_rpc_server_close(s->s)));
    s->closed = true;
    s->al.clear();
    pfree(s->s);
  }
  void replier(Srv* s) {
    Rng& r = trng();
    while (true) {
      block_forever_until([s]() { return s->stop || !s->queue.empty(); });
      if (s->queue.empty()) break;
      if (r.chance(0.3)) sleep_ns(r.below(500000));
      if (s->queue.empty()) continue;
      size_t i = r.below(s->queue.size());
      u64 n = s->queue[i];
      s->queue.erase(s->queue.begin() + i);
      reply(s, n);
    }
    s->workers--;
  }
  Req& known(const char* id, const char* how) {
    u64 n = TopicModel::num_of(id);
    auto it = reqs.find(n);
    if (!n || it == reqs.end()) fail("C12", "unknown-request", "%s: an id no client used", how);
    return *it->second;
  }
  static bool user_ok(const Msg& m, int nuser) {
    int n = 0;
    for (auto& h : m.hdrs)
      if (!h.first.compare(0, 2, "ux")) {
        if (h.second != (n ? "second" : "first")) return false;
        n++;
      }
    return n == nuser;
  }
  void cx_request(Srv* s, const a0::RpcRequest& q) {
    Cb cb;
    u64 n = TopicModel::num_of(q.c->pkt.id);
    if (!s->held.count(n)) {
      Api g;
      s->held[n] = new a0::RpcRequest(q);
    }
    request(s, *q.c);
  }
  void request(Srv* s, a0_rpc_request_t q) {
    if (s->closed) fail("C08,C12", "callback-after-close", "the request handler ran after the server was closed");
    Msg m = from_pkt(q.pkt);
    Req& k = known(m.id.c_str(), "request handler");
    note("server handles request %llu", (unsigned long long)k.n);
    if (!s->cpp && q.server != s->s) fail("C12", "wrong-server", "the request names another server");
    if (m.data != k.data || !user_ok(m, k.nuser)) fail("C12,C01", "request-altered", "request %llu arrives at the handler with other content", (unsigned long long)k.n);
    if (s->seen[k.n]++ >= k.sends) fail("C12", "request-twice", "the server handles request %llu more often than it was sent", (unsigned long long)k.n);
    if (k.t_sent && k.t_sent < s->t_init0) fail("C12", "old-request", "the server handles request %llu sent before it was started", (unsigned long long)k.n);
    mark("request_handled");
    Rng& r = trng();
    if (!s->cpp && r.chance(0.02)) refused_close(A(a0_rpc_server_close(s->s)));
    if (!r.chance(s->p_reply)) return;
    int times = r.chance(s->p_twice) ? 2 : 1;
    for (int i = 0; i < times; i++) {
      if (s->mode == 0 || (s->mode == 2 && r.chance(0.5)))
        reply(s, k.n);
      else
        s->queue.push_back(k.n);
    }
  }
  void cancelled(Srv* s, const char* id) {
    if (s->closed) fail("C08,C12", "callback-after-close", "the cancel handler ran after the server was closed");
    std::string i(id, strnlen(id, sizeof(a0_uuid_t)));
    Req& k = known(i.c_str(), "cancel handler");
    if (++s->cancels[k.n] > k.ncancel) fail("C12", "cancel-invented", "the server is told %d times that request %llu was cancelled, it was cancelled %d times", s->cancels[k.n], (unsigned long long)k.n, k.ncancel);
    mark("cancel_handled");
  }
  void reply(Srv* s, u64 n) {
    Rng& r = trng();
    Req& k = *reqs[n];
    Reply* y = new Reply();
    y->n = next++;
    y->q = &k;
    y->data = payload(y->n, r.pick({0, 1, 9, 60, 200}));
    replies[y->n] = y;
    k.replies.push_back(y->n);
    a0_packet_t p, qp;
    memset(&p, 0, sizeof p);
    memset(&qp, 0, sizeof qp);
    TopicModel::id_of(y->n, p.id);
    TopicModel::id_of(n, qp.id);
    p.payload.data = (uint8_t*)y->data.data();
    p.payload.size = y->data.size();
    a0_packet_header_t uh[1] = {{"ux", "first"}};
    p.headers_block.headers = uh;
    p.headers_block.size = 1;
    y->t_start = lclock();
    note("reply %llu to request %llu", (unsigned long long)y->n, (unsigned long long)n);
    a0_err_t e;
    if (s->cpp) {
      a0::RpcRequest* h = s->held[n];
      Msg m = from_pkt(h->c->pkt);
      if (m.data != k.data || m.id != qp.id) fail("C12", "request-altered", "request %llu, kept by the server, has other content now", (unsigned long long)n);
      e = X([&]() { h->reply(a0::Packet(p, nullptr)); });
    } else {
      e = A(a0_rpc_server_reply((a0_rpc_request_t{s->s, qp}), p));
    }
    if (e) fail("C12", "reply-fails", "reply failed with %d/%d", (int)e, syserr(e));
    note("  replied");
  }

  // ------------------------------------------------------------------ client
  struct CbArg {
    Req* q;
  };
  static void on_reply(void* ud, a0_packet_t p) {
    Cb cb;
    Req* q = (Req*)ud;
    q->c->S->answered(q, p, true);
    if (trng().chance(0.02)) refused_close(A(a0_rpc_client_close(q->c->c)));
  }
  std::function<void(a0::Packet)> cx_reply(Req* q) {
    return [this, q](a0::Packet p) {
      Cb cb;
      q->c->kept.push_back(Kept(p));
      answered(q, *p.c, true);
    };
  }
  void answered(Req* q, a0_packet_t p, bool callback, bool more = true) {
    const char* how = callback ? "reply callback" : "blocking call";
    Msg m = from_pkt(p);
    u64 n = TopicModel::num_of(m.id.c_str());
    note("%s of request %llu gets reply %llu", how, (unsigned long long)q->n, (unsigned long long)n);
    if (q->c->closed) fail("C08,C12", "callback-after-close", "a reply callback ran after the client was closed");
    auto it = replies.find(n);
    if (!n || it == replies.end()) fail("C12", "not-a-reply", "%s of request %llu: got a packet that is no reply", how, (unsigned long long)q->n);
    Reply* y = it->second;
    if (y->q != q) fail("C12", "wrong-reply", "%s of request %llu: got the reply to request %llu", how, (unsigned long long)q->n, (unsigned long long)y->q->n);
    if (m.data != y->data || !user_ok(m, 1)) fail("C12,C01", "reply-altered", "%s of request %llu: the reply arrives with other content", how, (unsigned long long)q->n);
    if (q->ran++ >= q->sends) fail("C12", "answered-twice", "%s of request %llu ran twice", how, (unsigned long long)q->n);
    if (callback && q->cancelled && q->sends == 1 && q->cancelled < y->t_start)
      fail("C12", "answered-after-cancel", "the callback of request %llu ran with a reply issued after the request was cancelled", (unsigned long long)q->n);
    mark(callback ? "callback" : "blocking_reply");
    if (!callback || !more || (q->c->cpp && q->c->closing)) return;  // an object being destroyed is not used any more
    q->c->busy += q->c->cpp;
    if (p_nested > 0 && q->c->reqs.size() < 12 && trng().chance(p_nested)) send(q->c, trng().range(ASYNC, NOCB));
    if (q->sends < 3 && p_resend > 0 && trng().chance(p_resend)) resend(q);
    q->c->busy -= q->c->cpp;
  }
  void client(Cli* c, int nt) {
    Rng& r = trng();
    for (int y = r.pick({0, 0, 5, 50}); y > 0; y--) yield();
    a0_err_t e;
    if (c->cpp) {
      e = until_open("C12,C08", [&]() { return X([&]() { c->x = new a0::RpcClient(a0::RpcTopic("t", cx_file_opts(size))); }); });
    } else {
      c->c = palloc<a0_rpc_client_t>();
      e = until_open("C12,C08", [&]() { return A(a0_rpc_client_init(c->c, topic(), c->al.get())); });
    }
    if (e) fail("C12", "init-fails", "client init failed with %d/%d", (int)e, syserr(e));
    c->open = true;
    for (int i = 1; i < nt; i++) {
      c->busy++;
      all.push_back(spawn(c->p, "t", [this, c]() {
        work(c);
        c->busy--;
      }));
    }
    work(c);
    if (r.chance(0.5)) block_forever_until([this]() { return finish; });
    block_forever_until([c]() { return !c->busy; });
    c->closing = true;
    note("close client");
    if (c->cpp) {
      check_kept(c);
      AV(delete c->x);
      c->closed = true;
      check_kept(c);
      return;
    }
    closed_ok(A(a0_rpc_client_close(c->c)));
    c->closed = true;
    c->al.clear();
    pfree(c->c);
  }
  // What the program has kept of earlier replies, and the replies that arrived in futures.
  void check_kept(Cli* c) {
    if (!c->closed)
      for (size_t i = 0; i < c->futs.size(); i++) {
        if (c->futs[i].second->wait_for(std::chrono::seconds(0)) != std::future_status::ready) continue;
        Req* q = c->futs[i].first;
        a0::Packet p = c->futs[i].second->get();
        c->futs.erase(c->futs.begin() + i);
        i = -1;
        mark("future_ready");
        answered(q, *p.c, true, false);
        c->kept.push_back(Kept(p));
      }
    for (Kept& k : c->kept)
      if (!k.intact()) fail("C12", "kept-reply-altered", "a reply the program has kept has other content now");
  }
  void work(Cli* c) {
    Rng& r = trng();
    while (burst > 0) {
      burst--;
      send(c, ASYNC);
      if (r.chance(p_cancel / 2)) cancel(c, c->reqs[r.below(c->reqs.size())]);
    }
    for (int k = 0; k < nops; k++) {
      if (c->cpp) check_kept(c);
      for (int y = r.pick({0, 1, 4, 20}); y > 0; y--) yield();
      if (r.chance(p_cancel)) {
        // own, or somebody else's
        Cli* o = r.chance(0.8) ? c : clis[r.below(clis.size())];
        if (!o->reqs.empty()) cancel(c, o->reqs[r.below(o->reqs.size())]);
        continue;
      }
      send(c, r.range(ASYNC, TIMED));
    }
  }
  void send(Cli* c, int kind) {
    Rng& r = trng();
    Req* q = new Req();
    q->n = next++;
    q->c = c;
    q->kind = kind;
    q->nuser = r.range(0, c->cpp ? 1 : 2);
    q->data = payload(q->n, r.pick({0, 1, 9, 60, 200}));
    reqs[q->n] = q;
    c->reqs.push_back(q);
    a0_packet_t p;
    memset(&p, 0, sizeof p);
    TopicModel::id_of(q->n, p.id);
    p.payload.data = (uint8_t*)q->data.data();
    p.payload.size = q->data.size();
    a0_packet_header_t uh[2] = {{"ux", "first"}, {"ux", "second"}};
    p.headers_block.headers = uh;
    p.headers_block.size = q->nuser;
    q->t_start = lclock();
    note("request %llu kind %d", (unsigned long long)q->n, kind);
    if (kind <= NOCB && c->cpp) {
      a0_err_t e;
      if (kind == ASYNC && r.chance(0.4)) {
        std::future<a0::Packet>* fu = nullptr;
        e = X([&]() { fu = new std::future<a0::Packet>(c->x->send(a0::Packet(p, nullptr))); });
        if (fu) c->futs.push_back({q, fu});
      } else {
        e = X([&]() { c->x->send(a0::Packet(p, nullptr), kind == NOCB ? std::function<void(a0::Packet)>() : cx_reply(q)); });
      }
      if (e) fail("C12", "send-fails", "request failed with %d/%d", (int)e, syserr(e));
      q->t_sent = lclock();
      return;
    }
    if (kind <= NOCB) {
      a0_packet_callback_t cb{q, kind == NOCB ? nullptr : on_reply};
      a0_err_t e = A(a0_rpc_client_send(c->c, p, cb));
      if (e) fail("C12", "send-fails", "request failed with %d/%d", (int)e, syserr(e));
      q->t_sent = lclock();
      return;
    }
    TestAlloc* al = new TestAlloc();
    a0_packet_t out;
    memset(&out, 0, sizeof out);
    a0_err_t e;
    u64 dl = 0;
    if (c->cpp) {
      a0::Packet* xo = nullptr;
      if (kind == BLOCK) {
        e = X([&]() { xo = new a0::Packet(c->x->send_blocking(a0::Packet(p, nullptr))); });
      } else {
        dl = vary_deadline(r, boot_ns() + r.pick({1, 1000, 20000, 300000, 2000000}));
        a0::TimeMono tm = cx_mono(dl);
        e = XT(dl, ([&]() { xo = new a0::Packet(c->x->send_blocking(a0::Packet(p, nullptr), tm)); }));
      }
      if (!e) {
        out = *xo->c;
        c->kept.push_back(Kept(*xo));
      }
    } else if (kind == BLOCK) {
      e = A(a0_rpc_client_send_blocking(c->c, p, al->get(), &out));
    } else {
      dl = vary_deadline(r, boot_ns() + r.pick({1, 1000, 20000, 300000, 2000000}));
      a0_time_mono_t tm = mono_at(dl);
      e = AT(dl, a0_rpc_client_send_blocking_timeout(c->c, p, &tm, al->get(), &out));
    }
    q->t_sent = lclock();
    q->returned = true;
    note("request %llu -> %d/%d", (unsigned long long)q->n, (int)e, syserr(e));
    if (!e) {
      q->ok = true;
      answered(q, out, false);
    } else if (e == A0_ERR_CANCELLED) {
      if (!q->ncancel) fail("C12", "cancel-invented", "a blocking call says its request was cancelled, nobody did that");
      mark("blocking_cancelled");
    } else if (kind == TIMED && syserr(e) == ETIMEDOUT) {
      if (boot_ns() < dl) fail("C12,C09", "early-timeout", "a timed call gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
      mark("call_timed_out");
    } else {
      fail("C12", "blocking-call-fails", "blocking call returned %d/%d", (int)e, syserr(e));
    }
    al->clear();
  }
  // The same request once more, from its own callback.
  void resend(Req* q) {
    a0_packet_t p;
    memset(&p, 0, sizeof p);
    TopicModel::id_of(q->n, p.id);
    p.payload.data = (uint8_t*)q->data.data();
    p.payload.size = q->data.size();
    a0_packet_header_t uh[2] = {{"ux", "first"}, {"ux", "second"}};
    p.headers_block.headers = uh;
    p.headers_block.size = q->nuser;
    q->sends++;
    q->t_sent = 0;
    note("request %llu again", (unsigned long long)q->n);
    mark("sent_again");
    a0_packet_callback_t cb{q, on_reply};
    a0_err_t e = q->c->cpp ? X([&]() { q->c->x->send(a0::Packet(p, nullptr), cx_reply(q)); }) : A(a0_rpc_client_send(q->c->c, p, cb));
    if (e) fail("C12", "send-fails", "request failed with %d/%d", (int)e, syserr(e));
    q->t_sent = lclock();
  }
  void cancel(Cli* c, Req* q) {
    a0_uuid_t id;
    TopicModel::id_of(q->n, id);
    note("cancel request %llu", (unsigned long long)q->n);
    bool after = q->t_sent != 0 && q->c == c;
    q->ncancel++;
    if (!q->cancel_first) q->cancel_first = lclock();
    a0_err_t e = c->cpp ? X([&]() { c->x->cancel(a0::string_view(id)); }) : A(a0_rpc_client_cancel(c->c, id));
    if (e) fail("C12", "cancel-fails", "cancel failed with %d/%d", (int)e, syserr(e));
    if (after && !q->cancelled) q->cancelled = lclock();
    note("  cancelled");
  }
  bool live(Cli* c) { return c->open && !c->closed && !c->p->dead && !c->p->dying; }
  void proc_dead(Proc* p) override {
    for (Cli* c : clis)
      if (c->p == p)
        for (Req* q : c->reqs) q->dead = true;
    for (Srv* s : srvs)
      if (s->p == p && restarts > 0 && p->killed) {
        restarts--;
        count_fault(F_RESTART);
        new_server();
        break;
      }
  }

  // ------------------------------------------------------------------- rest
  bool idle(int stage) override {
    if (!finish) {
      if (stage > 300) fail("C12", "blocking-call-stuck", "blocking calls do not return although their requests are cancelled");
      if (!settle()) finish = true;
      return true;
    }
    for (Thread* t : all)
      if (!thread_done(t)) fail("C12,C08", "stuck", "closing a client or server does not return");
    return false;
  }
  // Checks the state at rest; true if there are blocked calls, which are being cancelled.
  bool settle() {
    std::map<u64, int> committed, cancels;   // requests and cancellations in the channel
    std::map<u64, int> responses, cancelled_after;
    bool have = vfs_exists(path);
    Span sp;
    if (have) {
      std::vector<unsigned char> b;
      vfs_bytes(vfs_inode(path), b);
      if (b.size() != size) have = false;  // never set up
      if (have)
        sp = walk(b.data(), b.size(), 0, [&](Msg& m) {
          const std::string* ty = m.get("a0_rpc_type");
          if (!ty) return;
          note("channel %llu: %s %s", (unsigned long long)m.seq, ty->c_str(), m.id.c_str());
          const std::string* id = *ty == "request" ? &m.id : m.get("a0_req_id");
          u64 n = id ? TopicModel::num_of(id->c_str()) : 0;
          if (*ty == "request") committed[n]++;
          if (*ty == "response") responses[n]++;
          if (*ty == "cancel") {
            cancels[n]++;
            if (committed.count(n)) cancelled_after[n]++;
          }
        });
    }
    bool full = have && pristine() && sp.low <= 1;
    if (full) {
      mark("complete_history");
      for (Srv* s : srvs) {
        if (!s->t_init1 || s->closing || s->p->dead || s->p->dying) continue;
        for (auto& x : committed) {
          Req* q = reqs[x.first];
          if (q->t_start > s->t_init1 && s->seen[x.first] != x.second)
            fail("C12,C06,C07", "request-lost", "request %llu was sent %d times while the server was running, the handler saw it %d times", (unsigned long long)x.first, x.second, s->seen[x.first]);
        }
        if (!s->cancels[0])
          for (auto& x : cancels) {
            Req* q = reqs[x.first];
            if (q && q->cancel_first > s->t_init1 && s->cancels[x.first] != x.second)
              fail("C12,C06,C07", "cancel-lost", "request %llu was cancelled %d times while the server was running, the handler was told %d times", (unsigned long long)x.first, x.second, s->cancels[x.first]);
          }
      }
    }
    std::vector<Req*> stuck;
    for (Cli* c : clis) {
      if (!live(c)) continue;
      if (c->cpp) check_kept(c);
      for (Req* q : c->reqs) {
        if (full && q->kind == ASYNC && !q->ncancel && q->ran < std::min(responses[q->n], q->sends))
          fail("C12,C06,C07", "reply-lost", "request %llu was answered %d times, its callback ran %d times", (unsigned long long)q->n, responses[q->n], q->ran);
        if (q->kind == TIMED && !q->returned) fail("C12,C09", "timed-call-stuck", "a timed call does not return");
        if (q->kind == BLOCK && !q->returned) {
          if (full && (responses[q->n] || cancelled_after[q->n]))
            fail("C12,C06,C07", "blocking-call-stuck", "request %llu was %s, its blocking call does not return", (unsigned long long)q->n, responses[q->n] ? "answered" : "cancelled");
          stuck.push_back(q);
        }
      }
    }
    // one at a time where the cancellations may displace each other
    for (Req* q : stuck) {
      all.push_back(spawn(q->c->p, "x", [this, q]() { cancel(q->c, q); }));
      if (!pristine()) break;
    }
    state_sig(reqs.size() * 1000003 + replies.size() * 1009 + srvs.size());
    return !stuck.empty();
  }
};
SCENARIO("rpc", RpcScen)
}  // namespace
