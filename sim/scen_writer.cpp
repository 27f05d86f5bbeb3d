// Standard headers: C15.
#include <a0/pubsub.h>
#include <a0/pubsub.hpp>

#include "cxx.h"
#include "walk.h"

namespace {

struct WriterScen : Scenario {
  TopicModel M;
  size_t size;
  int nops;
  struct Wr {
    int no = 0;
    std::string id;
    bool shared = false;
    std::vector<u64> seqs;      // writer sequence numbers seen in channel order
    u64 last = 0, gap = 0;      // refused writes since the last one seen
    bool any = false;
    int refused = 0;
  };
  std::vector<Wr*> ws;
  std::map<u64, Wr*> by_pkt;     // packet number -> writer
  struct PI {
    u64 b0 = 0, b1 = ~0ull;      // boot time around the call
    u64 w0 = 0, w1 = 0;
    int nuser = 0;
    u64 ord = 0;
  };
  std::map<u64, PI> info;
  std::map<std::string, Wr*> ids;
  u64 last_seq = 0, last_t = 0, last_tseq = 0;
  bool wall_steps = false;
  std::vector<Thread*> all;
  int others = 0;
  const char* path = "/dev/shm/alephzero/t.pubsub.a0";

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.6);
    wall_steps = s.clocks && cfg.p_wall > 0;
    cfg.sysmask = 0;
    cfg.p_syserr = 0;
    cfg.fault_steps = 60000;
    set_generic_props("C15");
    no_locks_after_calls("C15,C20,C03");
    M.PX = "C15,C01";
    size = r.pick({1500, 2500, 4096, 8192, 16384});
    nops = r.range(1, 6);
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* p = new_proc(n);
      int nw = r.range(1, 2);
      if (r.chance(0.25)) all.push_back(spawn(p, "o", [this]() { elsewhere(); }));
      for (int j = 0; j < nw; j++) {
        Wr* w = new Wr();
        w->no = ws.size();
        ws.push_back(w);
        int kind = r.range(0, 6);
        int nt = r.chance(0.3) ? 2 : 1;
        w->shared = nt > 1;
        all.push_back(spawn(p, "w", [this, w, kind, nt]() { writer(w, kind, nt); }));
      }
    }
  }
  a0_file_t file() { return open_file(path, size); }

  static a0_err_t own_hdr(void* ud, a0_packet_t* pkt, a0_middleware_chain_t chain) {
    a0_packet_header_t h = {"own", (const char*)ud};
    a0_packet_headers_block_t prev = pkt->headers_block;
    pkt->headers_block.headers = &h;
    pkt->headers_block.size = 1;
    pkt->headers_block.next_block = &prev;
    return a0_middleware_chain(chain, pkt);
  }
  void writer(Wr* w, int kind, int nt) {
    a0_file_t f = file();
    a0_publisher_t* pub = palloc<a0_publisher_t>();
    a0_writer_t *base = palloc<a0_writer_t>(), *top = palloc<a0_writer_t>();
    a0_writer_t* use = base;
    a0::Writer* cx = nullptr;
    a0_err_t e = A0_OK;
    if (kind == 0) {
      a0_file_options_t* o = palloc<a0_file_options_t>();
      *o = file_opts(size);
      a0_pubsub_topic_t tp = {"t", o};
      e = A(a0_publisher_init(pub, tp));
      if (!e) e = A(a0_publisher_writer(pub, &use));
    } else if (kind > 3) {
      e = X([&]() {
        a0::File xf(path, cx_file_opts(size));
        a0::Writer b;
        if (kind == 4)
          b = a0::Publisher(a0::PubSubTopic("t", cx_file_opts(size))).writer();
        else
          b = a0::Writer(xf);
        if (kind == 5) b.push(a0::add_standard_headers());
        // the wrapped one outlives this
        cx = new a0::Writer(kind == 6 ? b.wrap(a0::add_standard_headers()) : b);
        use = &*cx->c;
      });
    } else {
      e = A(a0_writer_init(base, f.arena));
      if (!e && kind == 1) e = A(a0_writer_push(base, a0_add_standard_headers()));
      if (!e && kind == 2) {
        e = A(a0_writer_wrap(base, a0_add_standard_headers(), top));
        use = top;
      }
      if (!e && kind == 3) {
        e = A(a0_writer_push(base, a0_add_transport_seq_header()));
        if (!e) e = A(a0_writer_push(base, a0_add_writer_seq_header()));
        if (!e) e = A(a0_writer_push(base, a0_add_time_wall_header()));
        if (!e) e = A(a0_writer_push(base, a0_add_writer_id_header()));
        if (!e) e = A(a0_writer_push(base, a0_add_time_mono_header()));
      }
    }
    if (e) fail("C15", "init-fails", "writer init failed with %d/%d", (int)e, syserr(e));
    // The model's own middleware comes first and sees the packet under the lock.
    a0_writer_t* obs = palloc<a0_writer_t>();
    e = A(a0_writer_wrap(use, M.middleware(), obs));
    Thread* other = nullptr;
    if (nt > 1) other = spawn(cur_proc(), "x", [this, w, obs, f]() { work(w, obs, f); });
    work(w, obs, f);
    if (other) block_forever_until([other]() { return thread_done(other); });
    A(a0_writer_close(obs));
    if (kind == 2) A(a0_writer_close(top));
    if (cx)
      AV(delete cx);
    else if (kind == 0)
      A(a0_publisher_close(pub));
    else
      A(a0_writer_close(base));
    A(a0_file_close(&f));
  }
  // Writes to a channel of its own meanwhile; its messages must come out of it with its own headers.
  void elsewhere() {
    Rng& r = trng();
    std::string own = "/dev/shm/alephzero/other" + std::to_string(others++) + ".pubsub.a0";
    a0_file_t f = open_file(own.c_str(), 8192);
    a0_writer_t* w = palloc<a0_writer_t>();
    a0_err_t e = A(a0_writer_init(w, f.arena));
    if (!e) e = A(a0_writer_push(w, a0_add_standard_headers()));
    if (e) fail("C15", "init-fails", "writer init failed with %d/%d", (int)e, syserr(e));
    std::string id;
    for (u64 k = 0; k < (u64)nops; k++) {
      a0_packet_t p;
      memset(&p, 0, sizeof p);
      TopicModel::id_of(k + 1, p.id);
      u64 b0 = boot_ns();
      e = A(a0_writer_write(w, p));
      u64 b1 = boot_ns();
      if (e) fail("C15", "write-fails", "write into a channel of its own failed with %d/%d", (int)e, syserr(e));
      walk(f.arena.buf.data, f.arena.buf.size, k + 1, [&](Msg& m) {
        const std::string *t = m.get("a0_time_mono"), *i = m.get("a0_writer_id"), *s = m.get("a0_writer_seq"), *q = m.get("a0_transport_seq");
        if (!t || !i || !s || !q) fail("C15", "header-count", "a message in a channel of its own lacks a header");
        if (num(*t) < b0 || num(*t) > b1) fail("C15", "time-wrong", "a message in a channel of its own is stamped outside of the call that wrote it");
        if (num(*s) != k || num(*q) != k) fail("C15", "transport-seq", "message %llu in a channel of its own has the sequence numbers %s and %s", (unsigned long long)k, s->c_str(), q->c_str());
        if (id.empty()) {
          id = *i;
          if (ids.count(id)) fail("C15,C21", "writer-id-shared", "two writers have the id %s", id.c_str());
          ids[id] = nullptr;
        }
        if (*i != id) fail("C15", "writer-id-changes", "a writer used the ids %s and %s", id.c_str(), i->c_str());
      });
      mark("other_channel");
      for (int y = r.range(0, 3); y > 0; y--) yield();
    }
    A(a0_writer_close(w));
    A(a0_file_close(&f));
    pfree(w);
  }
  void work(Wr* w, a0_writer_t* wr, a0_file_t f) {
    Rng& r = trng();
    for (int k = 0; k < nops; k++) {
      for (int y = r.range(0, 3); y > 0; y--) yield();
      bool big = r.chance(0.05);
      size_t n = big ? size + r.below(100) : r.pick({0, 1, 8, 40, 150});
      Rec& rec = M.start(n);
      by_pkt[rec.n] = w;
      PI& pi = info[rec.n];
      a0_packet_t p;
      memset(&p, 0, sizeof p);
      TopicModel::id_of(rec.n, p.id);
      p.payload.data = (uint8_t*)rec.data.data();
      p.payload.size = n;
      a0_packet_header_t uh[2] = {{"u0", "v0"}, {"u1", ""}};
      pi.nuser = r.range(0, 2);
      p.headers_block.headers = uh;
      p.headers_block.size = pi.nuser;
      pi.b0 = boot_ns();
      pi.w0 = wall_ns();
      note("write packet %llu of writer %d", (unsigned long long)rec.n, w->no);
      a0_err_t e = A(a0_writer_write(wr, p));
      note("  -> %d", (int)e);
      pi.b1 = boot_ns();
      pi.w1 = wall_ns();
      M.done(rec, e);
      if (e && !big) fail("C15,C20", "write-fails", "write of %zu bytes into a channel of %zu failed with %d/%d", n, size, (int)e, syserr(e));
      if (e) w->refused++;
      if (!e && big) fail("C20", "too-large-accepted", "a message larger than the channel was accepted");
      look(f);
    }
  }
  void look(a0_file_t& f) {
    // NOTE: all lines of this run without the simulator stepping in between.
    walk(f.arena.buf.data, f.arena.buf.size, last_seq + 1, [this](Msg& m) { one(m); });
  }
  void one(Msg& m) {
    Rec& rec = M.received(m.id.c_str(), m.data.data(), m.data.size(), m.seq, "channel");
    Wr* w = by_pkt[rec.n];
    PI& pi = info[rec.n];
    const char* std_[] = {"a0_time_mono", "a0_time_wall", "a0_writer_id", "a0_writer_seq", "a0_transport_seq"};
    const std::string* v[5];
    for (int i = 0; i < 5; i++) {
      int n;
      v[i] = m.get(std_[i], &n);
      if (n != 1) fail("C15", "header-count", "packet %llu carries %s %d times", (unsigned long long)rec.n, std_[i], n);
    }
    std::vector<std::pair<std::string, std::string>> user;
    for (auto& h : m.hdrs)
      if (h.first.compare(0, 3, "a0_")) user.push_back(h);
    bool uok = (int)user.size() == pi.nuser;
    for (int i = 0; uok && i < pi.nuser; i++) uok = user[i].first == (i ? "u1" : "u0") && user[i].second == (i ? "" : "v0");
    if (!uok || (int)m.hdrs.size() != pi.nuser + 5) fail("C15", "user-headers", "packet %llu: the caller's %d headers arrived differently", (unsigned long long)rec.n, pi.nuser);
    u64 ts = num(*v[4]), wsq = num(*v[3]), t = num(*v[0]);
    bool adjacent = m.seq == last_seq + 1 && last_seq;
    if (last_seq) {
      if (ts - last_tseq != m.seq - last_seq)
        fail("C15", "transport-seq", "transport sequence headers go from %llu to %llu although the messages are %llu apart", (unsigned long long)last_tseq, (unsigned long long)ts, (unsigned long long)(m.seq - last_seq));
      if (t < last_t) fail("C15", "time-goes-back", "boot-time stamps go back by %llu ns from one message to a later one", (unsigned long long)(last_t - t));
    }
    (void)adjacent;
    if (t < pi.b0 || t > pi.b1) fail("C15", "time-wrong", "packet %llu: boot-time stamp lies outside of the call that wrote it", (unsigned long long)rec.n);
    a0_time_wall_t tw;
    if (a0_time_wall_parse(v[1]->c_str(), &tw)) fail("C15", "wall-time-malformed", "wall-clock stamp %s", v[1]->c_str());
    u64 wt = (u64)tw.ts.tv_sec * 1000000000ull + tw.ts.tv_nsec;
    if (!wall_steps && pi.w1 && (wt < pi.w0 || wt > pi.w1)) fail("C15", "wall-time-wrong", "packet %llu: wall-clock stamp lies outside of the call that wrote it", (unsigned long long)rec.n);
    // writer id
    if (v[2]->size() != 36) fail("C15,C21", "writer-id-malformed", "writer id %s", v[2]->c_str());
    if (w->id.empty()) {
      if (ids.count(*v[2])) fail("C15,C21", "writer-id-shared", "two writers have the id %s", v[2]->c_str());
      w->id = *v[2];
      ids[w->id] = w;
    } else if (w->id != *v[2]) {
      fail("C15", "writer-id-changes", "writer %d used the ids %s and %s", w->no, w->id.c_str(), v[2]->c_str());
    }
    for (u64 x : w->seqs)
      if (x == wsq) fail("C15", "writer-seq-repeats", "writer sequence number %llu appears twice", (unsigned long long)wsq);
    if (!w->shared && w->any) {
      // The writer's own calls between the two messages that are not between them in the channel were refused or displaced unseen.
      u64 between = 0;
      for (auto& q : by_pkt)
        if (q.second == w && q.first > w->last && q.first < rec.n) between++;
      if (wsq != w->seqs.back() + 1 + between)
        fail("C15", "writer-seq", "writer sequence number %llu follows %llu, %llu calls in between", (unsigned long long)wsq, (unsigned long long)w->seqs.back(), (unsigned long long)between);
      if (rec.n < w->last) fail("C15", "writer-order", "packet %llu of a writer used by one thread comes after its packet %llu", (unsigned long long)rec.n, (unsigned long long)w->last);
    }
    w->any = true;
    w->last = rec.n;
    w->seqs.push_back(wsq);
    last_seq = m.seq;
    last_tseq = ts;
    last_t = t;
    mark("message_checked");
    state_sig(ts * 31 + wsq * 7 + w->no);
  }
  u64 num(const std::string& s) {
    if (s.empty() || s.size() > 19) fail("C15", "header-malformed", "header value '%s'", s.c_str());
    for (char c : s)
      if (c < '0' || c > '9') fail("C15", "header-malformed", "header value '%s'", s.c_str());
    return strtoull(s.c_str(), nullptr, 10);
  }
  bool idle(int stage) override {
    for (Thread* t : all)
      if (!thread_done(t)) fail("C15,C03", "stuck", "a writer is stuck");
    if (stage == 0) {
      Proc* p = new_proc("last");
      p->killable = false;
      Wr* w = new Wr();
      w->no = ws.size();
      ws.push_back(w);
      int kind = cfg_rng().range(0, 3);
      all.push_back(spawn(p, "w", [this, w, kind]() { writer(w, kind, 1); }));
      return true;
    }
    return false;
  }
};
SCENARIO("wr", WriterScen)
}  // namespace
