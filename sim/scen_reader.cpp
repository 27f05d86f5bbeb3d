// Readers of every kind against writers: C06, C07, C08, C15, C20 (and C01, C09).
#include <a0/pubsub.h>
#include <a0/pubsub.hpp>
#include <a0/writer.hpp>

#include "cxx.h"
#include "topic.h"

namespace {

const char* kTopic = "t";
const char* kPath = "/sim/a0/t.pubsub.a0";

struct RdScen : Scenario {
  TopicModel T;
  int nwp, nrp, nmsg;
  size_t fsize;
  bool pubs, allocf = false, closes;
  int deaths = 0, emptied = 0;
  bool std_headers = false;
  struct R {
    int kind;  // 0 sync zero-copy, 1 sync, 2 threaded zero-copy, 3 threaded
    bool sub;
    bool cpp = false;       // uses the C++ interface
    std::vector<Kept> kept;
    a0_reader_options_t o;
    Thread* owner = nullptr;
    Proc* p = nullptr;
    void* obj = nullptr;
    a0_arena_t arena;
    Span pre, post;
    bool post_ok = false, init_ok = false;
    u64 last = 0;
    u64 floor = 0;          // newest committed before this read could begin
    bool blocked_read = false;
    bool closing = false, closed = false, in_cb = false;
    u64 got = 0;
    u64 fails_seen = 0;     // allocator failures up to the last delivery: each may cost a message
    TestAlloc al;
    RdScen* S;
  };
  std::vector<R*> rs;
  std::vector<Thread*> wthreads, closers;
  Thread* insp = nullptr;
  int restarts = 0, madew = 0;

  ~RdScen() {
    for (R* r : rs) delete r;
  }
  RdScen(bool af = false) : allocf(af) {}

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.6);
    nwp = r.range(1, 2);
    nrp = r.range(1, 3);
    nmsg = r.range(2, 10);
    pubs = r.chance(0.35);
    closes = r.chance(0.6);
    fsize = r.pick({600, 900, 1400, 2400, 4000});
    if (pubs) fsize += 600;
    cfg.fault_steps = 120000;
    thread_faults(cfg);
    set_generic_props(allocf ? "C20" : "C06,C07,C08,C01,C03,C09,C20");
    no_locks_after_calls(allocf ? "C20" : "C20,C03,C07");
    set_env("A0_ROOT", "/sim/a0");
    restarts = s.kill ? r.range(0, 1) : 0;
    for (int i = 0; i < nwp; i++) add_writer();
    for (int i = 0; i < nrp; i++) {
      char n[8];
      snprintf(n, sizeof n, "r%d", i);
      Proc* p = new_proc(n);
      if (r.chance(0.4)) p->killable = false;
      int k = r.range(1, 2);
      for (int j = 0; j < k; j++) {
        int kind = r.range(0, r.chance(allocf ? 0.5 : 0.15) ? 4 : 3);
        if (kind == 4) {
          spawn(p, "x", [this]() { random_main(); });
          continue;
        }
        spawn(p, "m", [this, kind]() { reader_main(kind); });
        // the process lives on even if the library's reader thread should end
        if (kind >= 2) spawn(p, "keep", [this]() { block_forever_until([this]() { return finish; }); });
      }
    }
  }
  void add_writer() {
    char n[8];
    snprintf(n, sizeof n, "w%d", madew++);
    Proc* p = new_proc(n);
    int nt = cfg_rng().range(1, 2);
    if (restarts < 0) nt = 1;
    for (int j = 0; j < nt; j++) wthreads.push_back(spawn(p, j ? "b" : "a", [this]() { writer_main(); }));
  }
  void thread_dead(Thread* t) override {
    if (thread_proc(t)->killed) deaths++;
  }
  void proc_dead(Proc* p) override {
    if (p->killed) {
      if (p->name[0] == 'w' && restarts > 0) {
        restarts--;
        count_fault(F_RESTART);
        add_writer();
      }
    }
  }

  a0_file_options_t fo() { return file_opts(fsize); }

  // ------------------------------------------------------------ writers
  void writer_main() {
    Rng& r = trng();
    bool pub = pubs && r.chance(0.8);
    if (r.chance(0.25)) return cx_writer_main(r, pub);
    a0_file_t f = open_file(kPath, fsize);
    a0_writer_t* w = palloc<a0_writer_t>();
    a0_publisher_t* pb = palloc<a0_publisher_t>();
    a0_file_options_t o = fo();
    a0_err_t e;
    a0_writer_t* wr = w;
    if (pub) {
      NoSysFault nf;
      a0_pubsub_topic_t t{kTopic, &o};
      e = A(a0_publisher_init(pb, t));
      if (!e) A(a0_publisher_writer(pb, &wr));
    } else {
      e = A(a0_writer_init(w, f.arena));
    }
    if (e) fail("C06", "open-fails", "writer set-up failed: %d/%d", (int)e, syserr(e));
    AV(a0_writer_push(wr, T.middleware()));
    auto put = [wr](const a0_packet_t& p) { return A(a0_writer_write(wr, p)); };
    for (int i = 0; i < nmsg; i++) {
      for (int k = r.range(0, 4); k > 0; k--) yield();
      if (r.chance(0.1)) sleep_ns(r.below(500000));
      write_one(put, pub, f.arena, r);
    }
    if (r.chance(0.5)) {
      if (pub) {
        AV(a0_publisher_close(pb));
      } else {
        AV(a0_writer_close(w));
      }
    }
  }
  void cx_writer_main(Rng& r, bool pub) {
    a0_file_t f = open_file(kPath, fsize);
    a0::Writer* w = nullptr;
    a0_err_t e;
    {
      NoSysFault nf;
      e = X([&]() {
        if (pub)
          w = new a0::Writer(a0::Publisher(a0::PubSubTopic(kTopic, cx_file_opts(fsize))).writer());
        else
          w = new a0::Writer(a0::File(kPath, cx_file_opts(fsize)));
        a0::Middleware m;
        m.c = std::make_shared<a0_middleware_t>(T.middleware());
        w->push(m);
      });
    }
    if (e) fail("C06", "open-fails", "writer set-up failed: %d/%d", (int)e, syserr(e));
    auto put = [w](const a0_packet_t& p) { return X([&]() { w->write(a0::Packet(p, nullptr)); }); };
    for (int i = 0; i < nmsg; i++) {
      for (int k = r.range(0, 4); k > 0; k--) yield();
      if (r.chance(0.1)) sleep_ns(r.below(500000));
      write_one(put, pub, f.arena, r);
    }
    if (r.chance(0.5)) AV(delete w);
  }
  void write_one(const std::function<a0_err_t(const a0_packet_t&)>& put, bool pub, a0_arena_t ar, Rng& r) {
    size_t least = workspace_off() + ChanModel::FH + sizeof(a0_uuid_t) + 2 * sizeof(size_t);
    size_t overhead = least + (pub ? 300 : 0);
    size_t size = r.chance(0.7) ? r.below(80) : r.below(fsize > overhead + 60 ? fsize - overhead - 60 : 10);
    bool big = r.chance(allocf ? 0.15 : 0.04);
    if (big) size = fsize - least + 1 + r.below(200);
    Rec& rec = T.start(size);
    a0_packet_t p;
    memset(&p, 0, sizeof p);
    TopicModel::id_of(rec.n, p.id);
    a0_packet_header_t h[2] = {{"key", "val"}, {"k2", ""}};
    int nh = r.chance(0.3) ? r.range(1, 2) : 0;
    p.headers_block.headers = h;
    p.headers_block.size = nh;
    rec.nhdr = nh;
    p.payload.data = (uint8_t*)rec.data.data();
    p.payload.size = size;
    Span s0 = peek(ar.buf.data, ar.buf.size);
    note("write %llu (%zu bytes)", (unsigned long long)rec.n, size);
    u64 n = rec.n;
    a0_err_t e = put(p);
    note("written %llu -> %d", (unsigned long long)n, (int)e);
    Rec& rr = T.recs[n];
    if (big) {
      if (!e) fail("C20", "oversize-accepted", "a packet of %zu bytes payload was accepted by an arena of %zu", size, fsize);
      mark("oversize_refused");
    } else if (e) {
      fail("C20,C06", "write-refused", "write of %zu bytes failed: %d/%d", size, (int)e, syserr(e));
    }
    T.done(rr, e);
    (void)s0;
  }

  // ------------------------------------------------------------ readers
  void check(R* r, u64 b, bool locked, Span now) {
    const char* how = r->kind == 0 ? "sync-zc" : r->kind == 1 ? "sync" : r->kind == 2 ? "threaded-zc" : "threaded";
    if (locked && (b < now.low || b > now.high)) fail("C06,C01", "not-live", "%s: delivered message %llu is not one of the live %llu..%llu", how, (unsigned long long)b, (unsigned long long)now.low, (unsigned long long)now.high);
    if (!locked && b > now.high) fail("C06,C01", "uncommitted-visible", "%s: delivered message %llu is newer than the newest committed %llu", how, (unsigned long long)b, (unsigned long long)now.high);
    bool displaced_before = now.low >= b || r->al.fails != r->fails_seen;  // everything below b is gone
    bool newest = locked ? b == now.high : b >= r->floor;
    u64 hpost = r->post_ok ? r->post.high : now.high;
    if (!r->got) {
      switch (r->o.init) {
        case A0_INIT_OLDEST:
          if (b < r->pre.low) fail("C06", "first-wrong", "%s/oldest: first message is %llu, older than the oldest available %llu", how, (unsigned long long)b, (unsigned long long)r->pre.low);
          if (!displaced_before && !(r->o.iter == A0_ITER_NEWEST && newest))
            fail("C06", "first-wrong", "%s/oldest: first message is %llu but the oldest is %llu", how, (unsigned long long)b, (unsigned long long)now.low);
          break;
        case A0_INIT_MOST_RECENT:
          if (!r->pre.empty() && b < r->pre.high)
            fail("C06", "first-wrong", "%s/most-recent: first message is %llu, newest at creation was %llu", how, (unsigned long long)b, (unsigned long long)r->pre.high);
          if (!(b <= hpost && !r->pre.empty()) && !displaced_before && !(r->o.iter == A0_ITER_NEWEST && newest) && !(b <= hpost))
            fail("C06", "first-wrong", "%s/most-recent: first message %llu skips available ones (newest at creation %llu, oldest %llu)", how, (unsigned long long)b, (unsigned long long)hpost,
                 (unsigned long long)now.low);
          break;
        default:
          if (b <= r->pre.high) fail("C06", "first-wrong", "%s/await-new: first message is %llu, already there when the reader was created (newest %llu)", how, (unsigned long long)b, (unsigned long long)r->pre.high);
          if (b > hpost + 1 && !displaced_before && !(r->o.iter == A0_ITER_NEWEST && newest))
            fail("C06", "first-wrong", "%s/await-new: first message %llu skips available ones (newest at creation %llu, oldest %llu)", how, (unsigned long long)b, (unsigned long long)hpost,
                 (unsigned long long)now.low);
      }
    } else {
      if (b == r->last) fail("C06", "delivered-twice", "%s: message %llu delivered twice", how, (unsigned long long)b);
      if (b < r->last) fail("C06", "went-backwards", "%s: message %llu delivered after %llu", how, (unsigned long long)b, (unsigned long long)r->last);
      if (r->o.iter == A0_ITER_NEXT) {
        if (b != r->last + 1 && !displaced_before)
          fail("C06", "skipped", "%s: message %llu delivered after %llu although %llu is the oldest available", how, (unsigned long long)b, (unsigned long long)r->last,
               (unsigned long long)now.low);
        if (b != r->last + 1) mark("skip_displaced");
      } else {
        if (!newest) fail("C06", "not-newest", "%s: message %llu delivered while %llu was the newest", how, (unsigned long long)b, (unsigned long long)(locked ? now.high : r->floor));
      }
    }
    r->last = b;
    r->fails_seen = r->al.fails;
    r->got++;
    mark("delivered");
    state_sig(hash_mem(&now, sizeof now) ^ (b * 31 + r->kind * 7 + r->o.init * 3 + r->o.iter));
  }
  void check_headers(a0_flat_packet_t fp, Rec& rec) {
    a0_packet_stats_t st;
    a0_flat_packet_stats(fp, &st);
    if ((int)st.num_hdrs < rec.nhdr) fail("C06", "torn-message", "packet %llu lost headers", (unsigned long long)rec.n);
    bool found = rec.nhdr == 0;
    for (size_t i = 0; i < st.num_hdrs; i++) {
      a0_packet_header_t h;
      a0_flat_packet_header(fp, i, &h);
      if (!strcmp(h.key, "key") && !strcmp(h.val, "val")) found = true;
    }
    if (!found) fail("C06", "torn-message", "headers of packet %llu damaged", (unsigned long long)rec.n);
  }
  static void zc_cb(void* ud, a0_transport_locked_t lk, a0_flat_packet_t fp) {
    Cb cb;
    R* r = (R*)ud;
    RdScen* S = r->S;
    if (r->closed) fail("C08", "callback-after-close", "zero-copy callback runs after the close returned");
    r->in_cb = true;
    if (fp.buf.size < 53) fail("C06,C01", "torn-message", "delivered packet of %zu bytes", fp.buf.size);
    u64 seq = frame_seq(lk);
    a0_uuid_t* id;
    a0_flat_packet_id(fp, &id);
    a0_buf_t pl;
    a0_flat_packet_payload(fp, &pl);
    Rec& rec = S->T.received((const char*)*id, pl.data, pl.size, seq, "zero-copy");
    S->check_headers(fp, rec);
    Span now;
    a0_transport_seq_low(lk, &now.low);
    a0_transport_seq_high(lk, &now.high);
    note("reader got message %llu (zero-copy)", (unsigned long long)seq);
    S->check(r, seq, true, now);
    S->own_close(r);
    for (int k = trng().range(0, 2); k > 0; k--) yield();
    // still under the lock: nothing may have changed
    S->T.received((const char*)*id, pl.data, pl.size, seq, "zero-copy, end of callback");
    r->in_cb = false;
  }
  void pkt_check(R* r, const a0_packet_t& p) {
    Rec& rec = T.received((const char*)p.id, p.payload.data, p.payload.size, 0, "copied");
    if ((int)p.headers_block.size < rec.nhdr) fail("C06", "torn-message", "packet %llu lost headers", (unsigned long long)rec.n);
    for (size_t i = 0; i < p.headers_block.size; i++)
      if (strnlen(p.headers_block.headers[i].key, 64) > 40) fail("C06", "torn-message", "header key damaged");
    note("reader got message %llu (copied)", (unsigned long long)rec.seq);
    check(r, rec.seq, false, peek(r->arena.buf.data, r->arena.buf.size));
  }
  static void pk_cb(void* ud, a0_packet_t p) {
    Cb cb;
    R* r = (R*)ud;
    if (r->closed) fail("C08", "callback-after-close", "callback runs after the close returned");
    r->in_cb = true;
    r->S->pkt_check(r, p);
    r->S->own_close(r);
    for (int k = trng().range(0, 3); k > 0; k--) yield();
    if (r->closed) fail("C08", "close-during-callback", "close returned while a callback was running");
    r->floor = peek(r->arena.buf.data, r->arena.buf.size).high;
    r->in_cb = false;
  }

  // Reads messages by their remembered place in the channel, live or displaced meanwhile.
  struct Ra {
    RdScen* S;
    u64 seq;
    size_t off;
    int calls;
  };
  static void ra_cb(void* ud, a0_transport_locked_t lk, a0_flat_packet_t fp) {
    Cb cb;
    Ra* x = (Ra*)ud;
    x->calls++;
    Span now;
    a0_transport_seq_low(lk, &now.low);
    a0_transport_seq_high(lk, &now.high);
    if (x->seq >= now.low) {
      a0_uuid_t* id;
      a0_flat_packet_id(fp, &id);
      a0_buf_t pl;
      a0_flat_packet_payload(fp, &pl);
      x->S->T.received((const char*)*id, pl.data, pl.size, x->seq, "random access");
      mark("random_access_live");
      return;
    }
    u64 fseq = frame_seq(lk);
    if (fseq >= now.low && fseq <= now.high) {
      // The place was written again since (possibly by somebody who died): not judged.
      mark("random_access_reused");
      return;
    }
    // Displaced: allowed only if another live message now starts at that place.
    for (a0_err_t e = a0_transport_jump_head(lk); !e; e = a0_transport_step_next(lk)) {
      a0_transport_frame_t* f = nullptr;
      if (a0_transport_frame(lk, &f)) break;
      if (f->hdr.off == x->off && f->data == fp.buf.data) {
        mark("random_access_reused");
        return;
      }
      if (f->hdr.off < x->off && x->off < f->hdr.off + sizeof(a0_transport_frame_hdr_t) + f->hdr.data_size) return;  // inside a live message: not judged
    }
    if (fp.buf.size >= 53) {
      a0_uuid_t* id;
      a0_flat_packet_id(fp, &id);
      u64 n = TopicModel::num_of((const char*)*id);
      if (n) fail("C20", "displaced-visible", "random access delivered message %llu, which was displaced (oldest is %llu)", (unsigned long long)x->seq, (unsigned long long)now.low);
    }
  }
  void random_main() {
    Rng& r = trng();
    a0_file_t f = open_file(kPath, fsize);
    a0_transport_t* t = palloc<a0_transport_t>();
    A(a0_transport_init(t, f.arena));
    std::vector<std::pair<u64, size_t>> known;
    for (int i = r.range(3, 12); i > 0; i--) {
      for (int k = r.range(0, 6); k > 0; k--) yield();
      if (r.chance(0.5) || known.empty()) {
        a0_transport_locked_t lk;
        cb_depth(1);
        A(a0_transport_lock(t, &lk));
        for (a0_err_t e = a0_transport_jump_head(lk); !e; e = a0_transport_step_next(lk)) {
          a0_transport_frame_t* fr = nullptr;
          if (a0_transport_frame(lk, &fr)) break;
          known.push_back({fr->hdr.seq, fr->hdr.off});
        }
        cb_depth(-1);
        A(a0_transport_unlock(lk));
        continue;
      }
      auto k = known[r.below(known.size())];
      if (r.chance(0.1)) {
        size_t o = r.chance(0.3) ? ~(size_t)15 - 16 * r.below(20) : r.chance(0.3) ? 16 * r.below(workspace_off() / 16) : r.chance(0.5) ? fsize + 16 * r.below(50) : k.second + 1 + r.below(15);
        Ra x{this, ~0ull, o, 0};
        a0_err_t e = A(a0_read_random_access(f.arena, o, (a0_zero_copy_callback_t{&x, [](void* ud, a0_transport_locked_t, a0_flat_packet_t) { ((Ra*)ud)->calls++; }})));
        if (!e || x.calls) fail("C20", "access-outside", "random access to place %zu of a channel of %zu bytes is not refused", o, fsize);
        mark("random_access_outside");
        continue;
      }
      Ra x{this, k.first, k.second, 0};
      a0_zero_copy_callback_t cb{&x, ra_cb};
      Span s0 = peek(f.arena.buf.data, f.arena.buf.size);
      a0_err_t e;
      if (r.chance(0.25))
        e = X([&]() {
          a0::read_random_access(a0::File(kPath, cx_file_opts(fsize)), k.second, [&x](a0::TransportLocked lk, a0::FlatPacket fp) { ra_cb(&x, *lk.c, *fp.c); });
        });
      else
        e = A(a0_read_random_access(f.arena, k.second, cb));
      Span s1 = peek(f.arena.buf.data, f.arena.buf.size);
      (void)s0;
      if (e && x.calls) fail("C20", "error-with-message", "random access delivered and failed");
      if (!e && !x.calls) fail("C20", "success-without-message", "random access reported success without delivering");
      if (e && s1.low <= k.first) fail("C20,C06", "random-access-refused", "random access to live message %llu was refused: %d/%d", (unsigned long long)k.first, (int)e, syserr(e));
      if (e) mark("random_access_refused");
    }
  }

  void reader_main(int kind) {
    Rng& r = trng();
    int rounds = r.range(1, 2);
    for (int i = 0; i < rounds; i++) {
      for (int k = r.range(0, 10); k > 0; k--) yield();
      if (r.chance(0.2)) sleep_ns(r.below(400000));
      if (!reader_once(kind, r)) return;
    }
  }
  bool reader_once(int kind, Rng& r) {
    R* x = new R();
    rs.push_back(x);
    x->S = this;
    x->kind = kind;
    x->sub = r.chance(0.4);
    x->o.init = (a0_reader_init_t)r.range(0, 2);
    x->o.iter = (a0_reader_iter_t)(r.chance(0.65) ? 0 : 1);
    x->owner = cur_thread();
    x->p = cur_proc();
    x->cpp = !allocf && r.chance(0.25);
    if (allocf) x->al.p_fail = r.pick({0.1, 0.3, 0.6});
    a0_file_t f = open_file(kPath, fsize);
    x->arena = f.arena;
    a0_file_options_t o = fo();
    a0_pubsub_topic_t tp{kTopic, &o};
    a0_err_t e = A0_OK;
    a0_zero_copy_callback_t zc{x, zc_cb};
    a0_packet_callback_t pc{x, pk_cb};
    void* ob = nullptr;
    e = until_open("C08,C06", [&]() {
      x->pre = peek(f.arena.buf.data, f.arena.buf.size);
      x->floor = x->pre.high;
      note("open reader kind %d init %d iter %d (live %llu..%llu)", kind, (int)x->o.init, (int)x->o.iter, (unsigned long long)x->pre.low, (unsigned long long)x->pre.high);
#define INIT(TYPE, CALL)            \
  do {                              \
    auto* q = palloc<TYPE>();       \
    ob = x->obj = q;                \
    e = A(CALL);                    \
  } while (0)
      if (x->cpp)
        e = X([&]() { ob = x->obj = cx_open(x); });
      else switch (kind + (x->sub ? 4 : 0)) {
        case 0: INIT(a0_reader_sync_zc_t, a0_reader_sync_zc_init(q, f.arena, x->o)); break;
        case 1: INIT(a0_reader_sync_t, a0_reader_sync_init(q, f.arena, x->al.get(), x->o)); break;
        case 2: INIT(a0_reader_zc_t, a0_reader_zc_init(q, f.arena, x->o, zc)); break;
        case 3: INIT(a0_reader_t, a0_reader_init(q, f.arena, x->al.get(), x->o, pc)); break;
        case 4: INIT(a0_subscriber_sync_zc_t, a0_subscriber_sync_zc_init(q, tp, x->o)); break;
        case 5: INIT(a0_subscriber_sync_t, a0_subscriber_sync_init(q, tp, x->al.get(), x->o)); break;
        case 6: INIT(a0_subscriber_zc_t, a0_subscriber_zc_init(q, tp, x->o, zc)); break;
        case 7: INIT(a0_subscriber_t, a0_subscriber_init(q, tp, x->al.get(), x->o, pc)); break;
      }
      return e;
    });
    if (e) fail("C06", "open-fails", "opening a reader failed: %d/%d", (int)e, syserr(e));
    if (!x->post_ok) {
      x->post = peek(f.arena.buf.data, f.arena.buf.size);
      x->post_ok = true;
    }
    x->init_ok = true;
    if (kind < 2) {
      sync_reads(x, ob, r);
      if (r.chance(0.7)) {
        x->closing = true;
        if (x->cpp)
          cx_close(x);
        else switch (kind + (x->sub ? 4 : 0)) {
          case 0: e = A(a0_reader_sync_zc_close((a0_reader_sync_zc_t*)ob)); break;
          case 1: e = A(a0_reader_sync_close((a0_reader_sync_t*)ob)); break;
          case 4: e = A(a0_subscriber_sync_zc_close((a0_subscriber_sync_zc_t*)ob)); break;
          case 5: e = A(a0_subscriber_sync_close((a0_subscriber_sync_t*)ob)); break;
        }
        x->closed = true;
        if (e) fail("C08", "close-fails", "close returned %d", (int)e);
        if (!x->cpp) pfree((char*)ob);
        check_kept(x);
      }
      return true;
    }
    if (closes && r.chance(0.75)) {
      for (int k = r.pick({0, 1, 4, 20, 60}); k > 0; k--) yield();
      if (r.chance(0.3)) sleep_ns(r.below(800000));
      close_threaded(x);
      return true;
    }
    return r.chance(0.3);
  }
  a0_err_t close_c(R* x) {
    void* ob = x->obj;
    switch (x->kind + (x->sub ? 4 : 0)) {
      case 2: return A(a0_reader_zc_close((a0_reader_zc_t*)ob));
      case 3: return A(a0_reader_close((a0_reader_t*)ob));
      case 6: return A(a0_subscriber_zc_close((a0_subscriber_zc_t*)ob));
      case 7: return A(a0_subscriber_close((a0_subscriber_t*)ob));
    }
    return A0_OK;
  }
  void own_close(R* x) {
    if (x->cpp || x->kind < 2 || !trng().chance(0.03)) return;
    note("closing reader from its callback");
    refused_close(close_c(x));
  }
  void close_threaded(R* x) {
    if (x->closing) return;
    x->closing = true;
    note("closing reader");
    a0_err_t e = A0_OK;
    void* ob = x->obj;
    if (x->cpp)
      cx_close(x);
    else
      e = close_c(x);
    note("reader closed");
    if (e) fail("C08", "close-fails", "close returned %d/%d", (int)e, syserr(e));
    if (x->in_cb) fail("C08", "close-during-callback", "close returned while a callback is running");
    x->closed = true;
    if (!x->al.out.empty()) fail("C08,C06", "leak", "closed reader did not give back %zu buffers", x->al.out.size());
    if (!x->cpp) pfree((char*)ob);
    check_kept(x);
    mark("closed_running_reader");
  }
  // The same through the C++ interface. The file is left to the reader.
  typedef std::function<void(a0::TransportLocked, a0::FlatPacket)> CxZc;
  CxZc cx_zc(R* x) {
    return [x](a0::TransportLocked lk, a0::FlatPacket fp) { zc_cb(x, *lk.c, *fp.c); };
  }
  void* cx_open(R* x) {
    auto zc = cx_zc(x);
    auto pc = [x](a0::Packet p) {
      {
        Cb cb;
        x->kept.push_back(Kept(p));
      }
      pk_cb(x, *p.c);
    };
    a0::Reader::Options o = cx_reader_opts(x->o);
    a0::PubSubTopic t(kTopic, cx_file_opts(fsize));
    switch (x->kind + (x->sub ? 4 : 0)) {
      case 0: return new a0::ReaderSyncZeroCopy(a0::File(kPath, cx_file_opts(fsize)), o);
      case 1: return new a0::ReaderSync(a0::File(kPath, cx_file_opts(fsize)), o);
      case 2: return new a0::ReaderZeroCopy(a0::File(kPath, cx_file_opts(fsize)), o, zc);
      case 3: return new a0::Reader(a0::File(kPath, cx_file_opts(fsize)), o, pc);
      case 4: return new a0::SubscriberSyncZeroCopy(t, o);
      case 5: return new a0::SubscriberSync(t, o);
      case 6: return new a0::SubscriberZeroCopy(t, o, zc);
      default: return new a0::Subscriber(t, o, pc);
    }
  }
  void cx_close(R* x) {
    void* ob = x->obj;
    Api g;
    switch (x->kind + (x->sub ? 4 : 0)) {
      case 0: delete (a0::ReaderSyncZeroCopy*)ob; break;
      case 1: delete (a0::ReaderSync*)ob; break;
      case 2: delete (a0::ReaderZeroCopy*)ob; break;
      case 3: delete (a0::Reader*)ob; break;
      case 4: delete (a0::SubscriberSyncZeroCopy*)ob; break;
      case 5: delete (a0::SubscriberSync*)ob; break;
      case 6: delete (a0::SubscriberZeroCopy*)ob; break;
      default: delete (a0::Subscriber*)ob; break;
    }
  }
  void check_kept(R* x) {
    for (Kept& k : x->kept)
      if (!k.intact()) fail("C06", "kept-message-altered", "a message the program has kept has other content now");
  }
  template <typename Z>
  a0_err_t cx_read_zc(Z* z, R* x, int how, u64 dl) {
    CxZc f = cx_zc(x);
    a0::TimeMono tm = cx_mono(dl);
    if (how == 0 || how == 3) return X([&]() { z->read(f); });
    if (how == 1) return X([&]() { z->read_blocking(f); });
    return XT(dl, ([&]() { z->read_blocking(tm, f); }));
  }
  template <typename S>
  a0_err_t cx_read(S* s, R* x, int how, u64 dl, a0_packet_t* p) {
    a0::TimeMono tm = cx_mono(dl);
    a0::Packet* o = nullptr;
    a0_err_t e;
    if (how == 0 || how == 3)
      e = X([&]() { o = new a0::Packet(s->read()); });
    else if (how == 1)
      e = X([&]() { o = new a0::Packet(s->read_blocking()); });
    else
      e = XT(dl, ([&]() { o = new a0::Packet(s->read_blocking(tm)); }));
    if (!e) {
      *p = *o->c;
      x->kept.push_back(Kept(*o));
    }
    return e;
  }
  u64 base(R* x) { return x->got ? x->last : x->o.init == A0_INIT_AWAIT_NEW ? (x->post_ok ? x->post.high : ~0ull) : 0; }

  void sync_reads(R* x, void* ob, Rng& r) {
    int n = r.range(1, 8);
    a0_zero_copy_callback_t zc{x, zc_cb};
    for (int i = 0; i < n; i++) {
      for (int k = r.range(0, 4); k > 0; k--) yield();
      Span s0 = peek(x->arena.buf.data, x->arena.buf.size);
      x->floor = s0.high;
      int d0 = deaths;
      u64 base0 = base(x), got0 = x->got, fails0 = x->al.fails;
      int how = r.range(0, 3);
      a0_err_t e = A0_OK;
      a0_packet_t p;
      memset(&p, 0, sizeof p);
      u64 dl = vary_deadline(r, boot_ns() + (r.chance(0.1) ? 0 : r.below(r.chance(0.5) ? 40000 : 2000000)));
      a0_time_mono_t tm = mono_at(dl);
      a0_reader_sync_zc_t* z = (a0_reader_sync_zc_t*)ob;
      a0_reader_sync_t* s = (a0_reader_sync_t*)ob;
      a0_subscriber_sync_zc_t* sz = (a0_subscriber_sync_zc_t*)ob;
      a0_subscriber_sync_t* ss = (a0_subscriber_sync_t*)ob;
      int v = x->kind + (x->sub ? 2 : 0);
      bool avail0 = !s0.empty() && s0.high > base0;
      if (how == 3 || how == 0) {
        bool can = false;
        a0_err_t ce = x->cpp ? X([&]() {
          can = v == 0   ? ((a0::ReaderSyncZeroCopy*)ob)->can_read()
                : v == 1 ? ((a0::ReaderSync*)ob)->can_read()
                : v == 2 ? ((a0::SubscriberSyncZeroCopy*)ob)->can_read()
                         : ((a0::SubscriberSync*)ob)->can_read();
        })
                      : v == 0 ? A(a0_reader_sync_zc_can_read(z, &can)) : v == 1 ? A(a0_reader_sync_can_read(s, &can)) : v == 2 ? A(a0_subscriber_sync_zc_can_read(sz, &can))
                                                                                                                             : A(a0_subscriber_sync_can_read(ss, &can));
        if (ce) fail("C06", "can-read-fails", "can_read returned %d", (int)ce);
        Span s1 = peek(x->arena.buf.data, x->arena.buf.size);
        if (can && s1.high <= (x->got ? x->last : x->o.init == A0_INIT_AWAIT_NEW ? x->pre.high : 0) && !deaths)
          fail("C06", "can-read-wrong", "can_read says yes but nothing newer than %llu exists", (unsigned long long)base0);
        if (!can && avail0 && !deaths && x->al.fails == x->fails_seen) fail("C06,C07", "can-read-wrong", "can_read says no but message %llu is newer than %llu", (unsigned long long)s0.high, (unsigned long long)base0);
        s0 = s1;
        x->floor = s0.high;
        avail0 = !s0.empty() && s0.high > base0;
      }
      note("read how=%d", how);
      if (x->cpp) {
        x->blocked_read = how == 1;
        e = v == 0   ? cx_read_zc((a0::ReaderSyncZeroCopy*)ob, x, how, dl)
            : v == 1 ? cx_read((a0::ReaderSync*)ob, x, how, dl, &p)
            : v == 2 ? cx_read_zc((a0::SubscriberSyncZeroCopy*)ob, x, how, dl)
                     : cx_read((a0::SubscriberSync*)ob, x, how, dl, &p);
        x->blocked_read = false;
      } else if (how == 0 || how == 3) {
        e = v == 0 ? A(a0_reader_sync_zc_read(z, zc)) : v == 1 ? A(a0_reader_sync_read(s, &p)) : v == 2 ? A(a0_subscriber_sync_zc_read(sz, zc)) : A(a0_subscriber_sync_read(ss, &p));
      } else if (how == 1) {
        x->blocked_read = true;
        e = v == 0 ? A(a0_reader_sync_zc_read_blocking(z, zc)) : v == 1 ? A(a0_reader_sync_read_blocking(s, &p)) : v == 2 ? A(a0_subscriber_sync_zc_read_blocking(sz, zc))
                                                                                                                      : A(a0_subscriber_sync_read_blocking(ss, &p));
        x->blocked_read = false;
      } else {
        e = v == 0 ? AT(dl, a0_reader_sync_zc_read_blocking_timeout(z, &tm, zc))
                   : v == 1 ? AT(dl, a0_reader_sync_read_blocking_timeout(s, &tm, &p))
                            : v == 2 ? AT(dl, a0_subscriber_sync_zc_read_blocking_timeout(sz, &tm, zc)) : AT(dl, a0_subscriber_sync_read_blocking_timeout(ss, &tm, &p));
      }
      note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
      if (!e) {
        if (x->kind == 1) {
          if (x->al.fails != fails0) fail("C20", "alloc-failure-hidden", "read reported success although the caller's allocator failed");
          pkt_check(x, p);
          x->al.clear();
        } else if (x->got == got0) {
          fail("C06,C09", "success-without-message", "read returned success without delivering");
        }
        continue;
      }
      if (x->kind != 1 && x->got != got0) fail("C06", "error-with-message", "a message was delivered but the read returned %d/%d", (int)e, syserr(e));
      if (x->kind == 1 && x->al.fails != fails0) {
        if (syserr(e) != ENOMEM) fail("C20", "alloc-failure-hidden", "read returned %d/%d instead of the allocator's error", (int)e, syserr(e));
        mark("alloc_failure_reported");
        continue;
      }
      if ((how == 0 || how == 3) && e == A0_ERR_AGAIN) {
        if (avail0 && d0 == deaths && !deaths && x->al.fails == x->fails_seen)
          fail("C06,C07", "read-misses-message", "read found nothing although message %llu is newer than %llu", (unsigned long long)s0.high, (unsigned long long)base0);
        mark("read_again");
      } else if (how == 2 && syserr(e) == ETIMEDOUT) {
        if (boot_ns() < dl) fail("C09", "early-timeout", "blocking read gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
        mark("read_timeout");
      } else {
        fail("C06,C07,C09", "read-fails", "read returned %d/%d", (int)e, syserr(e));
      }
    }
  }

  void settle_check() {
    for (R* x : rs) {
      if (!x->init_ok || x->closing || x->p->dead || x->p->dying) continue;
      if (x->p->killed) continue;
      Span s = peek(x->arena.buf.data, x->arena.buf.size);
      if (s.empty()) continue;
      bool waiting = x->kind >= 2 || x->blocked_read;
      if (!waiting) continue;
      if (x->al.fails != x->fails_seen) continue;
      if (s.high > base(x))
        fail("C07", "not-delivered", "reader kind %d (init %d, iter %d) last got %llu but %llu is available and nobody writes any more", x->kind, (int)x->o.init, (int)x->o.iter,
             (unsigned long long)x->last, (unsigned long long)s.high);
      mark("settled_readers");
    }
  }
  bool finish = false;
  bool idle(int stage) override {
    for (Thread* t : closers)
      if (!thread_done(t)) fail("C08", "close-stuck", "closing a reader does not return");
    if (insp && !thread_done(insp)) fail("C03,C01", "lock-stuck", "a fresh process cannot use the channel");
    for (Thread* t : wthreads)
      if (!thread_done(t)) fail("C03,C07,C20", "stuck", "writer %s is blocked", thread_name(t));
    for (R* x : rs)
      if (x->closing && !x->closed && !x->p->dead && !x->p->dying) fail("C08", "close-stuck", "closing reader kind %d does not return", x->kind);
    if (stage <= 1) settle_check();
    if (stage == 0) {
      Proc* p = new_proc("insp");
      p->killable = false;
      insp = spawn(p, "chk", [this]() {
        a0_file_t f = open_file(kPath, fsize);
        a0_writer_t* w = palloc<a0_writer_t>();
        AV(a0_writer_init(w, f.arena));
        audit(f.arena);
        AV(a0_writer_push(w, T.middleware()));
        a0_packet_t pk;
        memset(&pk, 0, sizeof pk);
        Rec& rec = T.start(10);
        u64 n = rec.n;
        TopicModel::id_of(n, pk.id);
        pk.payload.data = (uint8_t*)rec.data.data();
        pk.payload.size = 10;
        a0_err_t e = A(a0_writer_write(w, pk));
        T.done(T.recs[n], e);
        if (e) fail("C01,C20", "write-refused", "write after everything settled failed");
        audit(f.arena);
      });
      return true;
    }
    if (stage == 1) {
      // close what still runs
      for (R* x : rs)
        if (x->init_ok && x->kind >= 2 && !x->closing && !x->p->dead && !x->p->dying)
          closers.push_back(spawn(x->p, "closer", [this, x]() { close_threaded(x); }));
      return true;
    }
    if (!finish) {
      finish = true;
      return true;
    }
    return false;
  }
  void audit(a0_arena_t ar) {
    a0_transport_t* t = palloc<a0_transport_t>();
    A(a0_transport_init(t, ar));
    a0_transport_locked_t lk;
    cb_depth(1);
    A(a0_transport_lock(t, &lk));
    Span s;
    a0_transport_seq_low(lk, &s.low);
    a0_transport_seq_high(lk, &s.high);
    for (auto& kv : T.at)
      if (kv.first > s.high) fail("C01,C20", "committed-lost", "message %llu was committed but the newest is %llu", (unsigned long long)kv.first, (unsigned long long)s.high);
    if (!s.empty()) {
      a0_transport_jump_head(lk);
      std::vector<std::vector<std::pair<std::string, std::string>>> hs;
      for (u64 q = s.low; q <= s.high; q++) {
        a0_transport_frame_t* f = nullptr;
        if (a0_transport_frame(lk, &f) || f->hdr.seq != q) fail("C01,C05", "walk-broken", "message %llu cannot be read", (unsigned long long)q);
        if (f->hdr.data_size < 53) fail("C01,C20", "garbage-committed", "message %llu of %zu bytes is not a packet", (unsigned long long)q, (size_t)f->hdr.data_size);
        a0_flat_packet_t fp{{f->data, f->hdr.data_size}};
        a0_uuid_t* id;
        a0_flat_packet_id(fp, &id);
        a0_buf_t pl;
        a0_flat_packet_payload(fp, &pl);
        Rec& rec = T.received((const char*)*id, pl.data, pl.size, q, "audit");
        check_headers(fp, rec);
        bool nx = false;
        a0_transport_has_next(lk, &nx);
        if (nx) a0_transport_step_next(lk);
      }
    }
    cb_depth(-1);
    A(a0_transport_unlock(lk));
    mark("audits");
  }
};
struct RdAllocScen : RdScen {
  RdAllocScen() : RdScen(true) {}
};
SCENARIO("rd", RdScen)
SCENARIO("rdalloc", RdAllocScen)
}  // namespace
