// Configuration: C14.
#include <a0/cfg.h>
#include <a0/cfg.hpp>

#include "cxx.h"
#include "walk.h"

namespace {

// Objects of numbers, one level deep: "k" and "o.k" to number.
typedef std::map<std::string, long> Conf;

struct Parse {
  const std::string& s;
  size_t i = 0;
  bool bad = false;
  explicit Parse(const std::string& x) : s(x) {}
  bool eat(char c) {
    if (i < s.size() && s[i] == c) {
      i++;
      return true;
    }
    return false;
  }
  void obj(Conf& o, const std::string& pre) {
    if (!eat('{')) {
      bad = true;
      return;
    }
    if (eat('}')) {
      o[pre + "{}"] = 0;
      return;
    }
    do {
      if (!eat('"')) bad = true;
      std::string k;
      while (i < s.size() && s[i] != '"') k += s[i++];
      if (!eat('"') || !eat(':')) bad = true;
      if (bad) return;
      if (i < s.size() && s[i] == '{') {
        obj(o, pre + k + ".");
      } else {
        char* e = nullptr;
        long v = strtol(s.c_str() + i, &e, 10);
        if (e == s.c_str() + i) {
          if (s.compare(i, 4, "null")) bad = true;
          v = -1;
          e = (char*)s.c_str() + i + 4;
        }
        i = e - s.c_str();
        if (o.count(pre + k)) bad = true;
        o[pre + k] = v;
      }
      if (bad) return;
    } while (eat(','));
    if (!eat('}')) bad = true;
  }
};

struct CfgScen : Scenario {
  enum { WRITE, FIRST, PATCH, BADPATCH, HUGE_, READ, READB, READT };
  struct Op {
    u64 n = 0;
    int kind = 0;
    std::string text;
    std::map<std::string, long> set;   // -1: remove
    u64 t_done = 0;
    int st = 0;                        // 0 begun, 1 succeeded, 2 refused or not written
    u64 seq = 0;                       // where it was found in the channel
  };
  struct Watch {
    CfgScen* S;
    Proc* p;
    a0_cfg_watcher_t* w = nullptr;
    TestAlloc al;
    bool cpp = false;                  // uses the C++ interface
    std::vector<Kept> kept;
    bool open = false, closed = false;
    u64 last = 0;
    int calls = 0;
  };
  size_t size = 0;
  const char* path = "/dev/shm/alephzero/t.cfg.a0";
  u64 next = 1, last_seq = 0;
  bool gap = false, any = false;
  Conf cur;                            // content of the newest message seen
  std::string cur_text;
  std::map<u64, Op*> ops;
  std::map<u64, u64> at;               // sequence number to operation
  std::vector<Watch*> ws;
  std::vector<Thread*> all;
  int nops = 0;
  u64 base = 0;                        // newest sequence number when the channel was cleared, before anything else
  bool ready = true;
  size_t longkey = 0;                  // some keys are this long
  int others = 0;
  int weights[8];
  bool finish = false, helped = false;
  int again = 0;

  void setup() override {
    Rng& r = cfg_rng();
    swarm(cfg, 0.6);
    thread_faults(cfg);
    cfg.fault_steps = 80000;
    set_generic_props("C14,C08,C09");
    no_locks_after_calls("C14,C20,C03");
    size = r.pick({4096, 8192, 65536, 65536});
    nops = r.range(1, 6);
    if (size == 65536 && r.chance(0.3)) longkey = r.pick({100, 300, 600});
    for (int& w : weights) w = r.pick({0, 1, 3});
    weights[r.pick({(int)PATCH, (int)FIRST, (int)PATCH})] = 5;
    int np = r.range(1, 4), nw = r.range(0, 2);
    if (r.chance(0.2)) {
      base = r.range(1, 3);
      ready = false;
      Proc* p = new_proc("old");
      p->killable = false;
      all.push_back(spawn(p, "o", [this]() { cleared(); }));
    }
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* p = new_proc(n);
      int nt = r.range(1, 2);
      if (r.chance(0.2)) all.push_back(spawn(p, "e", [this]() { elsewhere(); }));
      all.push_back(spawn(p, "c", [this, nt]() { user(nt); }));
    }
    for (int i = 0; i < nw; i++) {
      Watch* w = new Watch();
      w->S = this;
      w->p = new_proc("w");
      w->cpp = r.chance(0.3);
      ws.push_back(w);
      all.push_back(spawn(w->p, "w", [this, w]() { watcher(w); }));
    }
  }
  a0_cfg_topic_t topic() {
    a0_file_options_t* o = palloc<a0_file_options_t>();
    *o = file_opts(size);
    return a0_cfg_topic_t{"t", o};
  }
  static a0_err_t clear(a0_transport_t* t) {
    a0_transport_locked_t lk;
    a0_err_t e = a0_transport_lock(t, &lk);
    if (e) return e;
    e = a0_transport_clear(lk);
    a0_transport_unlock(lk);
    return e;
  }
  // A config that is empty because its channel was cleared.
  void cleared() {
    NoSysFault nsf;
    a0_cfg_t* c = palloc<a0_cfg_t>();
    a0_err_t e = A(a0_cfg_init(c, topic()));
    for (u64 k = 0; !e && k < base; k++) {
      a0_packet_t p;
      memset(&p, 0, sizeof p);
      TopicModel::id_of(next++, p.id);
      p.payload.data = (uint8_t*)"{\"z\":1}";
      p.payload.size = 7;
      e = A(a0_cfg_write(c, p));
    }
    a0_file_t* f = palloc<a0_file_t>();
    a0_file_options_t o = file_opts(size);
    a0_transport_t* t = palloc<a0_transport_t>();
    if (!e) e = A(a0_file_open("t.cfg.a0", &o, f));
    if (!e) e = A(a0_transport_init(t, f->arena));
    if (!e) e = A(clear(t));
    if (e) fail("C14", "init-fails", "filling and clearing a channel failed with %d/%d", (int)e, syserr(e));
    A(a0_file_close(f));
    A(a0_cfg_close(c));
    pfree(c);
    pfree(f);
    pfree(t);
    last_seq = base;
    mark("cleared_before");
    ready = true;
  }
  struct H {
    a0_cfg_t* c = nullptr;
    a0::Cfg* x = nullptr;
    int busy = 0;
  };
  void user(int nt) {
    H* h = new H();
    a0_err_t e;
    block_forever_until([this]() { return ready; });
    if (trng().chance(0.3)) {
      e = X([&]() { h->x = new a0::Cfg(a0::CfgTopic("t", cx_file_opts(size))); });
    } else {
      h->c = palloc<a0_cfg_t>();
      e = A(a0_cfg_init(h->c, topic()));
    }
    if (e) fail("C14", "init-fails", "cfg init failed with %d/%d", (int)e, syserr(e));
    for (int i = 1; i < nt; i++) {
      h->busy++;
      all.push_back(spawn(cur_proc(), "t", [this, h]() {
        work(h);
        h->busy--;
      }));
    }
    work(h);
    block_forever_until([h]() { return !h->busy; });
    if (h->x) {
      AV(delete h->x);
      return;
    }
    A(a0_cfg_close(h->c));
    pfree(h->c);
  }
  std::string key(Rng& r) {
    std::string k(1, (char)('a' + r.below(5)));
    return longkey && r.chance(0.4) ? k + std::string(longkey, 'x') : k;
  }
  // A config of its own, used by nobody else.
  void elsewhere() {
    std::string name = "other" + std::to_string(others++);
    Rng& r = trng();
    a0_cfg_t* c = palloc<a0_cfg_t>();
    a0_file_options_t* o = palloc<a0_file_options_t>();
    *o = file_opts(8192);
    a0_err_t e = A(a0_cfg_init(c, (a0_cfg_topic_t{name.c_str(), o})));
    if (e) fail("C14", "init-fails", "cfg init failed with %d/%d", (int)e, syserr(e));
    std::string want;
    for (int k = 1; k <= nops; k++) {
      std::string t = "{\"k\":" + std::to_string(k) + "}";
      a0_packet_t p;
      memset(&p, 0, sizeof p);
      TopicModel::id_of(k, p.id);
      p.payload.data = (uint8_t*)t.data();
      p.payload.size = t.size();
      bool w = true;
      switch (r.below(3)) {
        case 0: e = A(a0_cfg_write(c, p)); break;
        case 1: e = A(a0_cfg_mergepatch(c, p)); break;
        default: e = A(a0_cfg_write_if_empty(c, p, &w));
      }
      if (e) fail("C14", "write-fails", "writing a config of its own failed with %d/%d", (int)e, syserr(e));
      if (!w && want.empty()) fail("C14", "first-writer", "the first config of its own was refused");
      if (w) want = t;
      TestAlloc* al = new TestAlloc();
      a0_packet_t out;
      e = A(a0_cfg_read(c, al->get(), &out));
      if (e) fail("C14", "read-fails", "reading a config of its own failed with %d/%d", (int)e, syserr(e));
      std::string got((const char*)out.payload.data, out.payload.size);
      if (got != want) fail("C14", "wrong-config", "a config of its own is '%s' instead of '%s'", got.c_str(), want.c_str());
      al->clear();
      mark("other_config");
    }
    A(a0_cfg_close(c));
    pfree(c);
    pfree(o);
  }
  // Text of a patch or a whole config with fresh values.
  void compose(Op* o, bool whole) {
    Rng& r = trng();
    std::string s = "{", in;
    long v = (long)o->n * 100;
    std::set<std::string> used;
    for (int k = r.range(1, 3); k > 0; k--) {
      std::string q = key(r);
      if (!used.insert(q).second) continue;
      if (s.size() > 1) s += ",";
      bool del = !whole && r.chance(0.25);
      s += "\"" + q + "\":" + (del ? "null" : std::to_string(++v));
      o->set[q] = del ? -1 : v;
    }
    if (r.chance(0.3)) {
      for (int k = r.range(1, 2); k > 0; k--) {
        std::string q = key(r);
        if (o->set.count("o." + q)) continue;
        bool del = !whole && r.chance(0.25);
        in += std::string(in.empty() ? "" : ",") + "\"" + q + "\":" + (del ? "null" : std::to_string(++v));
        o->set["o." + q] = del ? -1 : v;
      }
      s += ",\"o\":{" + in + "}";
    }
    o->text = s + "}";
  }
  static Conf merged(Conf c, const Op* o) {
    bool nested = false;
    for (auto& e : o->set) {
      if (!e.first.compare(0, 2, "o.")) nested = true;
      if (e.second < 0)
        c.erase(e.first);
      else
        c[e.first] = e.second;
    }
    if (nested) {
      // the inner object exists from now on, even if nothing is left in it
      c.erase("o.{}");
      bool have = false;
      for (auto& e : c) have |= !e.first.compare(0, 2, "o.");
      if (!have) c["o.{}"] = 0;
    }
    c.erase("{}");
    if (c.empty()) c["{}"] = 0;
    return c;
  }
  static Conf parsed(const std::string& t, const char* how) {
    Conf c;
    Parse p(t);
    p.obj(c, "");
    if (p.bad || p.i != t.size()) fail("C14,C01", "config-malformed", "%s: config is '%s'", how, t.c_str());
    return c;
  }
  void work(H* c) {
    Rng& r = trng();
    int sum = 0;
    for (int w : weights) sum += w;
    for (int k = 0; k < nops; k++) {
      for (int y = r.pick({0, 0, 1, 4, 20}); y > 0; y--) yield();
      int u = r.below(sum), kind = 0;
      while (u >= weights[kind]) u -= weights[kind++];
      if (kind >= READ)
        read(c, kind);
      else
        write(c, kind);
    }
  }
  Span now() {
    std::vector<unsigned char> b;
    if (!vfs_exists(path)) return Span();
    vfs_bytes(vfs_inode(path), b);
    if (b.size() != size) return Span();
    return walk(b.data(), b.size(), last_seq + 1, [this](Msg& m) { one(m); });
  }
  void one(Msg& m) {
    u64 n = TopicModel::num_of(m.id.c_str());
    if (!n || !ops.count(n)) fail("C14,C01", "invented-config", "the channel holds a config nobody wrote");
    Op* o = ops[n];
    note("channel %llu: operation %llu: %s", (unsigned long long)m.seq, (unsigned long long)n, m.data.c_str());
    if (o->seq) fail("C14,C01", "applied-twice", "operation %llu was applied twice", (unsigned long long)n);
    o->seq = m.seq;
    if (o->kind == BADPATCH || o->kind == HUGE_ || o->st == 2) {
      // an unparsable first patch is taken as it is
      if (o->kind != BADPATCH || m.seq != base + 1) fail("C14,C20", "refused-applied", "operation %llu was refused, but it is in the channel", (unsigned long long)n);
    }
    bool known = m.seq == last_seq + 1;
    if (o->kind == FIRST && m.seq != base + 1) fail("C14", "first-writer", "a write that needs an empty config was applied to one that is not empty");
    if (o->kind == WRITE || o->kind == FIRST || m.seq == base + 1) {
      if (m.data != o->text) fail("C14,C01", "config-altered", "operation %llu wrote '%s', the channel has '%s'", (unsigned long long)n, o->text.c_str(), m.data.c_str());
    } else if (known && !cur_text.empty()) {
      if (parsed(m.data, "channel") != merged(parsed(cur_text, "channel"), o))
        fail("C14", "wrong-merge", "'%s' merged with '%s' gave '%s'", cur_text.c_str(), o->text.c_str(), m.data.c_str());
      mark("merge_checked");
    }
    cur_text = m.data;
    last_seq = m.seq;
    at[m.seq] = n;
  }
  void write(H* h, int kind) {
    a0_cfg_t* c = h->c;
    Rng& r = trng();
    Op* o = new Op();
    o->n = next++;
    o->kind = kind;
    ops[o->n] = o;
    if (kind == BADPATCH)
      o->text = r.pick({"{\"a\":", "xx yy", "{\"a\" 1}", "[1,2"});
    else if (kind == HUGE_)
      o->text = "{\"a\":" + std::string(size, '1') + "}";
    else
      compose(o, kind != PATCH);
    a0_packet_t p;
    memset(&p, 0, sizeof p);
    TopicModel::id_of(o->n, p.id);
    p.payload.data = (uint8_t*)o->text.data();
    p.payload.size = o->text.size();
    Span s0 = now();
    note("operation %llu kind %d %s", (unsigned long long)o->n, kind, kind == HUGE_ ? "(huge)" : o->text.c_str());
    bool written = r.chance(0.5), was = written;
    bool tell = r.chance(0.8);
    a0_err_t e;
    bool plain = kind == WRITE || (kind == HUGE_ && o->n % 2);
    if (h->x && kind == FIRST) tell = true;
    if (h->x)
      e = X([&]() {
        a0::Packet q(p, nullptr);
        if (plain)
          h->x->write(q);
        else if (kind == FIRST)
          written = h->x->write_if_empty(q);
        else
          h->x->mergepatch(q);
      });
    else if (plain)
      e = A(a0_cfg_write(c, p));
    else if (kind == FIRST)
      e = A(a0_cfg_write_if_empty(c, p, tell ? &written : nullptr));
    else
      e = A(a0_cfg_mergepatch(c, p));
    note("  -> %d/%d %d", (int)e, syserr(e), written);
    (void)was;
    Span s1 = now();
    bool may_refuse = kind == BADPATCH || kind == HUGE_ || (kind == PATCH && ops.count(at[base + 1]) && ops[at[base + 1]]->kind == BADPATCH);
    if (e) {
      if (!may_refuse) fail("C14", "write-fails", "operation %llu failed with %d/%d", (unsigned long long)o->n, (int)e, syserr(e));
      if (o->seq) fail("C14,C20", "refused-applied", "operation %llu was reported as failed but was applied", (unsigned long long)o->n);
      o->st = 2;
      mark("refused");
    } else if (kind == FIRST && tell) {
      if (written && !s0.empty()) fail("C14", "first-writer", "operation %llu was told it wrote the first config, there was one before it began", (unsigned long long)o->n);
      if (!written && s1.empty()) fail("C14", "first-writer", "operation %llu was told there is a config, there is none", (unsigned long long)o->n);
      if (written && o->seq != base + 1) fail("C14", "first-writer", "operation %llu was told it wrote the first config, it did not", (unsigned long long)o->n);
      if (!written && o->seq) fail("C14", "first-writer", "operation %llu wrote the first config but was not told so", (unsigned long long)o->n);
      o->st = written ? 1 : 2;
      mark(written ? "first_written" : "first_refused");
    } else if (kind != FIRST) {
      o->st = 1;
      if (!o->seq && s1.low <= base + 1) fail("C14,C01,C20", "write-lost", "operation %llu succeeded but is not in the channel", (unsigned long long)o->n);
    }
    o->t_done = lclock();
  }
  void read(H* h, int kind) {
    a0_cfg_t* c = h->c;
    Rng& r = trng();
    TestAlloc* al = new TestAlloc();
    a0_packet_t out;
    memset(&out, 0, sizeof out);
    Span s0 = now();
    a0_err_t e;
    u64 dl = 0;
    a0::Packet* xo = nullptr;
    if (h->x) {
      if (kind == READT) dl = vary_deadline(r, boot_ns() + r.pick({1, 1000, 50000, 1000000}));
      a0::TimeMono tm = cx_mono(dl);
      e = XT(dl, ([&]() { xo = new a0::Packet(kind == READ ? h->x->read() : kind == READB ? h->x->read_blocking() : h->x->read_blocking(tm)); }));
      if (!e) out = *xo->c;
    } else if (kind == READ) {
      e = A(a0_cfg_read(c, al->get(), &out));
    } else if (kind == READB) {
      e = A(a0_cfg_read_blocking(c, al->get(), &out));
    } else {
      dl = vary_deadline(r, boot_ns() + r.pick({1, 1000, 50000, 1000000}));
      a0_time_mono_t tm = mono_at(dl);
      e = AT(dl, a0_cfg_read_blocking_timeout(c, al->get(), &tm, &out));
    }
    Span s1 = now();
    if (!e) {
      got(out, s0.high, s1.high, "read");
      mark("config_read");
    } else if (kind == READ && e == A0_ERR_AGAIN) {
      if (!s0.empty()) fail("C14", "config-not-found", "read found nothing although there is a config");
    } else if (kind == READT && syserr(e) == ETIMEDOUT) {
      if (boot_ns() < dl) fail("C09,C14", "early-timeout", "a timed read gave up %llu ns early", (unsigned long long)(dl - boot_ns()));
    } else {
      fail("C14", "read-fails", "read failed with %d/%d", (int)e, syserr(e));
    }
    al->clear();
  }
  u64 got(a0_packet_t p, u64 lo, u64 hi, const char* how) {
    Msg m = from_pkt(p);
    u64 n = TopicModel::num_of(m.id.c_str());
    if (!n || !ops.count(n)) fail("C14,C06", "invented-config", "%s: got a config nobody wrote", how);
    Op* o = ops[n];
    const std::string* ts = m.get("a0_transport_seq");
    u64 sq = ts ? strtoull(ts->c_str(), nullptr, 10) + 1 : 0;
    if (o->seq && sq != o->seq) fail("C14,C06", "wrong-config", "%s: sequence number differs", how);
    if (sq < lo || sq > hi || sq <= base) fail("C14,C06", "stale-config", "%s: got config number %llu, the newest was %llu when it began and %llu when it ended", how, (unsigned long long)sq, (unsigned long long)lo, (unsigned long long)hi);
    if (m.seq == last_seq && m.data != cur_text) fail("C14,C06", "wrong-config", "%s: content differs from the channel", how);
    if (sq == last_seq && m.data != cur_text) fail("C14,C06", "wrong-config", "%s: content differs from the channel", how);
    return sq;
  }
  static void on_config(void* ud, a0_packet_t p) {
    Cb cb;
    Watch* w = (Watch*)ud;
    w->S->notified(w, p);
    if (trng().chance(0.02)) refused_close(A(a0_cfg_watcher_close(w->w)));
  }
  void notified(Watch* w, a0_packet_t p) {
    if (w->closed) fail("C08,C14", "callback-after-close", "a watcher was notified after it was closed");
    Span s = now();
    u64 sq = got(p, base + 1, s.high, "watcher");
    note("watcher gets %llu", (unsigned long long)sq);
    if (sq <= w->last) fail("C14,C06", "watcher-goes-back", "a watcher got config number %llu after %llu", (unsigned long long)sq, (unsigned long long)w->last);
    w->last = sq;
    w->calls++;
    mark("notified");
    if (trng().chance(0.1)) sleep_ns(trng().below(300000));
  }
  void watcher(Watch* w) {
    Rng& r = trng();
    block_forever_until([this]() { return ready; });
    for (int y = r.pick({0, 0, 20, 200}); y > 0; y--) yield();
    if (w->cpp) return cx_watcher(w);
    a0_cfg_watcher_t* cw = w->w = palloc<a0_cfg_watcher_t>();
    a0_packet_callback_t cb{w, on_config};
    a0_err_t e = until_open("C14,C08", [&]() { return A(a0_cfg_watcher_init(cw, topic(), w->al.get(), cb)); });
    if (e) fail("C14", "init-fails", "watcher init failed with %d/%d", (int)e, syserr(e));
    w->open = true;
    if (r.chance(0.8)) block_forever_until([this]() { return finish; });
    closed_ok(A(a0_cfg_watcher_close(cw)));
    w->closed = true;
    w->al.clear();
    pfree(cw);
  }
  void cx_watcher(Watch* w) {
    a0::CfgWatcher* cw = nullptr;
    std::function<void(a0::Packet)> fn = [this, w](a0::Packet p) {
      Cb cb;
      w->kept.push_back(Kept(p));
      notified(w, *p.c);
    };
    a0_err_t e = until_open("C14,C08", [&]() { return X([&]() { cw = new a0::CfgWatcher(a0::CfgTopic("t", cx_file_opts(size)), fn); }); });
    if (e) fail("C14", "init-fails", "watcher init failed with %d/%d", (int)e, syserr(e));
    w->open = true;
    if (trng().chance(0.8)) block_forever_until([this]() { return finish; });
    AV(delete cw);
    w->closed = true;
    for (Kept& k : w->kept)
      if (!k.intact()) fail("C14", "kept-config-altered", "a config the program has kept has other content now");
  }
  bool idle(int stage) override {
    stage -= again;
    if (stage == 0) {
      Span s = now();
      if (s.empty() && !helped) {
        // whoever waits for a first config gets one
        helped = true;
        Proc* p = new_proc("h");
        p->killable = false;
        all.push_back(spawn(p, "h", [this]() {
          NoSysFault nsf;
          H* h = new H();
          h->c = palloc<a0_cfg_t>();
          A(a0_cfg_init(h->c, topic()));
          write(h, trng().pick({(int)WRITE, (int)FIRST, (int)PATCH}));
          A(a0_cfg_close(h->c));
          pfree(h->c);
          mark("helped");
        }));
        again = 1;
        return true;
      }
      for (Watch* w : ws)
        if (w->open && !w->closed && !w->p->dead && !w->p->dying && w->last != s.high && !s.empty())
          fail("C14,C06,C07", "watcher-behind", "the last config a watcher got is number %llu, the final one is %llu", (unsigned long long)w->last, (unsigned long long)s.high);
      state_sig(std::hash<std::string>()(cur_text));
      finish = true;
      return true;
    }
    for (Thread* t : all)
      if (!thread_done(t)) fail("C14,C03", "stuck", "a config operation does not return");
    if (stage == 1) {
      // somebody else can still read what is there
      Proc* p = new_proc("z");
      p->killable = false;
      all.push_back(spawn(p, "z", [this]() {
        H* h = new H();
        h->c = palloc<a0_cfg_t>();
        A(a0_cfg_init(h->c, topic()));
        read(h, READ);
        write(h, PATCH);
        read(h, READ);
        A(a0_cfg_close(h->c));
      }));
      return true;
    }
    return false;
  }
};
SCENARIO("cfg", CfgScen)
}  // namespace
