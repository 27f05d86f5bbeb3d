// Reference model of one channel, reconciled with the real one whenever a thread obtains its lock.
#pragma once
#include <a0/transport.h>

#include "scen.h"

// Where the first message of a channel goes, found by asking the library.
inline size_t workspace_off() {
  alignas(64) static unsigned char b[4096];
  memset(b, 0, sizeof b);
  a0_transport_t t;
  a0_arena_t ar;
  memset(&ar, 0, sizeof ar);
  ar.buf.data = b;
  ar.buf.size = sizeof b;
  ar.mode = A0_ARENA_MODE_EXCLUSIVE;
  a0_transport_init(&t, ar);
  a0_transport_locked_t lk;
  a0_transport_lock(&t, &lk);
  a0_transport_frame_t* f = nullptr;
  if (a0_transport_alloc(lk, 1, &f)) fail("C05,C20", "write-refused", "a message of 1 byte is refused by an empty channel of 4096 bytes");
  return (unsigned char*)f - b;
}

struct ChanModel {
  const char* P = "C01,C05";  // properties a mismatch is reported under
  struct Cand {
    u64 id = 0;
    std::string data;
    Thread* w = nullptr;
    int st = 0;  // 0 allocated, 1 commit begun, 2 committed
    size_t off = 0;
  };
  std::map<u64, Cand> live_or_old;  // by sequence number, committed for certain
  u64 low = 0, high = 0;            // certain state
  size_t arena = 0, arena_alt = 0;
  // operation of the current lock holder
  enum Op { NONE, ALLOC, HAVE, COMMIT, CLEAR, RESIZE };
  Thread* opt = nullptr;
  Op op = NONE;
  Cand cand;
  // left behind by threads that died
  bool pend_alloc = false, pend_commit = false, pend_clear = false;
  Cand pend_cand;
  u64 commits = 0, displaced = 0, clears = 0;
  u64 next_id = 1;
  u64 ver = 0;

  static constexpr size_t FH = sizeof(a0_transport_frame_hdr_t);
  const size_t WS = workspace_off();
  bool empty() const { return !high || low > high; }

  std::map<a0_transport_t*, char*> bases;
  void opened(a0_transport_t* t, const a0_file_t& f) { bases[t] = (char*)f.arena.buf.data; }
  char* base(a0_transport_locked_t lk) { return bases[lk.transport]; }

  void begin(Op o) {
    op = o;
    opt = cur_thread();
  }
  void end() {
    op = NONE;
    opt = nullptr;
  }
  void thread_dead(Thread* t) {
    if (opt != t) return;
    if (op == ALLOC) pend_alloc = true;
    if (op == COMMIT) {
      pend_commit = true;
      pend_cand = cand;
    }
    if (op == CLEAR) pend_clear = true;
    if (op != NONE) mark("death_inside_channel_update");
    end();
  }

  // The caller holds the lock and nothing of its own is in progress: what it can see must be the certain
  // state, or one of the outcomes of an update whose author died.
  void reconcile(a0_transport_locked_t lk, const char* how) {
    if (op != NONE) fail("C02,C01", "two-in-update", "%s: %s holds the channel lock while %s is inside an update", how, thread_name(cur_thread()), thread_name(opt));
    u64 L = 0, H = 0;
    a0_transport_seq_low(lk, &L);
    a0_transport_seq_high(lk, &H);
    u64 H2 = high;
    if (pend_commit && H == high + 1) {
      H2 = high + 1;
      live_or_old[H2] = pend_cand;
      live_or_old[H2].st = 2;
      if (!high || !low) {
        if (L == 1) low = 1;
      }
      high = H2;
      commits++;
      mark("dead_writer_message_kept");
    } else if (pend_commit) {
      mark("dead_writer_message_dropped");
    }
    if (H != H2) {
      if (H > H2)
        fail("C01", "uncommitted-visible", "%s: newest sequence number is %llu but only %llu messages were ever committed", how, (unsigned long long)H, (unsigned long long)H2);
      fail(P, "committed-lost", "%s: newest sequence number is %llu but message %llu was committed", how, (unsigned long long)H, (unsigned long long)H2);
    }
    if (L != low) {
      bool ok = false;
      if (pend_alloc && L > low && L <= high + 1) ok = true;
      if (pend_clear && L == high + 1) ok = true;
      if (!ok)
        fail(P, L < low ? "displaced-visible" : "committed-lost", "%s: oldest sequence number is %llu, expected %llu (newest %llu)", how, (unsigned long long)L,
             (unsigned long long)low, (unsigned long long)high);
      if (L > low) displaced += L - low;
      low = L;
      mark("dead_writer_displacement_kept");
    }
    if (pend_alloc || pend_commit || pend_clear) ver++;
    u64 h = (high - low) * 64 + pend_alloc + 2 * pend_commit + 4 * pend_clear;
    for (u64 q = low; q <= high && q < low + 6; q++) {
      auto it = live_or_old.find(q);
      if (it != live_or_old.end()) h = h * 1000003 + it->second.data.size();
    }
    state_sig(hash_mem(&h, sizeof h));
    pend_alloc = pend_commit = pend_clear = false;
  }

  // Complete structural and content check.
  void audit(a0_transport_locked_t lk, const char* how) {
    reconcile(lk, how);
    a0_transport_t tmp = *lk.transport;
    a0_transport_locked_t k{&tmp};
    bool e = true;
    a0_transport_empty(k, &e);
    if (e != empty()) fail(P, "emptiness-wrong", "%s: reports empty=%d, model %d", how, e, empty());
    size_t used = 0;
    a0_transport_used_space(k, &used);
    if (e) {
      if (used != WS) fail("C05", "used-space-wrong", "%s: used space of an empty channel is %zu", how, used);
      if (a0_transport_jump_head(k) == A0_OK) fail(P, "emptiness-wrong", "%s: empty channel has a head", how);
      return;
    }
    size_t amax = arena > arena_alt ? arena : arena_alt;
    size_t end = 0;
    std::vector<std::pair<size_t, size_t>> iv;
    if (a0_transport_jump_head(k)) fail(P, "walk-broken", "%s: no head although nonempty", how);
    for (u64 s = low; s <= high; s++) {
      a0_transport_frame_t* f = nullptr;
      if (a0_transport_frame(k, &f)) fail(P, "walk-broken", "%s: message %llu not readable", how, (unsigned long long)s);
      size_t off = (char*)f - base(lk);
      if (off < WS || off + FH > amax)
        fail(P, "frame-outside", "%s: message %llu at offset %zu outside the arena of %zu", how, (unsigned long long)s, off, amax);
      check_frame(lk, f, s, how);
      if (f->hdr.off + FH + f->hdr.data_size > end) end = f->hdr.off + FH + f->hdr.data_size;
      iv.push_back({f->hdr.off, f->hdr.off + FH + f->hdr.data_size});
      bool nx = false;
      a0_transport_has_next(k, &nx);
      if (nx != (s < high)) fail(P, "walk-broken", "%s: has_next=%d at message %llu of %llu", how, nx, (unsigned long long)s, (unsigned long long)high);
      if (nx) a0_transport_step_next(k);
    }
    if (used != end) fail("C05", "used-space-wrong", "%s: used space is %zu, the live messages end at %zu", how, used, end);
    for (size_t i = 0; i < iv.size(); i++)
      for (size_t j = i + 1; j < iv.size(); j++)
        if (iv[i].first < iv[j].second && iv[j].first < iv[i].second) fail(P, "frames-overlap", "%s: two live messages overlap", how);
    if (a0_transport_jump_tail(k)) fail(P, "walk-broken", "%s: no tail although nonempty", how);
    for (u64 s = high;; s--) {
      a0_transport_frame_t* f = nullptr;
      bool bad = a0_transport_frame(k, &f);
      size_t off = (char*)f - base(lk);
      if (bad || off < WS || off + FH > amax || f->hdr.seq != s)
        fail(P, "walk-broken", "%s: walking backwards fails at message %llu", how, (unsigned long long)s);
      bool pv = false;
      a0_transport_has_prev(k, &pv);
      if (pv != (s > low)) fail(P, "walk-broken", "%s: has_prev=%d at message %llu", how, pv, (unsigned long long)s);
      if (!pv) break;
      a0_transport_step_prev(k);
    }
    mark("audits");
  }
  void check_frame(a0_transport_locked_t lk, a0_transport_frame_t* f, u64 s, const char* how) {
    size_t amax = arena > arena_alt ? arena : arena_alt;
    if (f->hdr.seq != s) fail(P, "wrong-message", "%s: expected message %llu, frame says %llu", how, (unsigned long long)s, (unsigned long long)f->hdr.seq);
    if (f->hdr.off != (size_t)((char*)f - base(lk))) fail(P, "frame-offset-wrong", "%s: message %llu", how, (unsigned long long)s);
    auto it = live_or_old.find(s);
    if (it == live_or_old.end()) fail("C01", "uncommitted-visible", "%s: message %llu was never committed", how, (unsigned long long)s);
    const std::string& d = it->second.data;
    if (f->hdr.data_size != d.size()) fail(P, "torn-message", "%s: message %llu has size %zu, written %zu", how, (unsigned long long)s, (size_t)f->hdr.data_size, d.size());
    if (f->hdr.off + FH + d.size() > amax) fail(P, "frame-outside", "%s: message %llu ends outside the arena", how, (unsigned long long)s);
    if (memcmp(f->data, d.data(), d.size())) fail(P, "torn-message", "%s: content of message %llu differs from what was written", how, (unsigned long long)s);
  }

  // k oldest removed: may a frame [off,end) be appended?
  bool room(u64 lo, size_t off, size_t end) {
    std::vector<std::pair<size_t, size_t>> v;
    for (u64 s = lo; s <= high && high; s++) {
      Cand& c = live_or_old[s];
      v.push_back({c.off, c.off + FH + c.data.size()});
    }
    for (auto& x : v)
      if (x.first < end && off < x.second) return false;
    v.push_back({off, end});
    int desc = 0;
    for (size_t i = 1; i < v.size(); i++)
      if (v[i].first < v[i - 1].first) desc++;
    if (desc > 1) return false;
    if (desc == 1 && v.front().first < v.back().first) return false;
    return true;
  }

  // A frame of the given size was allocated: check what was displaced.
  void allocated(a0_transport_locked_t lk, a0_transport_frame_t* f, size_t size, int predicted) {
    u64 L = 0;
    a0_transport_seq_low(lk, &L);
    u64 s = f->hdr.seq;
    if (s != high + 1) fail(P, "sequence-gap", "new message got sequence number %llu after %llu", (unsigned long long)s, (unsigned long long)high);
    size_t off = (char*)f - base(lk);
    size_t end = off + FH + size;
    if (f->hdr.off != off || f->hdr.data_size != size) fail("C05", "bad-frame", "allocated frame header is wrong");
    if (off < WS || end > arena) fail("C05", "frame-outside", "frame [%zu,%zu) allocated outside the arena of %zu", off, end, arena);
    bool was_empty = empty();
    u64 lo0 = low;
    if (was_empty) {
      // an empty channel has nothing to displace
      if (L != (low ? low : s)) fail("C05", "displaced-wrongly", "oldest sequence number became %llu on an empty channel", (unsigned long long)L);
      if (predicted == 1) fail("C05", "prediction-wrong", "displacement predicted for an empty channel");
    } else {
      if (L < low || L > high + 1) fail("C05", "displaced-wrongly", "oldest went from %llu to %llu", (unsigned long long)low, (unsigned long long)L);
      u64 need = low;
      while (need <= high && !room(need, off, end)) need++;
      if (L < need) fail("C05,C01", "overwrites-live", "frame [%zu,%zu) overlaps live message %llu", off, end, (unsigned long long)L);
      if (L > need) fail("C05", "displaced-too-many", "oldest is %llu after making room, %llu would do", (unsigned long long)L, (unsigned long long)need);
      if (predicted >= 0 && (predicted == 1) != (L > low))
        fail("C05", "prediction-wrong", "displacement predicted %d, %llu messages displaced", predicted, (unsigned long long)(L - low));
      // if it fits behind the newest message nothing needs to go
      Cand& t = live_or_old[high];
      size_t at = (t.off + FH + t.data.size() + 15) & ~(size_t)15;
      if (L > low && at + FH + size < arena && room(low, at, at + FH + size))
        fail("C05", "displaced-needlessly", "%llu messages displaced although the message fits behind the newest one", (unsigned long long)(L - low));
      if (L > low) mark("displacement");
      if (off < t.off) mark("wrap_around");
      displaced += L - low;
      low = L;
    }
    (void)lo0;
    cand = Cand();
    cand.off = off;
    cand.w = cur_thread();
    ver++;
  }
  void committed() {
    high++;
    if (!low) low = high;
    cand.st = 2;
    live_or_old[high] = cand;
    commits++;
    ver++;
    end();
  }
};
