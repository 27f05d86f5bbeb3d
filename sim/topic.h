// What was written to a channel of packets, and what the channel shows at any instant.
#pragma once
#include <a0/middleware.h>
#include <a0/packet.h>
#include <a0/reader.h>
#include <a0/transport.h>
#include <a0/writer.h>

#include "chan.h"
#include "scen.h"

struct Span {
  u64 low = 0, high = 0;
  bool empty() const { return !high || low > high; }
};

// Committed span of a channel right now, whoever holds the lock: works on a private copy of the file.
inline Span peek(const void* data, size_t size) {
  alignas(64) static unsigned char b[1 << 16];
  if (size > sizeof b) fail("", "harness", "peek: file of %zu bytes", size);
  memcpy(b, data, size);
  Span s;
  a0_transport_t t;
  a0_arena_t ar;
  memset(&ar, 0, sizeof ar);
  ar.buf.data = b;
  ar.buf.size = size;
  ar.mode = A0_ARENA_MODE_EXCLUSIVE;
  a0_transport_init(&t, ar);
  a0_transport_locked_t lk;
  a0_transport_lock(&t, &lk);
  a0_transport_seq_low(lk, &s.low);
  a0_transport_seq_high(lk, &s.high);
  return s;
}

struct Rec {
  u64 n = 0;            // number of the packet, its id is derived from it
  std::string data;
  u64 seq = 0;          // sequence number it gets if committed (0: lock not reached yet)
  int st = 0;           // 0 started, 1 lock held or later, 2 returned success, 3 returned failure
  bool seen = false;
  Thread* w = nullptr;
  u64 t_start = 0, t_done = 0;
  int nhdr = 0;
  int aux = 0;
};

struct TopicModel {
  const char* PX = "C06,C01";
  std::map<u64, Rec> recs;            // by packet number
  std::map<u64, u64> at;              // sequence number -> packet number seen or known committed there
  u64 next = 1;
  int refused = 0;

  static void id_of(u64 n, a0_uuid_t id) {
    u64 first = id_style == 0 ? n * 2654435761u & 0xffffffff : id_style == 1 ? 0x5eed : n;
    u64 last = id_style == 2 ? 0x5eed : n;
    snprintf((char*)id, sizeof(a0_uuid_t), "%08llx-0000-4000-8000-%012llx", (unsigned long long)first, (unsigned long long)last);
  }
  static u64 num_of(const char* id) {
    if (strnlen(id, 40) != 36) return 0;
    u64 n = strtoull(id_style == 2 ? std::string(id, 8).c_str() : id + 24, nullptr, 16);
    a0_uuid_t x;
    id_of(n, x);
    return memcmp(x, id, 37) ? 0 : n;
  }
  Rec& start(size_t size) {
    u64 n = next++;
    Rec& r = recs[n];
    r.n = n;
    r.data = payload(n, size);
    r.w = cur_thread();
    r.t_start = lclock();
    return r;
  }
  // middleware run while the writer holds the lock
  static a0_err_t mw(void* ud, a0_transport_locked_t lk, a0_packet_t* pkt, a0_middleware_chain_t chain) {
    TopicModel* m = (TopicModel*)ud;
    {
      Cb cb;
      u64 n = num_of((const char*)pkt->id);
      if (m->recs.count(n)) {
        u64 H = 0;
        a0_transport_seq_high(lk, &H);
        Rec& r = m->recs[n];
        r.seq = H + 1;
        r.st = 1;
        auto it = m->at.find(H + 1);
        if (it != m->at.end())
          fail(m->PX, "committed-lost", "sequence number %llu of packet %llu is being used again", (unsigned long long)H + 1, (unsigned long long)it->second);
      }
    }
    return a0_middleware_chain(chain, pkt);
  }
  a0_middleware_t middleware() {
    a0_middleware_t m;
    m.user_data = this;
    m.close = nullptr;
    m.process = nullptr;
    m.process_locked = mw;
    return m;
  }
  void done(Rec& r, a0_err_t e) {
    r.t_done = lclock();
    if (e) {
      r.st = 3;
      if (r.seen) fail("C20,C01", "failed-write-visible", "packet %llu was reported as not written but was read", (unsigned long long)r.n);
      return;
    }
    r.st = 2;
    if (r.seq) own(r.seq, r.n, "writer");
  }
  void own(u64 seq, u64 n, const char* how) {
    auto it = at.find(seq);
    if (it == at.end()) {
      at[seq] = n;
    } else if (it->second != n) {
      fail(PX, "wrong-message", "%s: sequence number %llu holds packet %llu, expected %llu", how, (unsigned long long)seq, (unsigned long long)n,
           (unsigned long long)it->second);
    }
  }
  // A packet was handed to a reader. Returns its record.
  Rec& received(const char* id, const void* data, size_t size, u64 seq, const char* how) {
    u64 n = num_of(id);
    if (!n || !recs.count(n)) fail(PX, "invented-packet", "%s: packet with an id nobody wrote", how);
    Rec& r = recs[n];
    if (r.st == 3) fail("C20,C01", "failed-write-visible", "%s: packet %llu, whose write was refused, was delivered", how, (unsigned long long)n);
    if (r.st == 0) fail(PX, "uncommitted-visible", "%s: packet %llu was delivered before its writer had the lock", how, (unsigned long long)n);
    if (seq && r.seq != seq) fail(PX, "wrong-message", "%s: packet %llu delivered as message %llu, written as %llu", how, (unsigned long long)n, (unsigned long long)seq, (unsigned long long)r.seq);
    if (size != r.data.size() || memcmp(data, r.data.data(), size)) fail(PX, "torn-message", "%s: payload of packet %llu differs from what was written", how, (unsigned long long)n);
    r.seen = true;
    own(r.seq, n, how);
    return r;
  }
};

inline u64 frame_seq(a0_transport_locked_t lk) {
  a0_transport_frame_t* f = nullptr;
  if (a0_transport_frame(lk, &f)) return 0;
  return f->hdr.seq;
}

// Allocator handed to the library: memory of the simulated process, optionally failing.
struct TestAlloc {
  double p_fail = 0;
  u64 fails = 0;
  std::vector<void*> out;
  static a0_err_t alloc(void* ud, size_t n, a0_buf_t* b) {
    Cb cb;
    TestAlloc* a = (TestAlloc*)ud;
    if (a->p_fail > 0 && faults_on() && chance_fault(F_ALLOC, a->p_fail)) {
      a->fails++;
      b->data = nullptr;
      b->size = 0;
      a0_err_syscode = ENOMEM;
      return A0_ERR_SYS;
    }
    b->data = (uint8_t*)sim::heap_alloc(cur_proc(), n ? n : 1, 16);
    b->size = n;
    a->out.push_back(b->data);
    return A0_OK;
  }
  static a0_err_t dealloc(void* ud, a0_buf_t b) {
    Cb cb;
    TestAlloc* a = (TestAlloc*)ud;
    for (size_t i = 0; i < a->out.size(); i++)
      if (a->out[i] == b.data) {
        a->out.erase(a->out.begin() + i);
        sim::heap_free(b.data);
        return A0_OK;
      }
    fail("C06,C08,C20", "bad-free", "the library returned memory to the caller's allocator that it does not own");
  }
  void clear() {
    for (void* p : out) sim::heap_free(p);
    out.clear();
  }
  a0_alloc_t get() { return a0_alloc_t{this, alloc, dealloc}; }
};
