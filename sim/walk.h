// Reading all committed messages of a channel at one instant, from a private copy of its file.
#pragma once
#include "topic.h"

struct Msg {
  u64 seq = 0;
  std::string id, data;
  std::vector<std::pair<std::string, std::string>> hdrs;
  const std::string* get(const char* k, int* count = nullptr) const {
    const std::string* r = nullptr;
    int n = 0;
    for (auto& h : hdrs)
      if (h.first == k) {
        if (!r) r = &h.second;
        n++;
      }
    if (count) *count = n;
    return r;
  }
};
inline Msg from_flat(a0_flat_packet_t fp, u64 seq) {
  Msg m;
  m.seq = seq;
  a0_uuid_t* id = nullptr;
  a0_flat_packet_id(fp, &id);
  m.id = std::string((const char*)id, strnlen((const char*)id, sizeof(a0_uuid_t)));
  a0_buf_t b;
  a0_flat_packet_payload(fp, &b);
  m.data = std::string((const char*)b.data, b.size);
  a0_packet_stats_t st;
  a0_flat_packet_stats(fp, &st);
  for (size_t i = 0; i < st.num_hdrs; i++) {
    a0_packet_header_t h;
    a0_flat_packet_header(fp, i, &h);
    m.hdrs.emplace_back(h.key, h.val);
  }
  return m;
}
inline Msg from_pkt(a0_packet_t p) {
  Msg m;
  m.id = std::string((const char*)p.id, strnlen((const char*)p.id, sizeof(a0_uuid_t)));
  m.data = std::string((const char*)p.payload.data, p.payload.size);
  for (a0_packet_headers_block_t* b = &p.headers_block; b; b = b->next_block)
    for (size_t i = 0; i < b->size; i++) m.hdrs.emplace_back(b->headers[i].key, b->headers[i].val);
  return m;
}
// Sequence numbers below from are skipped.
template <typename F>
inline Span walk(const void* data, size_t size, u64 from, F f) {
  alignas(64) static unsigned char b[1 << 16];
  if (size > sizeof b) fail("", "harness", "walk: file of %zu bytes", size);
  memcpy(b, data, size);
  Span s;
  a0_transport_t t;
  a0_arena_t ar;
  memset(&ar, 0, sizeof ar);
  ar.buf.data = b;
  ar.buf.size = size;
  ar.mode = A0_ARENA_MODE_EXCLUSIVE;
  a0_transport_init(&t, ar);
  a0_transport_locked_t lk;
  a0_transport_lock(&t, &lk);
  a0_transport_seq_low(lk, &s.low);
  a0_transport_seq_high(lk, &s.high);
  if (s.empty() || s.high < from) return s;
  // backwards from the newest one, so that only new ones are looked at
  std::vector<Msg> ms;
  if (a0_transport_jump_tail(lk)) return s;
  for (u64 q = s.high; q >= s.low && q >= from; q--) {
    a0_transport_frame_t* fr = nullptr;
    if (a0_transport_frame(lk, &fr)) break;
    a0_flat_packet_t fp;
    fp.buf.data = fr->data;
    fp.buf.size = fr->hdr.data_size;
    ms.push_back(from_flat(fp, fr->hdr.seq));
    if (q == s.low || a0_transport_step_prev(lk)) break;
  }
  for (size_t i = ms.size(); i-- > 0;) f(ms[i]);
  return s;
}
