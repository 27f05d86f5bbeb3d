// The library's C++ interface, as the scenarios use it.
#pragma once
#include <a0/file.hpp>
#include <a0/packet.hpp>
#include <a0/reader.hpp>
#include <a0/time.hpp>

#include <stdexcept>

#include "scen.h"

// Calls the C++ interface; an error it throws is given as the C interface's code.
template <typename F>
a0_err_t X(F&& f) {
  std::string what;
  try {
    Api g;
    f();
    return A0_OK;
  } catch (const std::exception& e) {
    Cb cb;
    what = e.what();
  }
  for (a0_err_t e : {A0_ERR_CANCELLED, A0_ERR_AGAIN, A0_ERR_FRAME_LARGE, A0_ERR_NOT_FOUND, A0_ERR_RANGE, A0_ERR_BAD_PATH, A0_ERR_BAD_TOPIC, A0_ERR_SYS, A0_ERR_INVALID_ARG, A0_ERR_CUSTOM_MSG})
    if (what == a0_strerror(e)) return e;
  fail("C01,C06,C08,C10,C12,C13,C14,C16", "strange-exception", "the C++ interface threw '%s'", what.c_str());
}
#define XT(dl, f)          \
  ({                       \
    set_deadline(dl);      \
    auto _xt_ret = X(f);   \
    set_deadline(0);       \
    _xt_ret;               \
  })

inline a0::TimeMono cx_mono(u64 boot) {
  a0::TimeMono t;
  t.c = std::make_shared<a0_time_mono_t>(mono_at(boot));
  return t;
}
inline a0::File::Options cx_file_opts(size_t size, a0_arena_mode_t mode = A0_ARENA_MODE_SHARED) {
  a0::File::Options o = a0::File::Options::DEFAULT;
  o.create_options.size = size;
  o.open_options.arena_mode = mode;
  return o;
}
inline a0::Reader::Options cx_reader_opts(a0_reader_options_t o) {
  return a0::Reader::Options((a0::Reader::Init)o.init, (a0::Reader::Iter)o.iter);
}
// A packet the program keeps after its callback is over.
struct Kept {
  a0::Packet* p;
  std::string id, data;
  Kept(const a0::Packet& x) {
    // the copy belongs to the simulated program
    Api g;
    p = new a0::Packet(x);
    Cb cb;
    id.assign(x.c->id, strnlen(x.c->id, sizeof(a0_uuid_t)));
    data.assign((const char*)x.c->payload.data, x.c->payload.size);
  }
  bool intact() const {
    return p->c->payload.size == data.size() && !memcmp(p->c->payload.data, data.data(), data.size()) && !strncmp(p->c->id, id.c_str(), sizeof(a0_uuid_t));
  }
  void drop() {
    Api g;
    delete p;
    p = nullptr;
  }
};
