// What opening takes, closing gives back, and a failed opening keeps nothing: C25.
#include <a0/cfg.h>
#include <a0/cfg.hpp>
#include <a0/deadman.h>
#include <a0/deadman.hpp>
#include <a0/discovery.h>
#include <a0/discovery.hpp>
#include <a0/log.h>
#include <a0/log.hpp>
#include <a0/prpc.h>
#include <a0/prpc.hpp>
#include <a0/pubsub.h>
#include <a0/pubsub.hpp>
#include <a0/rpc.h>
#include <a0/rpc.hpp>
#include <a0/writer.h>
#include <a0/writer.hpp>

#include "cxx.h"
#include "topic.h"

namespace {

enum Kind { FILE_, PUB, SUB_SYNC_ZC, SUB_SYNC, SUB_ZC, SUB, RPC_S, RPC_C, PRPC_S, PRPC_C, CFG, CFG_W, LOGGER, LISTENER, DEADMAN, DISCOVERY, WRITER, NKINDS };
const char* const kKind[] = {"file", "publisher", "zero-copy sync subscriber", "sync subscriber", "zero-copy subscriber", "subscriber", "rpc server", "rpc client",
                             "progress rpc server", "progress rpc client", "config", "config watcher", "logger", "log listener", "deadman switch", "discovery", "writer"};

struct ResScen : Scenario {
  struct H {
    ResScen* S;
    Proc* p;
    int kind;
    bool cpp;
    bool closed = false;
    void* h = nullptr;
    TestAlloc al;
    size_t fds = 0, maps = 0;
    int threads = 0;
  };
  // A file, a writer with some middleware, and perhaps one wrapped around it.
  struct W {
    a0_file_t f;
    a0_writer_t w, out;
    bool wrapped;
    a0_writer_t* top() { return wrapped ? &out : &w; }
  };
  struct WX {
    a0::File f;
    a0::Writer w, out;
    bool wrapped = false;
  };
  const size_t size = 16384;
  int nops = 0;
  std::vector<int> kinds;
  std::vector<Thread*> users;
  double p_bad = 0, p_cpp = 0;
  u64 ids = 1;
  int deaths = 0;

  void setup() override {
    Rng& r = cfg_rng();
    swarm(cfg, 0.4);
    if (r.chance(0.6)) {
      cfg.p_syserr = r.pick({0.02, 0.1, 0.3});
      cfg.sysmask = r.chance(0.5) ? ~0u : (u32)r.next();
    } else {
      cfg.p_syserr = 0;
    }
    cfg.fault_steps = 200000;
    set_generic_props("C25");
    nops = r.range(3, 12);
    p_bad = r.pick({0.0, 0.05, 0.2});
    p_cpp = r.pick({0.0, 0.3, 0.7});
    int nk = r.range(1, 4);
    for (int i = 0; i < nk; i++) kinds.push_back((int)r.below(NKINDS));
    if (r.chance(0.3)) {
      kinds.push_back(RPC_S);
      kinds.push_back(RPC_C);
    }
    if (r.chance(0.3)) {
      kinds.push_back(PRPC_S);
      kinds.push_back(PRPC_C);
    }
    if (r.chance(0.3)) kinds.push_back(PUB);
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      users.push_back(spawn(new_proc(n), "u", [this]() { user(); }));
    }
  }
  void thread_dead(Thread* t) override {
    if (thread_proc(t)->killed) deaths++;
  }

  // ---------------------------------------------------------------- callbacks
  void called(H* h) {
    if (cur_proc() != h->p) fail("C25", "wrong-process", "callback of a %s in another process", kKind[h->kind]);
    if (h->closed) fail("C25,C08", "callback-after-close", "callback of a %s that is closed", kKind[h->kind]);
    mark("callback");
    if (trng().chance(0.1)) yield();
  }
  static void on_pkt(void* u, a0_packet_t) {
    Cb cb;
    ((H*)u)->S->called((H*)u);
  }
  static void on_zc(void* u, a0_transport_locked_t, a0_flat_packet_t) {
    Cb cb;
    mark("callback");
    (void)u;
  }
  static void on_id(void* u, a0_uuid_t) {
    Cb cb;
    ((H*)u)->S->called((H*)u);
  }
  static void on_path(void* u, const char*) {
    Cb cb;
    ((H*)u)->S->called((H*)u);
  }
  static void on_req(void* u, a0_rpc_request_t q) {
    Cb cb;
    H* h = (H*)u;
    h->S->called(h);
    if (!trng().chance(0.7)) return;
    a0_packet_t p = h->S->packet("reply");
    A(a0_rpc_server_reply(q, p));
  }
  static void on_conn(void* u, a0_prpc_connection_t q) {
    Cb cb;
    H* h = (H*)u;
    h->S->called(h);
    for (int k = trng().range(0, 2); k > 0; k--) {
      a0_packet_t p = h->S->packet("progress");
      A(a0_prpc_server_send(q, p, k == 1));
    }
  }
  static void on_progress(void* u, a0_packet_t, bool) {
    Cb cb;
    ((H*)u)->S->called((H*)u);
  }
  a0_packet_t packet(const char* text) {
    a0_packet_t p;
    memset(&p, 0, sizeof p);
    TopicModel::id_of(ids++, p.id);
    p.payload.data = (uint8_t*)text;
    p.payload.size = strlen(text);
    return p;
  }

  static a0_middleware_t middleware(Rng& r) {
    switch (r.below(6)) {
      case 0: return a0_add_time_mono_header();
      case 1: return a0_add_time_wall_header();
      case 2: return a0_add_writer_id_header();
      case 3: return a0_add_writer_seq_header();
      case 4: return a0_add_transport_seq_header();
      default: return a0_add_standard_headers();
    }
  }
  static a0::Middleware middleware_x(Rng& r) {
    switch (r.below(6)) {
      case 0: return a0::add_time_mono_header();
      case 1: return a0::add_time_wall_header();
      case 2: return a0::add_writer_id_header();
      case 3: return a0::add_writer_seq_header();
      case 4: return a0::add_transport_seq_header();
      default: return a0::add_standard_headers();
    }
  }
  // ------------------------------------------------------------------ opening
  // name: the topic; opts live in the process
  a0_err_t open_c(H* h, const char* name, a0_file_options_t* o) {
    a0_reader_options_t ro = {A0_INIT_OLDEST, A0_ITER_NEXT};
    a0_packet_callback_t pc = {h, on_pkt};
    a0_packet_id_callback_t ic = {h, on_id};
    switch (h->kind) {
      case FILE_: {
        h->h = palloc<a0_file_t>();
        return A(a0_file_open(name, o, (a0_file_t*)h->h));
      }
      case PUB: {
        h->h = palloc<a0_publisher_t>();
        return A(a0_publisher_init((a0_publisher_t*)h->h, (a0_pubsub_topic_t{name, o})));
      }
      case SUB_SYNC_ZC: {
        h->h = palloc<a0_subscriber_sync_zc_t>();
        return A(a0_subscriber_sync_zc_init((a0_subscriber_sync_zc_t*)h->h, (a0_pubsub_topic_t{name, o}), ro));
      }
      case SUB_SYNC: {
        h->h = palloc<a0_subscriber_sync_t>();
        return A(a0_subscriber_sync_init((a0_subscriber_sync_t*)h->h, (a0_pubsub_topic_t{name, o}), h->al.get(), ro));
      }
      case SUB_ZC: {
        h->h = palloc<a0_subscriber_zc_t>();
        return A(a0_subscriber_zc_init((a0_subscriber_zc_t*)h->h, (a0_pubsub_topic_t{name, o}), ro, (a0_zero_copy_callback_t{h, on_zc})));
      }
      case SUB: {
        h->h = palloc<a0_subscriber_t>();
        return A(a0_subscriber_init((a0_subscriber_t*)h->h, (a0_pubsub_topic_t{name, o}), h->al.get(), ro, pc));
      }
      case RPC_S: {
        h->h = palloc<a0_rpc_server_t>();
        return A(a0_rpc_server_init((a0_rpc_server_t*)h->h, (a0_rpc_topic_t{name, o}), h->al.get(), (a0_rpc_request_callback_t{h, on_req}), ic));
      }
      case RPC_C: {
        h->h = palloc<a0_rpc_client_t>();
        return A(a0_rpc_client_init((a0_rpc_client_t*)h->h, (a0_rpc_topic_t{name, o}), h->al.get()));
      }
      case PRPC_S: {
        h->h = palloc<a0_prpc_server_t>();
        return A(a0_prpc_server_init((a0_prpc_server_t*)h->h, (a0_prpc_topic_t{name, o}), h->al.get(), (a0_prpc_connection_callback_t{h, on_conn}), ic));
      }
      case PRPC_C: {
        h->h = palloc<a0_prpc_client_t>();
        return A(a0_prpc_client_init((a0_prpc_client_t*)h->h, (a0_prpc_topic_t{name, o}), h->al.get()));
      }
      case CFG: {
        h->h = palloc<a0_cfg_t>();
        return A(a0_cfg_init((a0_cfg_t*)h->h, (a0_cfg_topic_t{name, o})));
      }
      case CFG_W: {
        h->h = palloc<a0_cfg_watcher_t>();
        return A(a0_cfg_watcher_init((a0_cfg_watcher_t*)h->h, (a0_cfg_topic_t{name, o}), h->al.get(), pc));
      }
      case LOGGER: {
        h->h = palloc<a0_logger_t>();
        return A(a0_logger_init((a0_logger_t*)h->h, (a0_log_topic_t{name, o})));
      }
      case LISTENER: {
        h->h = palloc<a0_log_listener_t>();
        return A(a0_log_listener_init((a0_log_listener_t*)h->h, (a0_log_topic_t{name, o}), h->al.get(), (a0_log_level_t)trng().range(0, 5), ro, pc));
      }
      case DEADMAN: {
        h->h = palloc<a0_deadman_t>();
        return A(a0_deadman_init((a0_deadman_t*)h->h, (a0_deadman_topic_t{name})));
      }
      case WRITER: {
        W* w = palloc<W>();
        h->h = w;
        a0_err_t e = A(a0_file_open(name && *name ? "t.w.a0" : name, o, &w->f));
        if (e) return e;
        e = A(a0_writer_init(&w->w, w->f.arena));
        if (e) fail("C25", "open-fails", "a writer on an open file failed with %d/%d", (int)e, syserr(e));
        Rng& r = trng();
        for (int k = r.range(0, 3); k > 0; k--) A(a0_writer_push(&w->w, middleware(r)));
        w->wrapped = r.chance(0.4);
        if (w->wrapped) A(a0_writer_wrap(&w->w, middleware(r), &w->out));
        return e;
      }
      default: {
        h->h = palloc<a0_discovery_t>();
        return A(a0_discovery_init((a0_discovery_t*)h->h, name, (a0_discovery_callback_t{h, on_path})));
      }
    }
  }
  a0_err_t open_x(H* h, const char* name) {
    a0::File::Options fo = cx_file_opts(size);
    a0::Reader::Options ro = cx_reader_opts(a0_reader_options_t{A0_INIT_OLDEST, A0_ITER_NEXT});
    auto pk = [h](a0::Packet) {
      Cb cb;
      h->S->called(h);
    };
    auto id = [h](a0::string_view) {
      Cb cb;
      h->S->called(h);
    };
    return X([&]() {
      switch (h->kind) {
        case FILE_: h->h = new a0::File(name, fo); break;
        case PUB: h->h = new a0::Publisher(a0::PubSubTopic(name, fo)); break;
        case SUB_SYNC_ZC: h->h = new a0::SubscriberSyncZeroCopy(a0::PubSubTopic(name, fo), ro); break;
        case SUB_SYNC: h->h = new a0::SubscriberSync(a0::PubSubTopic(name, fo), ro); break;
        case SUB_ZC: h->h = new a0::SubscriberZeroCopy(a0::PubSubTopic(name, fo), ro, [](a0::TransportLocked, a0::FlatPacket) {}); break;
        case SUB: h->h = new a0::Subscriber(a0::PubSubTopic(name, fo), ro, pk); break;
        case RPC_S:
          h->h = new a0::RpcServer(
              a0::RpcTopic(name, fo),
              [h](a0::RpcRequest q) {
                Cb cb;
                h->S->called(h);
                if (!trng().chance(0.7)) return;
                Api g;
                q.reply("reply");
              },
              id);
          break;
        case RPC_C: h->h = new a0::RpcClient(a0::RpcTopic(name, fo)); break;
        case PRPC_S:
          h->h = new a0::PrpcServer(
              a0::PrpcTopic(name, fo),
              [h](a0::PrpcConnection q) {
                Cb cb;
                h->S->called(h);
                Api g;
                q.send("progress", false);
                q.send("end", true);
              },
              id);
          break;
        case PRPC_C: h->h = new a0::PrpcClient(a0::PrpcTopic(name, fo)); break;
        case CFG: h->h = new a0::Cfg(a0::CfgTopic(name, fo)); break;
        case CFG_W: h->h = new a0::CfgWatcher(a0::CfgTopic(name, fo), std::function<void(a0::Packet)>(pk)); break;
        case LOGGER: h->h = new a0::Logger(a0::LogTopic(name, fo)); break;
        case LISTENER: h->h = new a0::LogListener(a0::LogTopic(name, fo), (a0::LogLevel)trng().range(0, 5), ro, pk); break;
        case DEADMAN: h->h = new a0::Deadman(a0::DeadmanTopic(name)); break;
        case WRITER: {
          std::unique_ptr<WX> w(new WX());
          w->f = a0::File(*name ? "t.w.a0" : name, fo);
          w->w = a0::Writer(w->f);
          Rng& r = trng();
          for (int k = r.range(0, 3); k > 0; k--) w->w.push(middleware_x(r));
          w->wrapped = r.chance(0.4);
          if (w->wrapped) w->out = w->w.wrap(middleware_x(r));
          h->h = w.release();
          break;
        }
        default:
          h->h = new a0::Discovery(name, [h](const std::string&) {
            Cb cb;
            h->S->called(h);
          });
      }
    });
  }
  void drop(H* h) {
    if (h->h && !h->cpp) pfree((char*)h->h);
    h->h = nullptr;
  }

  // -------------------------------------------------------------------- using
  void use(H* h) {
    Rng& r = trng();
    if (h->cpp) {
      use_x(h);
      return;
    }
    switch (h->kind) {
      case PUB: {
        a0_packet_t p = packet("news");
        a0_err_t e = A(a0_publisher_pub((a0_publisher_t*)h->h, p));
        if (e) fail("C25", "use-fails", "publishing failed with %d/%d", (int)e, syserr(e));
        break;
      }
      case SUB_SYNC_ZC: A(a0_subscriber_sync_zc_read((a0_subscriber_sync_zc_t*)h->h, (a0_zero_copy_callback_t{h, on_zc}))); break;
      case SUB_SYNC: {
        a0_packet_t p;
        a0_err_t e = A(a0_subscriber_sync_read((a0_subscriber_sync_t*)h->h, &p));
        if (e && !h->al.out.empty()) fail("C25", "packet-kept", "a read that gives nothing keeps %zu blocks of the caller's allocator", h->al.out.size());
        if (!e && h->al.out.size() != 1) fail("C25", "packet-kept", "a read takes %zu blocks of the caller's allocator", h->al.out.size());
        h->al.clear();
        break;
      }
      case RPC_C: {
        a0_packet_t p = packet("request");
        if (r.chance(0.3)) {
          a0_time_mono_t t = mono_at(boot_ns() + r.below(200000));
          TestAlloc al;
          a0_packet_t out;
          a0_err_t e = AT((u64)t.ts.tv_sec * 1000000000ull + t.ts.tv_nsec, a0_rpc_client_send_blocking_timeout((a0_rpc_client_t*)h->h, p, &t, al.get(), &out));
          (void)e;
          al.clear();  // also the answers to others that it has looked at
        } else {
          a0_err_t e = A(a0_rpc_client_send((a0_rpc_client_t*)h->h, p, (a0_packet_callback_t{h, on_pkt})));
          if (e) fail("C25", "use-fails", "sending failed with %d/%d", (int)e, syserr(e));
          if (r.chance(0.3)) A(a0_rpc_client_cancel((a0_rpc_client_t*)h->h, p.id));
        }
        break;
      }
      case PRPC_C: {
        a0_packet_t p = packet("connect");
        a0_err_t e = A(a0_prpc_client_connect((a0_prpc_client_t*)h->h, p, (a0_prpc_progress_callback_t{h, on_progress})));
        if (e) fail("C25", "use-fails", "connecting failed with %d/%d", (int)e, syserr(e));
        if (r.chance(0.3)) A(a0_prpc_client_cancel((a0_prpc_client_t*)h->h, p.id));
        break;
      }
      case CFG: {
        a0_cfg_t* c = (a0_cfg_t*)h->h;
        a0_packet_t p = packet("{\"a\":1}");
        switch (r.below(4)) {
          case 0: A(a0_cfg_write(c, p)); break;
          case 1: {
            bool w = false;
            A(a0_cfg_write_if_empty(c, p, r.chance(0.5) ? &w : nullptr));
            break;
          }
          case 2: {
            if (r.chance(0.4)) p = packet(r.pick({"{\"a\":", "x y", "[1"}));
            A(a0_cfg_mergepatch(c, p));
            break;
          }
          default: {
            TestAlloc al;
            a0_packet_t out;
            a0_err_t e = A(a0_cfg_read(c, al.get(), &out));
            if (al.out.size() != (e ? 0 : 1)) fail("C25", "packet-kept", "reading the config (%d/%d) leaves %zu blocks of the caller's allocator", (int)e, syserr(e), al.out.size());
            al.clear();
          }
        }
        break;
      }
      case LOGGER: {
        a0_packet_t p = packet("line");
        A(a0_logger_info((a0_logger_t*)h->h, p));
        break;
      }
      case WRITER: {
        a0_packet_t p = packet("words");
        a0_err_t e = A(a0_writer_write(((W*)h->h)->top(), p));
        if (e) fail("C25", "use-fails", "writing failed with %d/%d", (int)e, syserr(e));
        break;
      }
      case DEADMAN: {
        if (r.chance(0.5)) A(a0_deadman_trytake((a0_deadman_t*)h->h));
        break;
      }
      default: break;
    }
  }
  void use_x(H* h) {
    X([&]() {
      switch (h->kind) {
        case PUB: ((a0::Publisher*)h->h)->pub("news"); break;
        case SUB_SYNC: {
          auto* s = (a0::SubscriberSync*)h->h;
          if (s->can_read()) s->read();
          break;
        }
        case RPC_C:
          ((a0::RpcClient*)h->h)->send("request", [h](a0::Packet) {
            Cb cb;
            h->S->called(h);
          });
          break;
        case PRPC_C:
          ((a0::PrpcClient*)h->h)->connect("connect", [h](a0::Packet, bool) {
            Cb cb;
            h->S->called(h);
          });
          break;
        case CFG: {
          auto* c = (a0::Cfg*)h->h;
          c->write(a0::Packet("{\"a\":1}"));
          c->read();
          break;
        }
        case LOGGER: ((a0::Logger*)h->h)->info("line"); break;
        case DEADMAN: ((a0::Deadman*)h->h)->try_take(); break;
        case WRITER: {
          WX* w = (WX*)h->h;
          (w->wrapped ? w->out : w->w).write("words");
          break;
        }
        default: break;
      }
    });
  }

  // ------------------------------------------------------------------ closing
  void close_x(H* h) {
    Api g;
    switch (h->kind) {
      case FILE_: delete (a0::File*)h->h; break;
      case PUB: delete (a0::Publisher*)h->h; break;
      case SUB_SYNC_ZC: delete (a0::SubscriberSyncZeroCopy*)h->h; break;
      case SUB_SYNC: delete (a0::SubscriberSync*)h->h; break;
      case SUB_ZC: delete (a0::SubscriberZeroCopy*)h->h; break;
      case SUB: delete (a0::Subscriber*)h->h; break;
      case RPC_S: delete (a0::RpcServer*)h->h; break;
      case RPC_C: delete (a0::RpcClient*)h->h; break;
      case PRPC_S: delete (a0::PrpcServer*)h->h; break;
      case PRPC_C: delete (a0::PrpcClient*)h->h; break;
      case CFG: delete (a0::Cfg*)h->h; break;
      case CFG_W: delete (a0::CfgWatcher*)h->h; break;
      case LOGGER: delete (a0::Logger*)h->h; break;
      case LISTENER: delete (a0::LogListener*)h->h; break;
      case DEADMAN: delete (a0::Deadman*)h->h; break;
      case WRITER: {
        // in the order the C interface asks for
        WX* w = (WX*)h->h;
        w->out = a0::Writer();
        w->w = a0::Writer();
        w->f = a0::File();
        delete w;
        break;
      }
      default: delete (a0::Discovery*)h->h;
    }
  }
  a0_err_t close_c(H* h) {
    switch (h->kind) {
      case FILE_: return A(a0_file_close((a0_file_t*)h->h));
      case PUB: return A(a0_publisher_close((a0_publisher_t*)h->h));
      case SUB_SYNC_ZC: return A(a0_subscriber_sync_zc_close((a0_subscriber_sync_zc_t*)h->h));
      case SUB_SYNC: return A(a0_subscriber_sync_close((a0_subscriber_sync_t*)h->h));
      case SUB_ZC: return A(a0_subscriber_zc_close((a0_subscriber_zc_t*)h->h));
      case SUB: return A(a0_subscriber_close((a0_subscriber_t*)h->h));
      case RPC_S: return A(a0_rpc_server_close((a0_rpc_server_t*)h->h));
      case RPC_C: return A(a0_rpc_client_close((a0_rpc_client_t*)h->h));
      case PRPC_S: return A(a0_prpc_server_close((a0_prpc_server_t*)h->h));
      case PRPC_C: return A(a0_prpc_client_close((a0_prpc_client_t*)h->h));
      case CFG: return A(a0_cfg_close((a0_cfg_t*)h->h));
      case CFG_W: return A(a0_cfg_watcher_close((a0_cfg_watcher_t*)h->h));
      case LOGGER: return A(a0_logger_close((a0_logger_t*)h->h));
      case LISTENER: return A(a0_log_listener_close((a0_log_listener_t*)h->h));
      case DEADMAN: return A(a0_deadman_close((a0_deadman_t*)h->h));
      case WRITER: {
        W* w = (W*)h->h;
        a0_err_t e = w->wrapped ? A(a0_writer_close(&w->out)) : A0_OK;
        if (!e) e = A(a0_writer_close(&w->w));
        if (!e) e = A(a0_file_close(&w->f));
        return e;
      }
      default: return A(a0_discovery_close((a0_discovery_t*)h->h));
    }
  }

  // --------------------------------------------------------------------- user
  struct Me {
    Proc* p;
    a0_file_options_t* o;
    size_t fds = 0, maps = 0;   // held by what is open
    int threads = 1;
    size_t blocks = 0;          // in use when nothing is open
    std::vector<H*> open;
  };
  // A thread of the library that needs random numbers opens their source for a moment.
  void settle(Me& me) {
    block_forever_until([&me]() { return !proc_nfds(me.p, true); });
  }
  void held(Me& me, H* h, const char* when) {
    settle(me);
    if (me.p->dying) return;
    const char* x = h->cpp ? " (C++)" : "";
    if (proc_nfds(me.p) != me.fds) fail("C25", "descriptor-leak", "%zu descriptors instead of %zu %s a %s%s", proc_nfds(me.p), me.fds, when, kKind[h->kind], x);
    if (proc_nmaps(me.p) != me.maps) fail("C25", "mapping-leak", "%zu mappings instead of %zu %s a %s%s", proc_nmaps(me.p), me.maps, when, kKind[h->kind], x);
    if (me.p->nthreads_alive != me.threads) fail("C25", "thread-leak", "%d threads instead of %d %s a %s%s", me.p->nthreads_alive, me.threads, when, kKind[h->kind], x);
    if (me.blocks && me.open.empty() && proc_nblocks(me.p) != me.blocks)
      fail("C25", "memory-leak", "%zu blocks of memory instead of %zu %s a %s%s", proc_nblocks(me.p), me.blocks, when, kKind[h->kind], x);
  }
  void open(Me& me, int kind, bool cpp, bool bad) {
    Rng& r = trng();
    H* h = new H();
    h->S = this;
    h->p = me.p;
    h->kind = kind;
    h->cpp = cpp;
    const char* name = kind == DISCOVERY ? r.pick({"**/*.a0", "*.a0", "/dev/shm/alephzero/**/*"}) : kind == FILE_ ? "f.a0" : "t";
    if (bad) name = kind == FILE_ || kind == WRITER ? "" : kind == DISCOVERY ? "" : r.pick({"", "/t", "/"});
    if (bad && !cpp && r.chance(0.3)) name = nullptr;
    u64 f0 = sysfaults();
    note("open %s%s %s", kKind[kind], cpp ? " (C++)" : "", name ? name : "(null)");
    a0_err_t e = cpp ? open_x(h, name) : open_c(h, name, me.o);
    note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
    if (e) {
      if (!bad && sysfaults() == f0) fail("C25", "open-fails", "opening a %s failed with %d/%d although nothing went wrong", kKind[kind], (int)e, syserr(e));
      drop(h);
      h->closed = true;
      if (!h->al.out.empty()) fail("C25", "packet-kept", "failing to open a %s keeps %zu blocks of the caller's allocator", kKind[kind], h->al.out.size());
      held(me, h, "after failing to open");
      mark(bad ? "bad_name_refused" : "open_failed");
      return;
    }
    if (bad) fail("C25", "bad-name-accepted", "a %s is opened for the name '%s'", kKind[kind], name ? name : "(null)");
    settle(me);
    if (kind != DISCOVERY) {  // whose thread opens directories as it goes; it is the only thing open
      h->fds = proc_nfds(me.p) - me.fds;
      h->maps = proc_nmaps(me.p) - me.maps;
      h->threads = me.p->nthreads_alive - me.threads;
    }
    me.fds += h->fds;
    me.maps += h->maps;
    me.threads += h->threads;
    me.open.push_back(h);
    mark("opened");
  }
  void close(Me& me, size_t i) {
    H* h = me.open[i];
    me.open.erase(me.open.begin() + i);
    note("close %s%s", kKind[h->kind], h->cpp ? " (C++)" : "");
    a0_err_t e = A0_OK;
    if (h->cpp)
      close_x(h);
    else
      e = close_c(h);
    note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
    h->closed = true;
    if (e) fail("C25", "close-fails", "closing a %s returned %d/%d", kKind[h->kind], (int)e, syserr(e));
    drop(h);
    me.fds -= h->fds;
    me.maps -= h->maps;
    me.threads -= h->threads;
    if (!h->al.out.empty() && !me.p->dying) fail("C25", "packet-kept", "a closed %s keeps %zu blocks of the caller's allocator", kKind[h->kind], h->al.out.size());
    held(me, h, "after closing");
    mark("closed");
    u64 sg[3] = {(u64)h->kind * 2 + h->cpp, me.fds, me.maps};
    state_sig(hash_mem(sg, sizeof sg));
  }
  void user() {
    Rng& r = trng();
    Me me;
    me.p = cur_proc();
    me.o = palloc<a0_file_options_t>();
    *me.o = file_opts(size);
    {
      // What the library keeps for good after the first time, it may keep.
      NoSysFault nf;
      for (int k : kinds) {
        for (int c = 0; c < (p_cpp > 0 ? 2 : 1); c++) {
          open(me, k, c, false);
          use(me.open.back());
          close(me, 0);
        }
      }
    }
    me.blocks = proc_nblocks(me.p);
    for (int k = 0; k < nops; k++) {
      for (int y = r.range(0, 3); y > 0; y--) yield();
      int op = r.range(0, 9);
      bool disc = !me.open.empty() && me.open[0]->kind == DISCOVERY;
      if (me.open.empty() || (op < 4 && me.open.size() < 4 && !disc)) {
        int kd = kinds[r.below(kinds.size())];
        if (kd == DISCOVERY && !me.open.empty()) continue;
        open(me, kd, r.chance(p_cpp), r.chance(p_bad));
      } else if (op < 7) {
        use(me.open[r.below(me.open.size())]);
      } else {
        close(me, r.below(me.open.size()));
      }
    }
    while (!me.open.empty()) close(me, r.below(me.open.size()));
  }
  bool idle(int) override {
    for (Thread* t : users)
      if (!thread_done(t)) fail("C25,C08", "stuck", "%s does not get through opening, using and closing", thread_name(t));
    for (auto& f : vfs_list("/")) {
      if (vfs_isdir(f.c_str())) continue;
      size_t s = f.find_last_of('/');
      std::string n = f.substr(s + 1), d = f.substr(0, s);
      bool tmp = n.find("mkstemp") != std::string::npos;
      if (tmp && !deaths) fail("C25,C18", "temporary-file-left", "%s is left behind", f.c_str());
      if (!tmp && (d != "/dev/shm/alephzero" || (n != "f.a0" && n.compare(0, 2, "t.")))) fail("C25", "strange-file", "%s was created", f.c_str());
    }
    return false;
  }
};
SCENARIO("res", ResScen)
}  // namespace
