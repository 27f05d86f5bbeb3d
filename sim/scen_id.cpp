// Generated ids: C21.
#include <a0/packet.h>
#include <a0/uuid.h>

#include "scen.h"

namespace {

struct IdScen : Scenario {
  std::map<std::string, std::string> seen;  // id -> who
  std::vector<Thread*> workers;
  int nops, forks, kids = 0;
  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.3);
    if (s.faults && r.chance(0.6)) {
      cfg.p_syserr = r.pick({0.1, 0.4, 0.9});
      cfg.sysmask = ~0u;
    }
    set_generic_props("C21");
    nops = r.range(1, 8);
    forks = r.chance(0.6) ? r.range(1, 3) : 0;
    int np = r.range(1, 4);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* p = new_proc(n);
      int nt = r.range(1, 3);
      for (int j = 0; j < nt; j++) workers.push_back(spawn(p, j == 0 ? "a" : j == 1 ? "b" : "c", [this]() { worker(nops); }));
    }
  }
  void use(const char* id) {
    std::string s(id, strnlen(id, 40));
    bool ok = s.size() == 36;
    for (size_t i = 0; ok && i < 36; i++) {
      char c = s[i];
      if (i == 8 || i == 13 || i == 18 || i == 23) {
        ok = c == '-';
      } else {
        ok = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
      }
    }
    if (ok) ok = s[14] == '4' && strchr("89ABab", s[19]);
    if (!ok) fail("C21", "malformed-id", "id '%s' is not well formed", s.c_str());
    note("id %s", s.c_str());
    auto it = seen.find(s);
    if (it != seen.end()) fail("C21", "repeated-id", "%s and %s got the same id %s", it->second.c_str(), thread_name(cur_thread()), s.c_str());
    seen[s] = thread_name(cur_thread());
    mark("ids");
    u64 h = hash_mem(s.data(), 36);
    state_sig(h);
  }
  void one() {
    if (trng().chance(0.5)) {
      a0_uuid_t u;
      memset(u, 0, sizeof u);
      AV(a0_uuidv4(u));
      use(u);
    } else {
      a0_packet_t p;
      memset(&p, 0, sizeof p);
      AV(a0_packet_init(&p));
      use(p.id);
    }
  }
  void worker(int n) {
    Rng& r = trng();
    for (int i = 0; i < n; i++) {
      for (int y = r.range(0, 2); y > 0; y--) yield();
      if (kids < forks && r.chance(0.2)) {
        char nm[16];
        snprintf(nm, sizeof nm, "k%d", kids++);
        int m = r.range(1, nops);
        note("fork %s", nm);
        mark("fork");
        fork_proc(nm, [this, m]() { worker(m); });
      }
      one();
    }
  }
  bool idle(int) override {
    for (Thread* t : workers)
      if (!thread_done(t)) fail("C21", "stuck", "generating an id blocks");
    return false;
  }
};
SCENARIO("id", IdScen)
}  // namespace
