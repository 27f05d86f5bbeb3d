// Racing and failing file creation: C18.
#include <a0/topic.h>

#include "scen.h"

namespace {

struct FileScen : Scenario {
  struct P {
    std::string path, name;  // name: as given to the library
    std::string tmpl, topic;
    size_t size;
    u32 mode = 0666;
    u64 ino = 0;             // the file everybody must get
    bool bad = false;        // below something that is not a directory
  };
  std::vector<P> ps;
  bool removes = false;
  struct Pr {
    int threads = 0, inop = 0;
    size_t fds = 0, maps = 0;  // held by successful opens
  };
  std::map<Proc*, Pr> pr;
  std::map<Thread*, bool> inop;
  std::vector<Thread*> workers;
  int nops, deaths_inside = 0, ids = 0;
  u64 removed = 0;
  Thread* insp = nullptr;
  bool watching = true;

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.5);
    if (s.faults && r.chance(0.5)) {
      cfg.p_syserr = r.pick({0.02, 0.1, 0.3});
      cfg.sysmask = r.chance(0.5) ? ~0u : (u32)r.next();
    }
    cfg.fault_steps = 60000;
    set_generic_props("C18");
    no_locks_after_calls("C18");
    removes = r.chance(0.25);
    nops = r.range(1, 6);
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      P p;
      p.mode = r.pick({0666, 0666, 0640, 0600, 0644});
      p.size = r.pick({64, 200, 1024, 4096, 5000});
      switch (r.range(0, 4)) {
        case 0: p.path = p.name = "/sim/f" + std::to_string(i); break;
        case 1: p.path = p.name = "/sim/d/e/f" + std::to_string(i) + ".a0"; break;
        case 2:
          p.name = "rel" + std::to_string(i) + "/x.a0";
          p.path = "/dev/shm/alephzero/" + p.name;
          break;
        case 3:
          p.tmpl = "dir/{topic}.t.a0";
          p.topic = "top/ic" + std::to_string(i);
          p.name = "dir/" + p.topic + ".t.a0";
          p.path = "/dev/shm/alephzero/" + p.name;
          break;
        default: {
          vfs_mkdirs("/sim");
          std::string par = "/sim/plain" + std::to_string(i);
          vfs_mkfile(par.c_str());
          p.path = p.name = par + "/x";
          p.bad = true;
        }
      }
      ps.push_back(p);
    }
    int nproc = r.range(1, 4);
    for (int i = 0; i < nproc; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      Proc* q = new_proc(n);
      int nt = r.chance(0.5) ? 1 : r.range(2, 3);
      pr[q].threads = nt;
      for (int j = 0; j < nt; j++) workers.push_back(spawn(q, j == 0 ? "a" : j == 1 ? "b" : "c", [this]() { worker(); }));
    }
    Proc* w = new_proc("watch");
    w->killable = false;
    spawn(w, "w", [this]() {
      for (int i = 0; i < 400; i++) {
        look();
        yield();
      }
    });
  }
  void thread_dead(Thread* t) override {
    if (inop.count(t) && inop[t]) {
      deaths_inside++;
      mark("death_inside_open");
    }
    inop.erase(t);
  }
  // The path never names a partially created file.
  void look() {
    for (P& p : ps) {
      if (!vfs_exists(p.path.c_str())) continue;
      if (p.bad) fail("C18", "created-below-a-file", "%s exists", p.path.c_str());
      size_t n = vfs_size(p.path.c_str());
      if (n != p.size) fail("C18", "partial-file-visible", "%s exists with %zu bytes instead of %zu", p.path.c_str(), n, p.size);
      u32 mode = vfs_mode(p.path.c_str());
      if (mode != p.mode) fail("C18", "partial-file-visible", "%s exists with the permissions %o instead of %o", p.path.c_str(), mode, p.mode);
      u64 ino = vfs_inode(p.path.c_str());
      if (!removes) {
        if (!p.ino) p.ino = ino;
        if (p.ino != ino) fail("C18", "file-replaced", "%s was replaced by another file", p.path.c_str());
      }
    }
  }
  static a0_file_options_t opts(P& p, a0_arena_mode_t m) {
    a0_file_options_t o = file_opts(p.size, m);
    o.create_options.mode = p.mode;
    return o;
  }
  bool settled(Proc* q) { return pr[q].inop == 0; }

  a0_err_t open(P& p, a0_file_options_t* o, a0_file_t* f) {
    if (!p.tmpl.empty()) return A(a0_topic_open(p.tmpl.c_str(), p.topic.c_str(), o, f));
    return A(a0_file_open(p.name.c_str(), o, f));
  }
  void check_content(P& p, const unsigned char* d, size_t n, const char* when) {
    for (size_t i = 0; i < n; i++) {
      size_t e = i < n / 2 ? i : n - 1 - i;
      if (d[i] && (e >= 60 || d[i] != e % 60 + 1)) fail("C18", "not-zero-filled", "%s: byte %zu is %d %s", p.path.c_str(), i, d[i], when);
    }
  }
  void worker() {
    Rng& r = trng();
    Proc* q = cur_proc();
    Pr& me = pr[q];
    int id = ids++ % 30;
    std::vector<std::pair<int, a0_file_t>> open_files;
    for (int k = 0; k < nops; k++) {
      for (int y = r.range(0, 3); y > 0; y--) yield();
      int pi = r.range(0, (int)ps.size() - 1);
      P& p = ps[pi];
      if (!open_files.empty() && r.chance(0.3)) {
        a0_file_t f = open_files.back().second;
        open_files.pop_back();
        me.inop++;
        me.fds--;
        me.maps--;
        a0_err_t e = A(a0_file_close(&f));
        me.inop--;
        if (e) fail("C18", "close-fails", "close returned %d/%d", (int)e, syserr(e));
        leak_check(q, "after a close");
        continue;
      }
      if (removes && r.chance(0.2)) {
        removed++;
        note("remove %s", p.path.c_str());
        me.inop++;
        A(a0_file_remove(p.name.c_str()));
        me.inop--;
        continue;
      }
      a0_file_options_t o = opts(p, r.pick({A0_ARENA_MODE_SHARED, A0_ARENA_MODE_SHARED, A0_ARENA_MODE_READONLY, A0_ARENA_MODE_EXCLUSIVE}));
      a0_file_t f;
      memset(&f, 0, sizeof f);
      u64 f0 = sysfaults();
      inop[cur_thread()] = true;
      me.inop++;
      note("open %s", p.path.c_str());
      a0_err_t e = open(p, &o, &f);
      note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
      me.inop--;
      inop[cur_thread()] = false;
      look();
      if (e) {
        if (!p.bad && sysfaults() == f0) fail("C18", "open-fails", "open of %s failed with %d/%d although nothing went wrong", p.path.c_str(), (int)e, syserr(e));
        mark(p.bad ? "bad_parent_refused" : "open_failed");
        leak_check(q, "after a failed open");
        continue;
      }
      if (p.bad) fail("C18", "bad-parent-accepted", "open below a plain file succeeded");
      me.fds++;
      me.maps++;
      leak_check(q, "after an open");
      if (!f.arena.buf.data || f.arena.buf.size != p.size || (size_t)f.stat.st_size != p.size) fail("C18", "wrong-size", "open of %s gives %zu bytes (file %zu), asked for %zu", p.path.c_str(), f.arena.buf.size, (size_t)f.stat.st_size, p.size);
      if (!f.path || strcmp(f.path, p.path.c_str())) fail("C18", "wrong-path", "open of %s reports the path %s", p.path.c_str(), f.path ? f.path : "-");
      if (f.arena.mode != o.open_options.arena_mode) fail("C18", "wrong-mode", "open reports another arena mode");
      u64 ino = mapping_inode(f.arena.buf.data);
      if (f.stat.st_ino && f.stat.st_ino != ino) fail("C18", "two-files", "reported inode and mapped inode differ");
      if (!removes && ino != p.ino) fail("C18", "two-files", "open of %s mapped another file than the path names", p.path.c_str());
      bool ro = o.open_options.arena_mode == A0_ARENA_MODE_READONLY;
      check_content(p, f.arena.buf.data, p.size, "at open");
      mark("opened");
      if (!ro) {
        f.arena.buf.data[id] = id % 60 + 1;
        f.arena.buf.data[p.size - 1 - id] = id % 60 + 1;
      }
      std::vector<unsigned char> b;
      vfs_bytes(ino, b);
      if (!ro && (int)b.size() > id && b[id] != id % 60 + 1) fail("C18", "not-shared", "a write through the mapping does not reach the file");
      open_files.emplace_back(pi, f);
      u64 h = ino * 31 + me.fds;
      state_sig(hash_mem(&h, 8));
    }
    while (!open_files.empty()) {
      a0_file_t f = open_files.back().second;
      open_files.pop_back();
      me.inop++;
      me.fds--;
      me.maps--;
      A(a0_file_close(&f));
      me.inop--;
    }
    leak_check(q, "at the end");
  }
  void leak_check(Proc* q, const char* when) {
    Pr& me = pr[q];
    if (me.inop || q->dying) return;
    if (proc_nfds(q) != me.fds) fail("C18", "descriptor-leak", "%zu descriptors instead of %zu %s", proc_nfds(q), me.fds, when);
    if (proc_nmaps(q) != me.maps) fail("C18", "mapping-leak", "%zu mappings instead of %zu %s", proc_nmaps(q), me.maps, when);
  }
  bool idle(int stage) override {
    if (insp && !thread_done(insp)) fail("C18", "stuck", "opening a file blocks");
    for (Thread* t : workers)
      if (!thread_done(t)) fail("C18", "stuck", "opening a file blocks");
    look();
    if (stage == 0) {
      int tmp = 0;
      for (auto& f : vfs_list("/")) {
        if (f.find(".alephzero_mkstemp") != std::string::npos) tmp++;
      }
      if (tmp > deaths_inside) fail("C18", "temporary-file-left", "%d temporary files are left behind, %d openers died", tmp, deaths_inside);
      if (tmp) mark("temporary_left_by_death");
      Proc* q = new_proc("insp");
      q->killable = false;
      insp = spawn(q, "chk", [this]() {
        NoSysFault nf;
        for (P& p : ps) {
          if (p.bad) continue;
          a0_file_options_t o = opts(p, A0_ARENA_MODE_SHARED);
          a0_file_t f;
          memset(&f, 0, sizeof f);
          a0_err_t e = open(p, &o, &f);
          if (e) fail("C18", "later-open-fails", "a later open of %s fails with %d/%d", p.path.c_str(), (int)e, syserr(e));
          look();
          if (!removes && mapping_inode(f.arena.buf.data) != p.ino) fail("C18", "two-files", "a later open maps another file");
          check_content(p, f.arena.buf.data, p.size, "at the end");
          A(a0_file_close(&f));
        }
      });
      return true;
    }
    return false;
  }
};
SCENARIO("fl", FileScen)
}  // namespace
