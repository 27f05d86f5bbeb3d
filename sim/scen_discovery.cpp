// File discovery under concurrent creation and removal: C17.
#include <a0/discovery.h>
#include <a0/discovery.hpp>

#include "cxx.h"

namespace {

// Own reading of the pattern language.
std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v;
  std::string c;
  for (size_t i = 1; i <= s.size(); i++)
    if (i == s.size() || s[i] == '/') {
      v.push_back(c);
      c.clear();
    } else {
      c += s[i];
    }
  return v;
}
bool glob1(const char* p, const char* s) {
  if (*p == '*') return glob1(p + 1, s) || (*s && glob1(p, s + 1));
  if (!*p) return !*s;
  return *p == *s && glob1(p + 1, s + 1);
}
bool globn(const std::vector<std::string>& p, size_t i, const std::vector<std::string>& s, size_t j) {
  if (i == p.size()) return j == s.size();
  if (p[i] == "**" && i + 1 < p.size()) {
    for (size_t k = j; k <= s.size(); k++)
      if (globn(p, i + 1, s, k)) return true;
    return false;
  }
  return j < s.size() && glob1(p[i].c_str(), s[j].c_str()) && globn(p, i + 1, s, j + 1);
}

struct DiscScen : Scenario {
  struct D {
    DiscScen* sc;
    Proc* p = nullptr;
    std::string pat, given;
    std::vector<std::string> parts;
    std::map<std::string, int> seen;
    a0_discovery_t* d = nullptr;
    a0::Discovery* x = nullptr;  // the C++ interface is used
    bool open = false, closing = false, closed = false;
    Thread *owner = nullptr, *closer = nullptr;
    std::vector<std::string> must;  // announced even if it is gone again
  };
  std::vector<D*> ds;
  std::vector<Thread*> actors;
  std::string base;
  std::vector<std::string> dirs, files;
  bool removals = false, drop_base = false;
  int nops, round = 0, crowd = 0;
  bool crowded = false;
  bool finish = false;

  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.3);
    cfg.sysmask &= (1u << SYSF_INOTIFY) | (1u << SYSF_EPOLL) | (1u << SYSF_EVENTFD) | (1u << SYSF_THREAD) | (1u << SYSF_OPEN) | (1u << SYSF_MKSTEMP) |
                   (1u << SYSF_FTRUNCATE) | (1u << SYSF_MMAP) | (1u << SYSF_LINK) | (1u << SYSF_MKDIR);
    if (s.faults) cfg.inotify_queue = r.pick({16384, 16384, 1, 2, 4, 8});
    cfg.fault_steps = 60000;
    set_generic_props("C17");
    no_locks_after_calls("C17");
    vfs_track_ever();
    removals = r.chance(0.6);
    drop_base = removals && r.chance(0.5);
    bool rel = r.chance(0.3);
    base = rel ? "/dev/shm/alephzero/r" : "/sim/r";
    std::string pre = rel ? "r" : base;
    dirs = {base, base + "/d0", base + "/d1", base + "/d0/d1", base + "/d0/d0", base + "/d1/d0", base + "/d0/d1/d0"};
    if (r.chance(0.5)) dirs.resize(r.range(2, 4));
    if (r.chance(0.2)) dirs.insert(dirs.end(), {base + "/.d", base + "/d0/.d1", base + "/..d"});
    for (auto& d : dirs)
      for (const char* f : {"f0.a0", "f1.a0", "g.txt", ".f.a0"})
        if (*f != '.' || dirs.size() > 7) files.push_back(d + "/" + f);
    if (r.chance(0.15)) {
      // long names
      for (size_t i = 0; i < 3; i++) files.push_back(dirs[r.below(dirs.size())] + "/f" + std::string(r.pick({62, 120, 200, 240}), 'n') + std::to_string(i) + ".a0");
      dirs.push_back(base + "/" + std::string(r.pick({70, 200}), 'd'));
      files.push_back(dirs.back() + "/f0.a0");
    }
    if (r.chance(0.03)) {
      // a deep tree
      std::string d = dirs[r.below(2)];
      for (int k = r.range(24, 36); k > 0; k--) d += "/e";
      vfs_mkdirs(d.substr(0, d.size() - 2 * r.below(20)).c_str());
      dirs.push_back(d);
      for (int k = r.range(1, 3); k > 0; k--) files.push_back(d.substr(0, d.size() - 2 * r.below(8)) + "/f" + std::to_string(k) + ".a0");
    }
    crowd = r.chance(0.02) ? r.pick({40, 70, 140}) : 0;
    nops = r.range(2, 14);
    // What exists beforehand.
    if (r.chance(0.7)) vfs_mkdirs(base.c_str());
    for (int k = 0; k < crowd; k += 2) vfs_mkfile((base + "/f" + std::to_string(k) + "c.a0").c_str());
    for (int k = r.range(0, 4); k > 0; k--) {
      std::string f = files[r.below(files.size())];
      if (r.chance(0.7)) vfs_mkdirs(f.substr(0, f.rfind('/')).c_str());
      vfs_mkfile(f.c_str());
    }
    int nd = r.range(1, 2);
    for (int i = 0; i < nd; i++) {
      D* d = new D();
      d->sc = this;
      switch (r.range(0, 7)) {
        case 0: d->given = pre + "/*.a0"; break;
        case 1: d->given = pre + "/*/*.a0"; break;
        case 2: d->given = pre + "/d0/f0.a0"; break;
        case 3: d->given = pre + "/**/d1/*.a0"; break;
        case 4: d->given = base.substr(0, base.size() - 1) + "*/d0/**/f*.a0"; break;
        case 5: d->given = pre + "/d0/d1/*"; break;
        default: d->given = pre + "/**/*.a0"; break;
      }
      d->pat = d->given[0] == '/' ? d->given : "/dev/shm/alephzero/" + d->given;
      d->parts = split(d->pat);
      char n[8];
      snprintf(n, sizeof n, "disc%d", i);
      d->p = new_proc(n);
      d->owner = spawn(d->p, "own", [this, d]() { owner(d); });
      // the process lives on even if the discovery thread should end
      spawn(d->p, "keep", [this]() { block_forever_until([this]() { return finish; }); });
      ds.push_back(d);
    }
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "mk%d", i);
      actors.push_back(spawn(new_proc(n), "a", [this]() { actor(nops); }));
    }
  }
  bool matches(D* d, const std::string& path) { return globn(d->parts, 0, split(path), 0); }

  static void found(void* u, const char* path) {
    Cb cb;
    D* d = (D*)u;
    note("found %s", path);
    if (cur_proc() != d->p) fail("C17", "wrong-process", "callback in another process");
    if (d->closed) fail("C17", "callback-after-close", "%s announced after close returned", path);
    if (!d->sc->matches(d, path)) fail("C17", "announces-non-match", "%s announced for %s", path, d->pat.c_str());
    if (!vfs_ever(path)) fail("C17", "announces-phantom", "%s announced but it never existed", path);
    if (d->seen[path]++) fail("C17", "announced-twice", "%s announced twice", path);
    mark("announced");
    if (trng().chance(0.2)) yield();
  }
  a0_err_t init(D* d, a0_discovery_callback_t cb, bool cpp) {
    if (!cpp) return A(a0_discovery_init(d->d, d->given.c_str(), cb));
    return X([&]() { d->x = new a0::Discovery(d->given, [d](const std::string& path) { found(d, path.c_str()); }); });
  }
  // A pattern no path can match for its length or depth is refused, or announces nothing.
  void unusable(D* d) {
    std::string pat = "/sim";
    bool deep = trng().chance(0.5);
    while (pat.size() < 4200) pat += "/" + std::string(deep ? 1 : 200, 'y');
    pat += "/*";
    a0_discovery_callback_t cb = {d, found};
    NoSysFault nsf;
    a0_err_t e = A(a0_discovery_init(d->d, pat.c_str(), cb));
    note("overlong pattern -> %d/%d", (int)e, e ? syserr(e) : 0);
    if (!e) A(a0_discovery_close(d->d));
    if (proc_nfds(d->p)) fail("C17", "close-leaks", "%zu descriptors are left after a refused pattern", proc_nfds(d->p));
    mark("overlong_pattern");
  }
  void owner(D* d) {
    Rng& r = trng();
    for (int k = r.range(0, 12); k > 0; k--) yield();
    d->d = palloc<a0_discovery_t>();
    if (r.chance(0.03)) unusable(d);
    a0_discovery_callback_t cb = {d, found};
    bool cpp = r.chance(0.25);
    for (int tries = 0;; tries++) {
      u64 f0 = sysfaults();
      size_t nf = proc_nfds(d->p);
      note("discovery init %s", d->given.c_str());
      a0_err_t e;
      if (tries == 2) {
        NoSysFault nsf;
        e = init(d, cb, cpp);
      } else {
        e = init(d, cb, cpp);
      }
      note("  -> %d/%d", (int)e, e ? syserr(e) : 0);
      if (!e) {
        if (sysfaults() != f0) fail("C17", "failure-ignored", "init reports success although a system call it needs failed: it will never announce anything");
        break;
      }
      if (sysfaults() == f0) fail("C17", "init-fails", "init failed with %d/%d", (int)e, syserr(e));
      if (proc_nfds(d->p) != nf) fail("C17", "init-leaks", "failed init leaves %zu descriptors", proc_nfds(d->p) - nf);
      mark("init_failed");
    }
    d->open = true;
    if (r.chance(0.15)) {
      for (int k = r.range(0, 60); k > 0; k--) yield();
      close(d);
    }
  }
  void close(D* d) {
    if (d->closing || !d->open) return;
    d->closing = true;
    note("discovery close");
    a0_err_t e = A0_OK;
    if (d->x)
      AV(delete d->x);
    else
      e = A(a0_discovery_close(d->d));
    d->closed = true;
    d->open = false;
    if (e) fail("C17", "close-fails", "close returned %d/%d", (int)e, syserr(e));
    memset((void*)d->d, 0xdd, sizeof *d->d);
    pfree(d->d);
    if (proc_nfds(d->p)) fail("C17", "close-leaks", "%zu descriptors are left after close", proc_nfds(d->p));
    mark("closed");
  }
  void actor(int n) {
    Rng& r = trng();
    if (crowd && !crowded) {
      crowded = true;
      for (int k = 1; k < crowd; k += 2) {
        vfs_mkfile((base + "/f" + std::to_string(k) + "c.a0").c_str());
        if (r.chance(0.2)) yield();
      }
      mark("crowd");
    }
    for (int k = 0; k < n; k++) {
      for (int y = r.chance(0.5) ? 0 : r.range(0, 10); y > 0; y--) yield();
      std::string f = files[r.below(files.size())];
      std::string d = dirs[r.below(dirs.size())];
      int op = r.range(0, removals ? 9 : 5);
      if (op <= 2) {
        note("open %s", f.c_str());
        a0_file_options_t o = file_opts(64);
        a0_file_t fl;
        memset(&fl, 0, sizeof fl);
        if (!A(a0_file_open(f.c_str(), &o, &fl))) A(a0_file_close(&fl));
      } else if (op == 3) {
        note("mkdir %s", d.c_str());
        vfs_mkdir(d.c_str());
      } else if (op == 4) {
        note("mkdirs+create %s", f.c_str());
        for (size_t i = 1; i < f.size(); i++)
          if (f[i] == '/') {
            if (vfs_mkdir(f.substr(0, i).c_str())) yield();
          }
        vfs_mkfile(f.c_str());
      } else if (op == 5) {
        note("create %s", f.c_str());
        vfs_mkfile(f.c_str());
      } else if (op == 6) {
        note("unlink %s", f.c_str());
        vfs_unlink(f.c_str());
      } else if (op == 7) {
        if (d == base && !drop_base) continue;
        note("rmdir %s", d.c_str());
        if (vfs_rmdir(d.c_str())) mark("directory_removed");
      } else {
        if (d == base && !drop_base) continue;
        if (!vfs_isdir(d.c_str())) continue;
        note("remove all %s", d.c_str());
        A(a0_file_remove_all(d.c_str()));
        if (!vfs_exists(d.c_str())) mark("directory_removed");
        if (r.chance(0.7)) {
          if (vfs_mkdir(d.c_str())) {
            mark("directory_recreated");
            if (r.chance(0.5)) yield();
            if (r.chance(0.7)) vfs_mkfile((d + "/f0.a0").c_str());
          }
        }
      }
    }
  }
  // The second round first puts files that do not live long into directories that have been there for a while.
  void quick() {
    Rng& r = trng();
    std::vector<std::string> have;
    for (auto& d : dirs)
      if (vfs_isdir(d.c_str())) have.push_back(d);
    if (have.empty()) return;
    for (int k = r.range(0, 3); k > 0; k--) {
      std::string f = have[r.below(have.size())] + "/q" + std::to_string(k) + ".a0";
      if (!vfs_mkfile(f.c_str())) continue;
      for (D* d : ds)
        if (d->open && !d->closing && matches(d, f)) d->must.push_back(f);
      note("short-lived %s", f.c_str());
      if (r.chance(0.5)) yield();
      vfs_unlink(f.c_str());
    }
  }
  bool settled_ok(D* d) { return d->open && !d->closing && !d->p->dead && !d->p->dying; }
  bool idle(int stage) override {
    for (Thread* t : actors)
      if (!thread_done(t)) fail("C17", "stuck", "%s is stuck", thread_name(t));
    if (finish) return false;
    for (D* d : ds) {
      if (!thread_done(d->owner)) fail("C17", "stuck", "init or close of a discovery does not return");
      if (d->closer && !thread_done(d->closer)) fail("C17", "close-hangs", "close does not return");
      if (!settled_ok(d)) continue;
      for (auto& f : vfs_list("/")) {
        if (vfs_isdir(f.c_str()) || !matches(d, f)) continue;
        if (!d->seen.count(f)) fail("C17", "not-announced", "%s exists and matches %s but was never announced", f.c_str(), d->pat.c_str());
      }
      if (!inotify_overflowed())
        for (auto& f : d->must)
          if (!d->seen.count(f)) fail("C17", "not-announced", "%s was created in a watched directory but never announced", f.c_str());
      u64 h = d->seen.size();
      state_sig(hash_mem(&h, 8));
    }
    if (inotify_overflowed()) mark("overflow_survived");
    if (stage < 2) {
      Proc* p = new_proc("late");
      p->killable = false;
      bool q = cfg_rng().chance(0.5);
      actors.push_back(spawn(p, "a", [this, q]() {
        NoSysFault nf;
        if (q) quick();
        actor(nops);
      }));
      return true;
    }
    if (stage == 2) {
      for (D* d : ds)
        if (settled_ok(d)) d->closer = spawn(d->p, "cls", [this, d]() { close(d); });
      Proc* p = new_proc("last");
      p->killable = false;
      actors.push_back(spawn(p, "a", [this]() { actor(3); }));
      return true;
    }
    for (D* d : ds)
      if (d->closer && !thread_done(d->closer) && !d->p->dead) fail("C17", "close-hangs", "close does not return");
    finish = true;
    return true;
  }
};
SCENARIO("dc", DiscScen)
}  // namespace
