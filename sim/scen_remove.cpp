// Removing files and directories, and listing them: C26.
#include <a0/file.hpp>
#include <dirent.h>

#include <set>

#include "cxx.h"
#include "scen.h"

namespace {

struct RemoveScen : Scenario {
  struct Op {
    std::string path;
    bool all = false;
    bool alone = true;  // nothing else happened meanwhile
    bool returned = false;
  };
  struct Tree {
    std::string top, name;  // name: as given to the library
  };
  std::vector<Tree> trees;
  std::vector<std::string> nodes;     // everything there is below the trees, and the trees
  std::set<std::string> inside, gone, outside;
  std::vector<Op> ops;
  std::map<Thread*, int> cur;
  std::vector<Thread*> all;
  Thread* insp = nullptr;
  int nops = 0, nadded = 0;
  u64 seen = 0;
  bool adders = false, longs = false;

  std::string entry(Rng& r) {
    int k = r.range(0, 9);
    std::string n = std::to_string(r.below(1000));
    switch (k) {
      case 0: return ".h" + n;
      case 1: return "..x" + n;
      case 2: return "..." + n;
      case 3: return std::string(r.range(100, 240), 'n') + n;
      case 4: return n + ".a0";
      case 5: return "a b*" + n;
      default: return "f" + n;
    }
  }
  void grow(Rng& r, const std::string& d, int depth) {
    int n = r.pick({0, 1, 2, 3, 5});
    for (int i = 0; i < n; i++) {
      std::string e = d + "/" + (i == 0 && r.chance(0.1) ? r.pick({"...", "..x", ".x", "...."}) : entry(r));
      if (vfs_there(e.c_str())) continue;
      int k = r.range(0, 9);
      if (k < 4 && depth > 0) {
        vfs_mkdirs(e.c_str());
        grow(r, e, depth - 1);
      } else if (k < 6) {
        static const char* const targets[] = {"/sim/other", "/sim/other/file", "/sim", "/nowhere", "/sim/other/dir"};
        vfs_symlink(targets[r.range(0, 4)], e.c_str());
      } else {
        vfs_mkfile(e.c_str());
      }
    }
  }
  // Entries whose path is about as long as a path can be, or longer.
  void grow_long(Rng& r, std::string d) {
    while (d.size() < 3700) {
      d += "/" + std::string(240, (char)('a' + r.below(3)));
      vfs_mkdirs(d.c_str());
    }
    size_t room = 4096 - d.size() - 1;  // a name of this length gives a path of 4096 characters
    if (room > 251) {
      d += "/" + std::string(room - 251 + r.below(200), 'l');
      vfs_mkdirs(d.c_str());
      room = 4096 - d.size() - 1;
    }
    for (int k = r.range(1, 3); k > 0; k--) {
      size_t n = r.chance(0.5) ? room - 2 + r.below(4) : r.range(1, 250);
      if (n < 1 || n > 250) n = 250;
      std::string e = d + "/" + std::string(n, (char)('p' + k));
      if (r.chance(0.3)) {
        vfs_mkdirs(e.c_str());
        if (r.chance(0.5)) vfs_mkfile((e + "/z").c_str());
      } else {
        vfs_mkfile(e.c_str());
      }
    }
    longs = true;
    mark("long_paths");
  }
  // Is there something in or below the directory that no path reaches?
  bool beyond(const std::string& top) {
    if (longs)
      for (auto& f : vfs_list(top.c_str()))
        if (f.size() >= 4096) return true;
    return false;
  }
  void setup() override {
    Rng& r = cfg_rng();
    Swarm s = swarm(cfg, 0.4);
    if (s.faults && r.chance(0.5)) {
      cfg.p_syserr = r.pick({0.02, 0.1, 0.3});
      cfg.sysmask = r.chance(0.5) ? ~0u : (u32)r.next();
    }
    cfg.unlink_fails = true;
    cfg.fault_steps = 60000;
    set_generic_props("C26");
    no_locks_after_calls("C26");
    vfs_mkdirs("/dev/shm/alephzero");
    vfs_mkdirs("/sim/other/dir/deep");
    vfs_mkfile("/sim/other/file");
    vfs_mkfile("/sim/other/dir/x");
    vfs_mkfile("/sim/other/dir/deep/y");
    int nt = r.range(1, 3);
    for (int i = 0; i < nt; i++) {
      Tree t;
      std::string n = "t" + std::to_string(i);
      if (r.chance(0.5)) {
        t.top = t.name = "/sim/" + n;
      } else {
        t.name = n;
        t.top = "/dev/shm/alephzero/" + n;
        // Something of the same name where the process happens to be.
        if (r.chance(0.3)) {
          vfs_mkdirs(("/" + n + "/z").c_str());
          vfs_mkfile(("/" + n + "/z/q").c_str());
        }
      }
      // Neighbours with similar names.
      vfs_mkdirs((t.top + "x").c_str());
      vfs_mkfile((t.top + "x/f").c_str());
      vfs_mkfile((t.top + ".").c_str());
      trees.push_back(t);
    }
    for (auto& f : vfs_list("/")) outside.insert(f);
    for (Tree& t : trees) {
      vfs_mkdirs(t.top.c_str());
      outside.erase(t.top);
      grow(r, t.top, r.pick({1, 2, 4, 7}));
      if (r.chance(0.01)) grow_long(r, t.top);
      inside.insert(t.top);
      for (auto& f : vfs_list(t.top.c_str())) inside.insert(f);
    }
    nodes.assign(inside.begin(), inside.end());
    adders = r.chance(0.2);
    nops = r.range(1, 5);
    int np = r.chance(0.4) ? 1 : r.range(2, 3);
    for (int i = 0; i < np; i++) {
      char n[8];
      snprintf(n, sizeof n, "p%d", i);
      all.push_back(spawn(new_proc(n), "m", [this]() { worker(); }));
    }
    Proc* w = new_proc("watch");
    w->killable = false;
    spawn(w, "w", [this]() {
      for (int i = 0; i < 300; i++) {
        look();
        if (adders && trng().chance(0.1)) add();
        yield();
      }
    });
  }
  void add() {
    Rng& r = trng();
    std::vector<std::string> ds;
    for (auto& n : nodes)
      if (vfs_there(n.c_str()) && vfs_isdir(n.c_str()) && !vfs_islink(n.c_str())) ds.push_back(n);
    if (ds.empty()) return;
    std::string f = ds[r.below(ds.size())] + "/new" + std::to_string(nadded++);
    if (vfs_mkfile(f.c_str())) {
      inside.insert(f);
      nodes.push_back(f);
      for (auto& c : cur) ops[c.second].alone = false;
      mark("file_added");
    }
  }
  void thread_dead(Thread* t) override {
    auto i = cur.find(t);
    if (i == cur.end()) return;
    mark("death_while_removing");
    cur.erase(i);
  }
  static bool below(const std::string& top, const std::string& p) { return p.size() > top.size() && p.compare(0, top.size(), top) == 0 && p[top.size()] == '/'; }
  bool covered(const std::string& p) {
    for (Op& o : ops)
      if (p == o.path || (o.all && below(o.path, p))) return true;
    return false;
  }
  // Nothing but what was to be removed is gone, and what is gone stays away.
  void look() {
    if (seen == vfs_changes()) return;
    seen = vfs_changes();
    std::set<std::string> now;
    for (auto& f : vfs_list("/")) now.insert(f);
    for (auto& f : outside)
      if (!now.count(f)) fail("C26", "outside-removed", "%s is gone although nobody asked for it to be removed", f.c_str());
    for (auto& f : inside)
      if (!now.count(f) && !gone.count(f)) {
        if (!covered(f)) fail("C26", "too-much-removed", "%s is gone although nobody asked for it to be removed", f.c_str());
        gone.insert(f);
        mark("removed");
      }
    for (auto& f : now)
      if (!outside.count(f) && !inside.count(f)) fail("C26", "appeared", "%s appeared", f.c_str());
  }
  std::string given(const std::string& path) {
    for (Tree& t : trees)
      if (path == t.top || below(t.top, path)) return t.name + path.substr(t.top.size());
    return path;
  }
  size_t begin(const std::string& path, bool rm_all) {
    for (auto& c : cur) ops[c.second].alone = false;
    Op o;
    o.path = path;
    o.all = rm_all;
    o.alone = cur.empty();
    ops.push_back(o);
    cur[cur_thread()] = ops.size() - 1;
    return ops.size() - 1;
  }
  void worker() {
    Rng& r = trng();
    Proc* q = cur_proc();
    std::vector<std::string> mine = nodes;
    for (int k = 0; k < nops; k++) {
      for (int y = r.range(0, 3); y > 0; y--) yield();
      look();
      std::string path = r.chance(0.3) ? trees[r.below(trees.size())].top : mine[r.below(mine.size())];
      bool missing = r.chance(0.08);
      if (missing) path += "/not.there";
      step(path, r.range(0, 9), q);
    }
  }
  int kind_of(const std::string& p) {  // 0 absent, 1 plain or link, 2 empty directory, 3 directory
    if (!vfs_there(p.c_str())) return 0;
    if (vfs_islink(p.c_str()) || !vfs_isdir(p.c_str())) return 1;
    return vfs_list(p.c_str()).empty() ? 2 : 3;
  }

  void step(const std::string& path, int what, Proc* q) {
    Rng& r = trng();
    std::string name = given(path);
    bool unreachable = path.size() >= 4096, bey = unreachable || (kind_of(path) == 3 && beyond(path));
    size_t fds = proc_nfds(q), blocks = 0;
    u64 f0 = sysfaults();
    int before = kind_of(path);
    if (what == 0) {
      list(path, name, before, f0);
      if (proc_nfds(q) != fds) fail("C26", "descriptor-leak", "%zu descriptors instead of %zu after listing", proc_nfds(q), fds);
      return;
    }
    if (what == 1 && r.chance(0.3)) {
      a0_err_t e = r.chance(0.5) ? A(a0_file_remove_all("")) : A(a0_file_remove(nullptr));
      if (!e) fail("C26", "nothing-removed", "removing nothing reports success");
      look();
      return;
    }
    bool rm_all = what >= 4;
    bool cxx = r.chance(0.3);
    size_t i = begin(path, rm_all);
    note("%s %s (%s)", rm_all ? "remove_all" : "remove", name.c_str(), before == 0 ? "absent" : before == 1 ? "file" : "directory");
    blocks = proc_nblocks(q);
    char* c = (char*)sim::heap_alloc(cur_proc(), name.size() + 1, 16);
    memcpy(c, name.c_str(), name.size() + 1);
    a0_err_t e;
    if (cxx)
      e = X([&]() {
        if (rm_all)
          a0::File::remove_all(c);
        else
          a0::File::remove(c);
      });
    else
      e = rm_all ? A(a0_file_remove_all(c)) : A(a0_file_remove(c));
    pfree(c);
    int sys = e ? syserr(e) : 0;
    note("  -> %d/%d", (int)e, sys);
    bool alone = ops[i].alone;
    cur.erase(cur_thread());
    ops[i].returned = true;
    look();
    if (proc_nfds(q) != fds) fail("C26", "descriptor-leak", "%zu descriptors instead of %zu after removing", proc_nfds(q), fds);
    if (proc_nblocks(q) != blocks && !cxx) fail("C26", "memory-leak", "%zu blocks of memory instead of %zu after removing", proc_nblocks(q), blocks);
    int after = kind_of(path);
    if (!e && after) fail("C26", "not-removed", "%s: success was reported but it is still there", path.c_str());
    bool quiet = alone && sysfaults() == f0;
    if (quiet) {
      mark("quiet_removals");
      if (before == 0 && !e && !(cxx && !rm_all)) fail("C26", "absent-removed", "%s: removing what is not there reports success", path.c_str());
      if (before == 0 && e && cxx && !rm_all && parent_there(path) && !unreachable) fail("C26", "absent-refused", "%s: removing what is not there reports %d/%d", path.c_str(), (int)e, sys);
      bool can = rm_all ? before >= 2 : before == 1 || before == 2;
      if (bey) can = false;
      if (before && can && e) fail("C26", "removal-fails", "%s: %s fails with %d/%d although nothing is in the way", path.c_str(), rm_all ? "remove_all" : "remove", (int)e, sys);
      if (before && !can && !bey && !e) fail("C26", "removal-succeeds", "%s: %s reports success", path.c_str(), rm_all ? "remove_all" : "remove");
      if (before && !can && !bey && after != before) fail("C26", "removed-anyway", "%s: the refused %s changed something", path.c_str(), rm_all ? "remove_all" : "remove");
    }
    mark(e ? "refused" : "done");
    u64 h = before * 10 + after * 3 + rm_all;
    state_sig(hash_mem(&h, 8));
  }
  bool parent_there(const std::string& p) {
    std::string d = p.substr(0, p.rfind('/'));
    return vfs_there(d.c_str()) && vfs_isdir(d.c_str());
  }
  void list(const std::string& path, const std::string& name, int before, u64 f0) {
    // What is there at some time while the listing goes on may be listed; what is there all the time must be.
    std::set<std::string> first = entries(path), got;
    size_t g0 = gone.size();
    a0_file_iter_t* it = palloc<a0_file_iter_t>();
    char* c = (char*)sim::heap_alloc(cur_proc(), name.size() + 1, 16);
    memcpy(c, name.c_str(), name.size() + 1);
    a0_err_t e = A(a0_file_iter_init(it, c));
    pfree(c);
    note("list %s -> %d/%d", name.c_str(), (int)e, e ? syserr(e) : 0);
    look();
    if (!e) {
      if (before < 2) fail("C26", "listing-opens", "listing %s, which is not a directory, succeeds", path.c_str());
      for (;;) {
        a0_file_iter_entry_t en;
        a0_err_t x = A(a0_file_iter_next(it, &en));
        if (x) {
          // an entry whose path is too long cannot be given; the others can
          if (syserr(x) == ENAMETOOLONG && beyond(path)) continue;
          if (x != A0_ERR_ITER_DONE) fail("C26", "listing-error", "the listing ends with %d", (int)x);
          break;
        }
        std::string f = path + "/" + en.filename;
        if (f != en.fullpath) fail("C26", "wrong-path", "entry %s of %s has the path %s", en.filename, path.c_str(), en.fullpath);
        if (!got.insert(f).second) fail("C26", "listed-twice", "%s is listed twice", f.c_str());
        if (!inside.count(f)) fail("C26", "wrong-entry", "%s is listed but was never there", f.c_str());
        if (vfs_there(f.c_str())) {
          int want = vfs_islink(f.c_str()) ? DT_LNK : vfs_isdir(f.c_str()) ? DT_DIR : DT_REG;
          if (en.d_type != want) fail("C26", "wrong-type", "%s is listed with type %d", f.c_str(), en.d_type);
        }
      }
      A(a0_file_iter_close(it));
      look();
      std::set<std::string> last = entries(path);
      for (auto& f : first)
        if (last.count(f) && !got.count(f) && f.size() <= 4096) fail("C26", "not-listed", "%s is there but was not listed", f.c_str());
      mark("listed");
    } else if (sysfaults() == f0 && before >= 2 && gone.size() == g0 && path.size() < 4096) {
      fail("C26", "listing-fails", "listing %s fails with %d/%d", path.c_str(), (int)e, syserr(e));
    }
    pfree(it);
  }
  std::set<std::string> entries(const std::string& d) {
    std::set<std::string> out;
    if (vfs_islink(d.c_str()) || !vfs_isdir(d.c_str())) return out;
    for (auto& f : vfs_list(d.c_str()))
      if (f.find('/', d.size() + 1) == std::string::npos) out.insert(f);
    return out;
  }
  bool idle(int stage) override {
    if (insp && !thread_done(insp)) fail("C26", "stuck", "removing blocks");
    for (Thread* t : all)
      if (!thread_done(t)) fail("C26", "stuck", "removing blocks");
    look();
    if (stage == 0) {
      adders = false;
      Proc* q = new_proc("insp");
      q->killable = false;
      insp = spawn(q, "chk", [this, q]() {
        NoSysFault nf;
        for (Tree& t : trees) {
          int k = kind_of(t.top);
          if (k) step(t.top, 9, q);
          if (beyond(t.top)) continue;
          if (vfs_there(t.top.c_str())) fail("C26", "cannot-finish", "%s cannot be removed any more", t.top.c_str());
        }
      });
      return true;
    }
    return false;
  }
};
SCENARIO("rm", RemoveScen)
}  // namespace
