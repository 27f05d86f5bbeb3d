// Driver: explores seeds, minimises failing runs, replays.
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <unordered_set>

#include "core.h"

extern "C" {
extern char __libc_single_threaded;
int __real_clock_gettime(clockid_t, struct timespec*);
}
using namespace sim;

static double now_s() {
  struct timespec ts;
  __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i <= s.size()) {
    size_t j = s.find(c, i);
    if (j == std::string::npos) j = s.size();
    if (j > i) v.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return v;
}
static bool has_prop(const char* list, const std::string& p) {
  if (p == "*") return true;
  for (auto& x : split(list, ','))
    if (x == p || x == "*") return true;
  return false;
}

static std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if ((unsigned char)c < 32 || (unsigned char)c > 126) {
      o += '?';
    } else {
      o += c;
    }
  }
  return o;
}

static void write_replay(const char* path, const std::string& scen, u64 seed, const Outcome& o, const std::vector<Event>& ev,
                         const std::vector<Choice>& ch, bool by_seed) {
  FILE* f = fopen(path, "w");
  if (!f) {
    perror(path);
    _exit(2);
  }
  fprintf(f, "scenario %s\nseed %llu\nprops %s\nkey %s\nhash %016llx\nmsg %s\n", scen.c_str(), (unsigned long long)seed, o.props, o.key,
          (unsigned long long)o.hash, esc(o.msg).c_str());
  if (by_seed) fprintf(f, "mode seed\n");
  for (auto& e : ev)
    fprintf(f, "event %u %llu %s %lld pc=%llx\n", e.tid, (unsigned long long)e.step, kEvName[e.kind], e.arg, (unsigned long long)e.pc);
  for (auto& c : ch) fprintf(f, "choice %u %u %u %d\n", c.tid, c.idx, c.val, c.what);
  fclose(f);
}

static int g_watch_s = 60;
static void on_alarm(int) {
  const char m[] = "sim: one run exceeded the wall limit\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(2);
}

static void minimise(ScenarioFactory f, u64 seed, const char* key, const std::string& prop, std::vector<Event>& ev, std::vector<Choice>& ch, double limit) {
  double t0 = now_s();
  struct Item {
    int k;
    size_t i;
  };
  std::vector<Item> items;
  for (size_t i = 0; i < ev.size(); i++) items.push_back({0, i});
  for (size_t i = 0; i < ch.size(); i++) items.push_back({1, i});
  std::vector<Event> ev0 = ev;
  std::vector<Choice> ch0 = ch;
  auto build = [&](const std::vector<Item>& v, std::vector<Event>& e, std::vector<Choice>& c) {
    e.clear();
    c.clear();
    for (auto& x : v)
      if (x.k == 0)
        e.push_back(ev0[x.i]);
      else
        c.push_back(ch0[x.i]);
  };
  auto test = [&](const std::vector<Item>& v) {
    std::vector<Event> e;
    std::vector<Choice> c;
    build(v, e, c);
    Outcome o;
    alarm(g_watch_s);
    run_one(f, seed, &e, &c, &o, nullptr, nullptr);
    return o.failed && !strcmp(o.key, key) && has_prop(o.props, prop);
  };
  size_t n = 2;
  if (test(std::vector<Item>())) {
    items.clear();
  }
  while (items.size() >= 2 && now_s() - t0 < limit) {
    size_t chunk = (items.size() + n - 1) / n;
    bool red = false;
    for (size_t s = 0; s < items.size() && now_s() - t0 < limit; s += chunk) {
      std::vector<Item> comp;
      for (size_t i = 0; i < items.size(); i++)
        if (i < s || i >= s + chunk) comp.push_back(items[i]);
      if (test(comp)) {
        items = comp;
        n = n > 2 ? n - 1 : 2;
        red = true;
        break;
      }
    }
    if (!red) {
      if (chunk == 1) break;
      n = std::min(items.size(), n * 2);
    }
  }
  build(items, ev, ch);
}

static int cmd_run(std::map<std::string, std::string>& a) {
  std::vector<std::string> scens = split(a["scen"], ',');
  std::string prop = a["prop"];
  u64 seed = strtoull(a["seed"].c_str(), 0, 10);
  u64 worker = strtoull(a["worker"].c_str(), 0, 10), workers = strtoull(a["workers"].c_str(), 0, 10);
  if (!workers) workers = 1;
  double secs = atof(a["seconds"].c_str());
  u64 maxruns = a.count("max-runs") ? strtoull(a["max-runs"].c_str(), 0, 10) : ~0ull;
  u64 recheck = a.count("recheck") ? strtoull(a["recheck"].c_str(), 0, 10) : 64;
  std::vector<std::string> known = split(a["known"], ',');
  bool keep = a.count("keep-going") > 0;
  std::string out = a["out"];
  std::vector<ScenarioFactory> fs;
  for (auto& s : scens) {
    if (!registry().count(s)) {
      fprintf(stderr, "unknown scenario %s\n", s.c_str());
      return 2;
    }
    fs.push_back(registry()[s]);
  }
  std::map<std::string, u64> others, knownhits, nscen, firstseed, othmsgn;
  std::map<std::string, std::string> firstmsg;
  std::unordered_set<u64> hashes;
  double t0 = now_s();
  u64 rechecked = 0, unstable = 0;
  std::string vio, samples;
  for (u64 k = worker; k / workers < maxruns; k += workers) {
    if (now_s() - t0 > secs) break;
    size_t si = k % fs.size();
    u64 rs = seed * 1000000007ull + k;
    Outcome o;
    std::vector<Event> ev;
    std::vector<Choice> ch;
    alarm(g_watch_s);
    run_one(fs[si], rs, nullptr, nullptr, &o, &ev, &ch);
    nscen[scens[si]]++;
    if (o.switches > 1 && (!ev.empty() || !ch.empty())) hashes.insert(o.hash);  // something was decided against the plain order
    if (samples.size() < 3000 && (k / workers) % 997 < 1) {
      char sb[300];
      snprintf(sb, sizeof sb, "{\"scenario\":\"%s\",\"seed\":%llu,\"steps\":%llu,\"switches\":%llu,\"events\":%zu,\"choices\":%zu,\"hash\":\"%016llx\",\"result\":\"%s\"}",
               scens[si].c_str(), (unsigned long long)rs, (unsigned long long)o.steps, (unsigned long long)o.switches, ev.size(), ch.size(),
               (unsigned long long)o.hash, o.failed ? o.key : "held");
      if (!samples.empty()) samples += ",";
      samples += sb;
    }
    bool mine = o.failed && has_prop(o.props, prop);
    bool kn = false;
    if (mine)
      for (auto& q : known)
        if (!strncmp(o.key, q.c_str(), q.size())) kn = true;
    if (o.failed && (!mine || kn || keep)) {
      std::string id = std::string(o.props) + " " + o.key;
      (kn ? knownhits : others)[id]++;
      if (!firstmsg.count(id)) {
        firstmsg[id] = std::string(scens[si]) + ":" + std::to_string(rs) + " " + o.msg;
      }
    }
    bool chk = recheck && (k / workers) % recheck == 3;
    if (chk || (mine && !kn && !keep)) {
      Outcome o2;
      std::vector<Event> ev2;
      std::vector<Choice> ch2;
      run_one(fs[si], rs, nullptr, nullptr, &o2, &ev2, &ch2);
      rechecked++;
      Outcome o3;
      run_one(fs[si], rs, &ev, &ch, &o3, nullptr, nullptr);
      bool twice = o2.hash == o.hash && !strcmp(o2.key, o.key), again = o3.hash == o.hash && !strcmp(o3.key, o.key);
      if (twice && !again && mine && !kn && !keep) {
        // Memory that was never written has some part in it: what the simulator leaves there differs when its decisions come from
        // a list. The seed alone repeats it.
        std::string rp = a["replay"];
        write_replay(rp.c_str(), scens[si], rs, o, std::vector<Event>(), std::vector<Choice>(), true);
        vio = "{\"replay\":\"" + rp + "\",\"key\":\"" + esc(o.key) + "\",\"props\":\"" + o.props + "\",\"msg\":\"" + esc(o.msg) + "\",\"scenario\":\"" + scens[si] +
              "\",\"seed\":" + std::to_string(rs) + ",\"items_before\":" + std::to_string(ev.size() + ch.size()) + ",\"items_after\":" + std::to_string(ev.size() + ch.size()) + "}";
        break;
      }
      if (!twice || !again) {
        fprintf(stderr, "NONDETERMINISM scenario=%s seed=%llu hash=%llx,%llx,%llx key=%s|%s|%s steps %llu,%llu,%llu\n", scens[si].c_str(),
                (unsigned long long)rs, (unsigned long long)o.hash, (unsigned long long)o2.hash, (unsigned long long)o3.hash, o.key, o2.key,
                o3.key, (unsigned long long)o.steps, (unsigned long long)o2.steps, (unsigned long long)o3.steps);
        // Code that reads memory it never wrote may not repeat. Such a run proves nothing; look for one that does repeat.
        if (++unstable > 200) return 2;
        continue;
      }
    }
    if (mine && !kn && !keep) {
      size_t n0 = ev.size() + ch.size();
      minimise(fs[si], rs, o.key, prop, ev, ch, 40);
      Outcome of;
      std::vector<Event> evf;
      std::vector<Choice> chf;
      run_one(fs[si], rs, &ev, &ch, &of, &evf, &chf);
      if (!of.failed || strcmp(of.key, o.key)) {
        fprintf(stderr, "minimised run does not fail the same way\n");
        if (++unstable > 200) return 2;
        continue;
      }
      std::string rp = a["replay"];
      write_replay(rp.c_str(), scens[si], rs, of, ev, ch, false);
      vio = "{\"replay\":\"" + rp + "\",\"key\":\"" + esc(of.key) + "\",\"props\":\"" + of.props + "\",\"msg\":\"" + esc(of.msg) + "\",\"scenario\":\"" + scens[si] +
            "\",\"seed\":" + std::to_string(rs) + ",\"items_before\":" + std::to_string(n0) + ",\"items_after\":" + std::to_string(ev.size() + ch.size()) + "}";
      break;
    }
  }
  alarm(0);
  FILE* f = fopen(out.c_str(), "w");
  fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"sim_ns\":%llu,\"switches\":%llu,\"faultfree\":%llu,\"rechecked\":%llu,\"wall\":%.3f,\n",
          (unsigned long long)S.runs, (unsigned long long)S.steps, (unsigned long long)S.sim_ns, (unsigned long long)S.switches,
          (unsigned long long)S.faultfree, (unsigned long long)rechecked, now_s() - t0);
  fprintf(f, "\"faults\":{");
  for (int i = 0; i < F_NKINDS; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", kFaultName[i], (unsigned long long)S.faults[i]);
  fprintf(f, "},\n");
  auto dump = [&](const char* n, std::map<std::string, u64>& m) {
    fprintf(f, "\"%s\":{", n);
    bool first = true;
    for (auto& e : m) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second);
      first = false;
    }
    fprintf(f, "},\n");
  };
  fprintf(f, "\"samples\":[%s],\n", samples.c_str());
  dump("marks", *g_marks);
  dump("scenarios", nscen);
  dump("others", others);
  dump("known", knownhits);
  fprintf(f, "\"firstmsg\":{");
  bool first = true;
  for (auto& e : firstmsg) {
    fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", esc(e.first).c_str(), esc(e.second).c_str());
    first = false;
  }
  fprintf(f, "},\n\"violation\":%s}\n", vio.empty() ? "null" : vio.c_str());
  fclose(f);
  f = fopen((out + ".bin").c_str(), "w");
  fwrite(g_edges, 1, EDGE_BITS / 8, f);
  fwrite(g_crash, 1, EDGE_BITS / 8, f);
  fwrite(g_states, 1, EDGE_BITS / 8, f);
  for (u64 h : hashes) fwrite(&h, 8, 1, f);
  fclose(f);
  return vio.empty() ? unstable ? 2 : 0 : 1;
}

static int cmd_replay(const char* path, bool v) {
  FILE* f = fopen(path, "r");
  if (!f) {
    perror(path);
    return 2;
  }
  char line[4096];
  std::string scen, key;
  u64 seed = 0, hash = 0;
  bool by_seed = false;
  std::vector<Event> ev;
  std::vector<Choice> ch;
  while (fgets(line, sizeof line, f)) {
    char a[256];
    unsigned long long x, y;
    long long z;
    unsigned t, i, n;
    int w;
    if (sscanf(line, "scenario %255s", a) == 1) scen = a;
    if (sscanf(line, "key %255s", a) == 1) key = a;
    if (sscanf(line, "seed %llu", &x) == 1) seed = x;
    if (sscanf(line, "hash %llx", &x) == 1) hash = x;
    if (!strncmp(line, "mode seed", 9)) by_seed = true;
    if (sscanf(line, "event %u %llu %255s %lld", &t, &y, a, &z) == 4) {
      for (int k = 0; k < E_NKINDS; k++)
        if (!strcmp(a, kEvName[k])) ev.push_back(Event{t, y, k, z, 0});
    }
    if (sscanf(line, "choice %u %u %u %d", &t, &i, &n, &w) == 4) ch.push_back(Choice{t, i, n, w});
  }
  fclose(f);
  if (!registry().count(scen)) {
    fprintf(stderr, "unknown scenario %s\n", scen.c_str());
    return 2;
  }
  g_verbose = v;
  Outcome o;
  alarm(g_watch_s);
  run_one(registry()[scen], seed, by_seed ? nullptr : &ev, by_seed ? nullptr : &ch, &o, nullptr, nullptr);
  printf("scenario=%s seed=%llu failed=%d props=%s key=%s hash=%016llx expected_hash=%016llx\n%s\n", scen.c_str(), (unsigned long long)seed,
         o.failed, o.props, o.key, (unsigned long long)o.hash, (unsigned long long)hash, o.msg);
  if (!o.failed) return 0;
  return !strcmp(o.key, key.c_str()) && o.hash == hash ? 1 : 3;
}

static int cmd_one(const char* scen, const char* seed, bool v) {
  g_verbose = v;
  Outcome o;
  if (!registry().count(scen)) return 2;
  std::vector<Event> ev;
  std::vector<Choice> ch;
  alarm(g_watch_s);
  run_one(registry()[scen], strtoull(seed, 0, 10), nullptr, nullptr, &o, &ev, &ch);
  printf("failed=%d props=%s key=%s hash=%016llx steps=%llu switches=%llu events=%zu choices=%zu\n%s\n", o.failed, o.props, o.key,
         (unsigned long long)o.hash, (unsigned long long)o.steps, (unsigned long long)o.switches, ev.size(), ch.size(), o.msg);
  return o.failed;
}

// prints one hash line per seed: compared across processes and worker counts
static int cmd_hashes(const char* scen, const char* from, const char* n) {
  u64 s = strtoull(from, 0, 10), c = strtoull(n, 0, 10);
  if (!registry().count(scen)) return 2;
  for (u64 i = 0; i < c; i++) {
    Outcome o;
    alarm(g_watch_s);
    run_one(registry()[scen], s + i, nullptr, nullptr, &o, nullptr, nullptr);
    printf("%s %llu %016llx %s\n", scen, (unsigned long long)(s + i), (unsigned long long)o.hash, o.key);
  }
  return 0;
}

int main(int argc, char** argv) {
  // The same addresses in every process, for what a run may make of an address or of memory never written
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ADDR") && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_ADDR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  __libc_single_threaded = 0;
  signal(SIGALRM, on_alarm);
  init_memory();
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "run") {
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
    return cmd_run(a);
  }
  if (cmd == "replay" && argc > 2) return cmd_replay(argv[2], argc > 3);
  if (cmd == "one" && argc > 3) return cmd_one(argv[2], argv[3], argc > 4);
  if (cmd == "hashes" && argc > 4) return cmd_hashes(argv[2], argv[3], argv[4]);
  if (cmd == "list") {
    for (auto& e : registry()) printf("%s\n", e.first.c_str());
    return 0;
  }
  fprintf(stderr, "usage: run|replay|one|hashes|list\n");
  return 2;
}

// The library called something that is not simulated: the check cannot tell anything, and nothing real happens.
extern "C" void sim_never(const char* name) {
  fprintf(stderr, "the library calls %s, which is not simulated\n", name);
  _exit(2);
}
