// Driver: runs a range of seeded plans for one property, minimises and
// replays violations.
//   sim run PROP SEED FROM STEP SECONDS MAXRUNS SCRATCH [flavour=bin...]
//   sim replay PROP PLANFILE SCRATCH
//   sim minimise PROP PLANFILE OUTFILE CLASS SCRATCH
//   sim exec SHM PLANFILE MODE SCRATCH         (internal: other flavour)
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" [[noreturn]] void __real__exit(int);
extern "C" const char *__asan_default_options(void) {
  return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:symbolize=0:allocator_may_return_null=1:abort_on_error=0:"
         "handle_abort=0:detect_odr_violation=0:print_summary=0:halt_on_error=1:max_allocation_size_mb=2000:malloc_context_size=8:use_sigaltstack=1:quarantine_size_mb=16";
}
ExecOut collect(int st);
void reset_shared();
void clear_dir(const std::string &d);

static std::string g_shm;
static double wall() {
  struct timespec t;
  syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}
static std::string slurp(const std::string &p) {
  std::string r;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f);
  return r;
}
static void spill(const std::string &p, const std::string &d) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) { perror(p.c_str()); exit(3); }
  fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}
static void map_shared(const std::string &file, bool create) {
  int fd = open(file.c_str(), O_RDWR | (create ? O_CREAT | O_TRUNC : 0), 0600);
  if (fd < 0 || (create && ftruncate(fd, sizeof(Shared)))) { perror(file.c_str()); exit(3); }
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (g_sh == MAP_FAILED) { perror("mmap"); exit(3); }
  close(fd);
}
static std::string mode_text(const ExecMode &m) {
  std::string r = strf("c=%d,f=%d,cc=%d,e=%d,i=%d,o=%d,k=%d,s=", m.concurrent, m.faults, m.clean_cb, m.env, m.iters, m.only_op, m.asis_crash);
  for (int s : m.sessions) r += std::to_string(s) + ".";
  return r;
}
static ExecMode mode_parse(const char *t) {
  ExecMode m;
  int c, f, cc, k, n = 0;
  sscanf(t, "c=%d,f=%d,cc=%d,e=%d,i=%d,o=%d,k=%d,s=%n", &c, &f, &cc, &m.env, &m.iters, &m.only_op, &k, &n);
  m.concurrent = c; m.faults = f; m.clean_cb = cc; m.asis_crash = k;
  for (const char *p = t + n; *p;) {
    m.sessions.push_back((int)strtol(p, (char **)&p, 10));
    if (*p == '.') p++;
  }
  return m;
}
ExecOut run_exec_other(const std::string &bin, const Plan &p, const ExecMode &m) {
  std::string pf = g_scratch + ".plan";
  spill(pf, p.text());
  reset_shared();
  clear_dir(g_scratch);
  std::string mt = mode_text(m);
  pid_t pid = fork();
  if (pid == 0) {
    execl(bin.c_str(), bin.c_str(), "exec", g_shm.c_str(), pf.c_str(), mt.c_str(), g_scratch.c_str(), (char *)nullptr);
    __real__exit(52);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  ExecOut o = collect(st);
  if (o.end_class == "HARNESS" || o.end_class == "TIMEOUT" || o.code == 52) {
    fprintf(stderr, "simulator error (other flavour): %s %s\n", o.end_class.c_str(), o.end_detail.c_str());
    exit(3);
  }
  return o;
}

static const Prop *find_prop(const std::string &id) {
  for (auto &p : kProps) if (id == p.id) return &p;
  fprintf(stderr, "unknown property %s\n", id.c_str());
  exit(3);
}
static std::vector<Violation> evaluate(const Prop *pr, const Plan &p) {
  g_run_digest = 77;
  g_run_covs.clear();
  g_run_scheds.clear();
  return pr->eval(p);
}
static const Violation *same_class(const std::vector<Violation> &v, const std::string &cls) {
  for (auto &x : v) if (x.cls == cls) return &x;
  return nullptr;
}

// ---------------------------------------------------------------- minimise
static bool still(const Prop *pr, const Plan &p, const std::string &cls) { return same_class(evaluate(pr, p), cls) != nullptr; }
// a drawn schedule becomes the explicit list of the switches it made, and most of those go
static Plan explicit_switches(const Prop *pr, Plan p, const std::string &cls, double seconds) {
  double t0 = wall();
  auto left = [&] { return wall() - t0 < seconds; };
  if (!p.first("sched")) return p;
  g_last_switches.clear();
  if (!still(pr, p, cls)) return p;
  Plan base;
  for (auto &i : p.items) if (i.kind != "sched") base.items.push_back(i);
  std::vector<std::pair<uint64_t, int>> sw = g_last_switches;
  auto with = [&](const std::vector<std::pair<uint64_t, int>> &l) {
    Plan q = base;
    for (auto &x : l) q.add("switch").set("at", (long)x.first).set("to", (long)x.second);
    return q;
  };
  if (sw.size() > 5000 || !still(pr, with(sw), cls)) return p;
  for (size_t n = std::max<size_t>(1, sw.size() / 2); n >= 1 && left(); n /= 2)
    for (size_t at = 0; at < sw.size() && left();) {
      auto l = sw;
      l.erase(l.begin() + at, l.begin() + std::min(at + n, l.size()));
      if (still(pr, with(l), cls)) sw = l;
      else at += n;
    }
  return sw.size() <= 60 ? with(sw) : p;
}
static Plan minimise(const Prop *pr, Plan p, const std::string &cls, double seconds) {
  double t0 = wall();
  double part = p.first("sched") ? seconds / 2 : seconds;
  auto left = [&] { return wall() - t0 < part; };
  for (bool changed = true; changed && left();) {
    changed = false;
    // remove chunks of items, large to small
    for (size_t n = p.items.size() / 2; n >= 1 && left(); n /= 2) {
      for (size_t at = 0; at + 1 <= p.items.size() && left();) {
        Plan q = p;
        size_t end = std::min(at + n, q.items.size());
        q.items.erase(q.items.begin() + at, q.items.begin() + end);
        if (!q.items.empty() && still(pr, q, cls)) { p = q; changed = true; }
        else at += n;
      }
    }
    // drop or shrink values
    for (size_t i = 0; i < p.items.size() && left(); i++) {
      std::vector<std::string> keys;
      for (auto &k : p.items[i].kv) keys.push_back(k.first);
      for (auto &k : keys) {
        if (k == "id" || k == "op" || k == "s" || k == "kind" || k == "file" || k == "img" || k == "in" || k == "out" || k == "fmt" || k == "stream") continue;
        if (!left()) break;
        Plan q = p;
        q.items[i].kv.erase(k);
        std::string had = p.items[i].kv[k];
        bool essential = k == "w" || k == "h" || k == "at" || k == "n" || k == "seed" || k == "to" || k == "io" || k == "lo" || k == "hi" || k == "budget" || k == "gen" || k == "var";
        if (!essential && still(pr, q, cls)) { p = q; changed = true; continue; }
        char *e;
        long v = strtol(had.c_str(), &e, 10);
        if (*e || v <= 1 || k == "seed" || k == "residue" || k == "clock") continue;
        if (k == "at" && p.items[i].kind == "switch") continue;
        long best = v;
        for (long cand : {1l, 2l, v / 8, v / 4, v / 2, v - v / 4, v - 1}) {
          if (cand < (k == "w" || k == "h" ? 1 : 0) || cand >= best || !left()) continue;
          q = p;
          q.items[i].kv[k] = std::to_string(cand);
          if (still(pr, q, cls)) { p = q; best = cand; changed = true; break; }
        }
      }
    }
  }
  return explicit_switches(pr, p, cls, seconds - (wall() - t0));
}

static Plan draw(const Prop *pr, uint64_t seed, long run) {
  Rng r(hash_str(pr->id) ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)run * 0xD1B54A32D192ED03ull));
  return pr->gen(r, run);
}

int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  std::string cmd = argc > 1 ? argv[1] : "";
  // the same addresses in every process, where the system allows it
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  if (cmd == "gen" && argc >= 5) {
    const Prop *pr = find_prop(argv[2]);
    printf("%s", draw(pr, strtoull(argv[3], nullptr, 0), atol(argv[4])).text().c_str());
    return 0;
  }
  if (cmd == "exec" && argc >= 6) {
    map_shared(argv[2], false);
    g_scratch = argv[5];
    Plan p;
    if (!Plan::parse(slurp(argv[3]), p)) return 3;
    return exec_child_main(p, mode_parse(argv[4]));
  }
  auto setup = [&](const std::string &dir) {
    g_scratch = dir + "/d";
    g_shm = dir + "/shm";
    mkdir(dir.c_str(), 0700);
    mkdir(g_scratch.c_str(), 0700);
    map_shared(g_shm, true);
  };
  auto others = [&](int from) {
    for (int i = from; i < argc; i++) {
      std::string a = argv[i];
      size_t e = a.find('=');
      if (e != std::string::npos) g_other_bins[a.substr(0, e)] = a.substr(e + 1);
    }
  };
  if (cmd == "run" && argc >= 9) {
    const Prop *pr = find_prop(argv[2]);
    uint64_t seed = strtoull(argv[3], nullptr, 0);
    long from = atol(argv[4]), step = atol(argv[5]);
    double seconds = atof(argv[6]);
    long maxruns = atol(argv[7]);
    setup(argv[8]);
    others(9);
    // the driver and its executions stay on one CPU: the baton is passed between threads without migrating
    cpu_set_t cs, have;
    if (!sched_getaffinity(0, sizeof have, &have) && !getenv("SIM_NOPIN")) {
      int n = CPU_COUNT(&have), want = (int)(from % std::max(1, n)), k = 0;
      for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &have) && k++ == want) { CPU_ZERO(&cs); CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); break; }
    }
    double t0 = wall();
    bool show = getenv("SIM_SHOW") != nullptr, slow = getenv("SIM_TIMES") != nullptr;
    std::string stop = std::string(argv[8]) + "/../stop";  // the orchestrator has seen enough
    for (long run = from, k = 0; k < maxruns && wall() - t0 < seconds && access(stop.c_str(), F_OK); run += step, k++) {
      Plan p = draw(pr, seed, run);
      // text round trip, so that a replay file means the same plan
      Plan q;
      if (!Plan::parse(p.text(), q)) { fprintf(stderr, "plan does not parse\n%s", p.text().c_str()); return 3; }
      if (show) fprintf(stderr, "--- run %ld\n%s", run, q.text().c_str());
      g_stats.runs++;
      uint64_t ev0 = g_stats.evaluations;
      double r0 = wall();
      auto v = evaluate(pr, q);
      if (slow) fprintf(stderr, "TOOK %.3f %ld\n", wall() - r0, run);
      if (show) fprintf(stderr, "%s\n", std::string(g_sh->buf, g_sh->len).c_str());
      printf("RUN %ld %016llx %llu", run, (unsigned long long)g_run_digest, (unsigned long long)(g_stats.evaluations - ev0));
      printf(" C");
      for (auto c : g_run_covs) printf(" %llx", (unsigned long long)c);
      printf(" S");
      for (auto c : g_run_scheds) printf(" %llx", (unsigned long long)c);
      printf("\n");
      for (auto &x : v) {
        std::string f = std::string(argv[8]) + strf("/viol-%ld-%zu.plan", run, &x - &v[0]);
        spill(f, q.text());
        printf("VIOL %ld %s %s | %s\n", run, f.c_str(), x.cls.c_str(), x.text.c_str());
      }
      fflush(stdout);
    }
    printf("STATS runs=%llu execs=%llu steps=%llu io=%llu allocs=%llu simtime=%llu switches=%llu evals=%llu wall=%.3f", (unsigned long long)g_stats.runs, (unsigned long long)g_stats.execs,
           (unsigned long long)g_stats.steps, (unsigned long long)g_stats.io, (unsigned long long)g_stats.allocs, (unsigned long long)g_stats.simtime, (unsigned long long)g_stats.switches,
           (unsigned long long)g_stats.evaluations, wall() - t0);
    for (int i = 0; i < F__COUNT; i++) printf(" fault.%s=%llu", kFaultNames[i], (unsigned long long)g_stats.fired[i]);
    for (auto &x : g_stats.extra) printf(" x.%s=%llu", x.first.c_str(), (unsigned long long)x.second);
    printf("\n");
    return 0;
  }
  if (cmd == "replay" && argc >= 5) {
    const Prop *pr = find_prop(argv[2]);
    Plan p;
    if (!Plan::parse(slurp(argv[3]), p)) return 3;
    setup(argv[4]);
    others(5);
    auto v = evaluate(pr, p);
    if (getenv("SIM_SHOW")) fprintf(stderr, "%s\n", std::string(g_sh->buf, g_sh->len).c_str());
    printf("DIGEST %016llx\n", (unsigned long long)g_run_digest);
    for (auto &x : v) printf("VIOL 0 %s %s | %s\n", argv[3], x.cls.c_str(), x.text.c_str());
    return 0;
  }
  if (cmd == "minimise" && argc >= 8) {
    const Prop *pr = find_prop(argv[2]);
    Plan p;
    if (!Plan::parse(slurp(argv[3]), p)) return 3;
    setup(argv[6]);
    others(8);
    Plan q = minimise(pr, p, argv[5], atof(argv[7]));
    auto v = evaluate(pr, q);
    const Violation *x = same_class(v, argv[5]);
    spill(argv[4], q.text());
    printf("MIN %zu -> %zu items %s | %s\n", p.items.size(), q.items.size(), x ? x->cls.c_str() : "LOST", x ? x->text.c_str() : "");
    return x ? 0 : 4;
  }
  fprintf(stderr, "usage: see main.cpp\n");
  return 3;
}
