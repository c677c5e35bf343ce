// Deterministic simulator for autotrace: shared declarations.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }  // inclusive
  bool chance(int num, int den) { return (long)below(den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash_str(const std::string &s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- plan
// A plan is a list of items "kind key=value ..."; it fully determines an execution.
double c_strtod(const char *);  // strtod in the C locale whatever the process has set
struct Item {
  std::string kind;
  std::map<std::string, std::string> kv;
  long num(const char *k, long def = 0) const {
    auto i = kv.find(k);
    return i == kv.end() ? def : strtol(i->second.c_str(), nullptr, 0);
  }
  uint64_t u64(const char *k, uint64_t def = 0) const {
    auto i = kv.find(k);
    return i == kv.end() ? def : strtoull(i->second.c_str(), nullptr, 0);
  }
  double dbl(const char *k, double def) const {
    auto i = kv.find(k);
    return i == kv.end() ? def : c_strtod(i->second.c_str());
  }
  std::string str(const char *k, const char *def = "") const {
    auto i = kv.find(k);
    return i == kv.end() ? std::string(def) : i->second;
  }
  bool has(const char *k) const { return kv.count(k) != 0; }
  Item &set(const char *k, long v) { kv[k] = std::to_string(v); return *this; }
  Item &set(const char *k, const std::string &v) { kv[k] = v; return *this; }
  Item &set(const char *k, const char *v) { kv[k] = v; return *this; }
};
struct Plan {
  std::vector<Item> items;
  Item &add(const char *kind) { items.emplace_back(); items.back().kind = kind; return items.back(); }
  std::vector<const Item *> all(const char *kind) const {
    std::vector<const Item *> r;
    for (auto &i : items) if (i.kind == kind) r.push_back(&i);
    return r;
  }
  const Item *find(const char *kind, const char *key, long v) const {
    for (auto &i : items) if (i.kind == kind && i.has(key) && i.num(key) == v) return &i;
    return nullptr;
  }
  const Item *first(const char *kind) const {
    for (auto &i : items) if (i.kind == kind) return &i;
    return nullptr;
  }
  std::string text() const;
  static bool parse(const std::string &t, Plan &p);
};

// ---------------------------------------------------------------- images and files
struct Image { int w = 0, h = 0, np = 1; std::vector<uint8_t> px; };
Image make_image(const Item &img);
struct Encoded {
  std::string bytes;
  Image expect;          // what a faithful reader returns
  std::string suffix;    // file name suffix
  std::vector<std::pair<size_t, size_t>> dims;  // byte ranges holding the declared size
  int tol = 0;           // allowed difference per sample (inexact rescaling)
  bool np_any = false;   // a grey palette may come back as 1 or 3 channels
  size_t last_token = 0; // text formats: where the last number starts
  int charcode = 0;      // GF: character to ask for
};
Encoded encode_file(const Item &file, const Image &img);
void apply_damage(const std::string &fmt, std::string &bytes, const std::vector<const Item *> &damages);
// true if the (possibly damaged) header still declares a size the simulation can afford
bool affordable(const std::string &fmt, const std::string &bytes, double maxpx);
extern const std::vector<std::string> kOddFormats;    // encodings a reader may refuse
extern const std::vector<std::string> kReadFormats;   // generator names of input encodings
extern const std::vector<std::string> kWriteFormats;  // output suffixes

// ---------------------------------------------------------------- world: the seams
enum FaultStat {
  F_SHORT_READ, F_READ_EIO, F_TRUNC, F_OPEN_FAIL, F_SEEK_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_LATE_LOSS,
  F_ALLOC_FAIL, F_CANCEL, F_CRASH, F_DAMAGE, F_SWITCH, F_REENTER, F_CLOCK, F_RESIDUE, F_LOCALE, F_WRITE_TRANSIENT,
  F_UNSEEKABLE, F_ENVVAR, F_STALL, F_NOMSG, F__COUNT
};
extern const char *kFaultNames[F__COUNT];

struct Shared {  // survives the death of an execution process
  volatile uint32_t len;
  volatile uint32_t overflow;
  volatile uint64_t steps;       // basic blocks executed in the code under test
  volatile uint64_t io_ops;      // stream operations
  volatile uint64_t allocs;
  volatile uint32_t fired[F__COUNT];
  volatile uint64_t simtime;     // simulated seconds that passed
  volatile uint64_t cov_hash;    // hash of the set of edges executed
  volatile uint32_t cov_edges;
  volatile uint64_t sched_hash;  // hash of the (edge, from, to) switch sequence
  volatile uint32_t switches;
  volatile uint32_t nswlog;
  struct { uint64_t at; uint32_t to; uint32_t pad; } swlog[20000];
  uint8_t cov[1 << 16];
  char buf[6 << 20];
};
extern Shared *g_sh;
void hist(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // append a history line

struct OpFaults {   // faults attached to one operation
  // reading
  long eio_at = -1; bool eio_once = false;
  long chunk = 0;
  long open_fail_n = -1; int open_errno = 2;
  long seek_fail_n = -1; bool unseekable = false;
  // writing
  long wfail_at = -1; int wfail_errno = 28; bool wfail_once = false;
  bool close_fail = false; long late_loss_at = -1;
  long wchunk = 0;
  // allocation
  long alloc_fail_n = -1; bool alloc_persist = false; long alloc_min = 0;
  // process
  long crash_io = -1; long crash_part = 0;
  long rbuf = -1;  // stdio buffer size for streams opened by the library, -1 default
};
struct ThreadCtx {
  int id = 0;             // session number
  int op = -1;            // current operation id
  bool in_lib = false;
  OpFaults f;
  long n_open = 0, n_alloc = 0, n_seek = 0;
  uint64_t op_steps = 0, op_step_limit = 0;
  long allocs_at_fault = -1;
  // call sites that allocated in this operation, with the first and the last allocation of each
  struct Site { uintptr_t pc; long first, last; };
  Site site[192];
  int n_site = 0;
  // observer: called every `peek_every` basic blocks of the operation
  uint64_t peek_every = 0, peek_next = ~0ull;
  void (*peek)(void *) = nullptr;
  void *peek_arg = nullptr;
};
extern thread_local ThreadCtx *t_ctx;
extern int g_errno0;  // what the caller's last system call left behind
struct LibScope {  // code under test runs inside this scope
  bool prev;
  LibScope() { prev = t_ctx->in_lib; t_ctx->in_lib = true; if (!prev) errno = g_errno0; }
  ~LibScope() { t_ctx->in_lib = prev; }
};
struct HarnessScope {
  bool prev;
  HarnessScope() { prev = t_ctx->in_lib; t_ctx->in_lib = false; }
  ~HarnessScope() { t_ctx->in_lib = prev; }
};
struct World {
  int heapfill = -1;            // -1: leave memory alone
  uint64_t residue_seed = 0;
  long clock = 1000000000, clock_step = 0;
  std::string locale = "C";  // what the environment asks for
  int told = 0;            // times told to the library during the current operation
  long told_at[16] = {0};
  bool date_zero = true; bool date_zero_set = true;
  std::map<std::string, std::string> env;
  std::string dir;
  // ledgers
  long live_blocks = 0; long long live_bytes = 0; long open_streams = 0; long closes_foreign = 0;
  long exits_in_lib = 0;
  bool is_cli = false;
  long io_ops = 0;
  bool sites = false;  // record which call sites allocate
  long max_alloc = 0;  // larger single requests fail (0: unlimited)
};
extern World g_w;
void world_reset();
void begin_op(ThreadCtx &t, int op, const OpFaults &f, uint64_t step_limit);
// streams the harness hands to the library
struct SinkState {
  int fd = -1; long pos = 0; bool closed = false; bool seekable = true; bool harness_owned = false;
  long delivered = 0;   // bytes accepted by the destination
  bool failed = false;  // a write was refused
  long reads = 0, writes = 0, seeks = 0;
  bool writing = false;
  bool failed_close = false;
  std::string name;
};
FILE *sim_open(const char *path, const char *mode, bool harness_owned, SinkState **st);
long ledger_live();
uint32_t ledger_seq();
long ledger_since(uint32_t seq);  // blocks still held that were allocated after seq
// list up to n live blocks for diagnosis
std::string ledger_sample(int n);
long harness_fclose(FILE *f);  // closes without going through the ledger's "library closed it" path
bool stream_open(FILE *f);

// scheduler
struct Sched {
  int n = 0; bool active = false;
  std::vector<std::pair<uint64_t, int>> explicit_switches;  // (global step, target)
  uint64_t dense_seed = 0; int dense_lo = 0, dense_hi = 0; long dense_budget = 0;
  int io_pct = 0;   // chance of a switch at each stream operation
  int acc_pm = 0;   // chance in 1000 of a switch at each access to static data (flavour t)
};
extern Sched g_sched;
void sched_run(int n, void (*body)(int, void *), void *arg);
void sched_io_point();
uint64_t global_step();
void flush_counters();
[[noreturn]] void child_end(int code);

// ---------------------------------------------------------------- executions
struct ExecMode {
  std::vector<int> sessions;   // empty: all
  bool concurrent = false;     // one thread per session, else one after another
  bool faults = true;          // apply the plan's faults and damage
  bool clean_cb = false;       // run traces without callbacks, cancels, re-entry
  int env = 0;                 // id of the env item
  int iters = 1;
  int only_op = -1;            // run only this op and what it depends on
  bool asis_crash = true;      // apply crash faults of CLI ops
};
struct OpRec {
  std::string kind;
  std::map<std::string, std::string> kv;
  const std::string &s(const char *k) const { static const std::string e; auto i = kv.find(k); return i == kv.end() ? e : i->second; }
  long num(const char *k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtol(i->second.c_str(), nullptr, 0); }
  bool has(const char *k) const { return kv.count(k) != 0; }
};
struct ExecOut {
  int code = 0, sig = 0;
  std::string hist;
  std::map<int, OpRec> ops;                   // last record of each op
  std::map<std::pair<int, int>, OpRec> iter;  // (op, iteration)
  std::vector<OpRec> lines;                   // every other line
  std::map<std::string, std::string> lines_of_op;
  uint64_t steps = 0, io = 0, allocs = 0, cov_hash = 0, sched_hash = 0, simtime = 0;
  uint32_t edges = 0, switches = 0, fired[F__COUNT] = {0};
  std::vector<std::pair<uint64_t, int>> swlog;
  std::string ended() const;  // "" if the execution process ended normally
  std::string end_class;      // EXIT ABORT ASSERT HANG SIGNAL MEMORY ... or ""
  std::string end_detail;
  int end_op = -1;
};
extern std::vector<std::pair<uint64_t, int>> g_last_switches;  // of the latest interleaved execution
ExecOut run_exec(const Plan &p, const ExecMode &m);
ExecOut run_exec_other(const std::string &binary, const Plan &p, const ExecMode &m);
int exec_child_main(const Plan &p, const ExecMode &m);  // never returns normally
extern std::string g_scratch;
void child_setup_common();
struct Fault { int op; };
Image bitmap_expect(const Plan &p, const Item &file, Encoded *enc);

// ---------------------------------------------------------------- properties
struct Violation { std::string cls, text; };
struct PropStats {
  uint64_t runs = 0, execs = 0, steps = 0, io = 0, allocs = 0, simtime = 0, switches = 0;
  uint64_t evaluations = 0;
  uint64_t fired[F__COUNT] = {0};
  std::map<std::string, uint64_t> extra;
};
extern PropStats g_stats;
struct Prop {
  const char *id;
  Plan (*gen)(Rng &r, long run);
  std::vector<Violation> (*eval)(const Plan &p);
};
extern const std::vector<Prop> kProps;
extern std::map<std::string, std::string> g_other_bins;
// every execution's fingerprint goes here (distinct-state measure, determinism gate)
extern uint64_t g_run_digest;
extern std::vector<uint64_t> g_run_covs, g_run_scheds;
extern uint32_t g_asan;
