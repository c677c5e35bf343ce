// The simulated world: allocator, storage, clock, environment, process end
// and scheduler seams.  Nothing here draws randomness of its own: every
// decision comes from the plan being executed.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <clocale>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

Shared *g_sh;
World g_w;
int g_errno0;
Sched g_sched;
thread_local ThreadCtx *t_ctx;
const char *kFaultNames[F__COUNT] = {
  "short_read", "read_eio", "file_truncated", "open_failed", "seek_failed", "write_failed", "close_failed",
  "late_write_loss", "alloc_failed", "cancelled", "process_crash", "stored_bytes_damaged", "thread_switch",
  "callback_reentered", "clock_jump", "memory_residue", "locale_changed", "write_failed_once", "unseekable_stream",
  "environment_changed", "callback_stall", "no_message_callback"};

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
FILE *__real_freopen(const char *, const char *, FILE *);
FILE *__real_fdopen(int, const char *);
FILE *__real_tmpfile(void);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
char *__real_getenv(const char *);
[[noreturn]] void __real_exit(int);
[[noreturn]] void __real__exit(int);
[[noreturn]] void __real_abort(void);
char *__real_setlocale(int, const char *);
ssize_t __real_getdelim(char **, size_t *, int, FILE *);
int __real_getpid(void);
}

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t v;
    memcpy(&v, b + i, 8);
    h = (h ^ v) * 0x100000001b3ull;
    h ^= h >> 29;
  }
  for (; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h ^ (h >> 32);
}
std::string strf(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
void hist(const char *fmt, ...) {
  char line[8192];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(line, sizeof line - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof line - 2) n = sizeof line - 2;
  for (int i = 0; i < n; i++) if (line[i] == '\n') line[i] = ' ';
  line[n++] = '\n';
  uint32_t at = g_sh->len;
  if (at + n >= sizeof g_sh->buf) { g_sh->overflow = 1; return; }
  memcpy(g_sh->buf + at, line, n);
  g_sh->len = at + n;
}

// ---------------------------------------------------------------- ledger
struct Block { void *p; size_t size; uint32_t op; uint32_t seq; };
static const size_t kLedger = 1 << 19;
static Block *g_ledger;
static uint64_t g_steps, g_next_event = ~0ull;
static uint8_t *g_cov;  // g_sh->cov
static uint64_t g_alloc_seq;

static size_t slot_of(void *p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 45; }  // 19 bits
static void ledger_add(void *p, size_t n) {
  size_t i = slot_of(p);
  while (g_ledger[i].p) i = (i + 1) & (kLedger - 1);
  g_ledger[i] = {p, n, (uint32_t)(t_ctx ? t_ctx->op : 0), (uint32_t)g_alloc_seq};
  g_w.live_blocks++;
  g_w.live_bytes += n;
}
static bool ledger_take(void *p, size_t *size) {
  size_t i = slot_of(p);
  while (g_ledger[i].p && g_ledger[i].p != p) i = (i + 1) & (kLedger - 1);
  if (!g_ledger[i].p) return false;
  if (size) *size = g_ledger[i].size;
  g_w.live_blocks--;
  g_w.live_bytes -= g_ledger[i].size;
  size_t hole = i, j = i;
  for (;;) {
    j = (j + 1) & (kLedger - 1);
    if (!g_ledger[j].p) break;
    size_t home = slot_of(g_ledger[j].p);
    if (((j - home) & (kLedger - 1)) >= ((j - hole) & (kLedger - 1))) {
      g_ledger[hole] = g_ledger[j];
      hole = j;
    }
  }
  g_ledger[hole].p = nullptr;
  return true;
}
long ledger_live() { return g_w.live_blocks; }
uint32_t ledger_seq() { return (uint32_t)g_alloc_seq; }
long ledger_since(uint32_t seq) {
  long n = 0;
  for (size_t i = 0; i < kLedger; i++) n += g_ledger[i].p && g_ledger[i].seq > seq;
  return n;
}
std::string ledger_sample(int n) {
  std::vector<Block> v;
  for (size_t i = 0; i < kLedger && (int)v.size() < 100000; i++) if (g_ledger[i].p) v.push_back(g_ledger[i]);
  std::string r;
  // newest first
  for (int k = 0; k < n && !v.empty(); k++) {
    size_t best = 0;
    for (size_t i = 1; i < v.size(); i++) if (v[i].seq > v[best].seq) best = i;
    r += strf(" [%zu bytes, op %d]", v[best].size, (int)v[best].op);
    v.erase(v.begin() + best);
  }
  return r;
}

static void note_site(ThreadCtx *c, uintptr_t pc) {
  for (int i = c->n_site - 1; i >= 0; i--) if (c->site[i].pc == pc) { c->site[i].last = c->n_alloc; return; }
  if (c->n_site < (int)(sizeof c->site / sizeof c->site[0])) c->site[c->n_site++] = {pc, c->n_alloc, c->n_alloc};
}
static bool alloc_should_fail(size_t n, void *pc) {
  ThreadCtx *c = t_ctx;
  if (g_w.sites) note_site(c, (uintptr_t)pc);
  c->n_alloc++;
  g_alloc_seq++;
  g_sh->allocs++;
  if (g_w.max_alloc && (long)n > g_w.max_alloc) { hist("BIGALLOC op=%d", c->op); errno = ENOMEM; return true; }
  long k = c->f.alloc_fail_n;
  if (k >= 0 && (long)n >= c->f.alloc_min) {
    bool hit = c->f.alloc_persist ? c->n_alloc - 1 >= k : c->n_alloc - 1 == k;
    if (hit) {
      if (c->allocs_at_fault < 0) c->allocs_at_fault = c->n_alloc;
      g_sh->fired[F_ALLOC_FAIL]++;
      errno = ENOMEM;
      return true;
    }
  }
  return false;
}
static void residue(void *p, size_t n) {
  if (g_w.heapfill < 0 || !n) return;
  if (g_w.heapfill < 256) { memset(p, g_w.heapfill, n); return; }
  // arbitrary residue: words from a sequence determined by the plan
  uint64_t s = g_w.residue_seed + g_alloc_seq * 0x9E3779B97F4A7C15ull;
  uint8_t *b = (uint8_t *)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    memcpy(b + i, &s, 8);
  }
  for (; i < n; i++) b[i] = (uint8_t)(s >> (8 * (i & 7)));
}
static bool in_lib() { return t_ctx && t_ctx->in_lib && g_ledger; }

static void *malloc_from(size_t n, void *pc) {
  if (!in_lib()) return __real_malloc(n);
  if (alloc_should_fail(n, pc)) return nullptr;
  void *p = __real_malloc(n);
  if (p) { residue(p, n); ledger_add(p, n); }
  return p;
}
#define CALLER __builtin_return_address(0)
extern "C" void *__wrap_malloc(size_t n) { return malloc_from(n, CALLER); }
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  if (!in_lib()) return __real_calloc(a, b);
  if (alloc_should_fail(a * b, CALLER)) return nullptr;
  void *p = __real_calloc(a, b);
  if (p) ledger_add(p, a * b);
  return p;
}
static void *realloc_from(void *o, size_t n, void *pc) {
  if (!in_lib()) {
    size_t os;
    bool known = g_ledger && o && ledger_take(o, &os);
    void *p = __real_realloc(o, n);
    if (known) ledger_add(p ? p : o, p ? n : os);
    return p;
  }
  if (alloc_should_fail(n, pc)) return nullptr;
  size_t os = 0;
  bool known = o && ledger_take(o, &os);
  if (!known && o) os = malloc_usable_size(o);
  void *p = __real_realloc(o, n);
  if (p) {
    if (n > os) residue((char *)p + os, n - os);
    ledger_add(p, n);
  } else if (known && n) ledger_add(o, os);
  return p;
}
extern "C" void *__wrap_realloc(void *o, size_t n) { return realloc_from(o, n, CALLER); }
extern "C" void *__wrap_reallocarray(void *o, size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  return realloc_from(o, a * b, CALLER);
}
extern "C" void __wrap_free(void *p) {
  if (!p) return;
  if (g_ledger) ledger_take(p, nullptr);
  __real_free(p);
}
extern "C" char *__wrap_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)malloc_from(n, CALLER);
  if (p) memcpy(p, s, n);
  return p;
}
extern "C" char *__wrap_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m);
  char *p = (char *)malloc_from(n + 1, CALLER);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
static int vasprintf_from(char **out, const char *fmt, va_list ap, void *pc) {
  va_list again;
  va_copy(again, ap);
  int n = vsnprintf(nullptr, 0, fmt, again);
  va_end(again);
  *out = n < 0 ? nullptr : (char *)malloc_from((size_t)n + 1, pc);
  return *out ? vsnprintf(*out, (size_t)n + 1, fmt, ap) : -1;
}
extern "C" int __wrap_vasprintf(char **out, const char *fmt, va_list ap) { return vasprintf_from(out, fmt, ap, CALLER); }
extern "C" int __wrap_asprintf(char **out, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = vasprintf_from(out, fmt, ap, CALLER);
  va_end(ap);
  return n;
}
extern "C" ssize_t __wrap_getdelim(char **line, size_t *room, int delim, FILE *f) {
  if (!in_lib()) return __real_getdelim(line, room, delim, f);
  if (alloc_should_fail(*line ? *room : 120, CALLER)) return -1;
  if (*line) ledger_take(*line, nullptr);
  ssize_t n = __real_getdelim(line, room, delim, f);
  if (*line) ledger_add(*line, *room);
  return n;
}
extern "C" ssize_t __wrap_getline(char **line, size_t *room, FILE *f) { return __wrap_getdelim(line, room, '\n', f); }
extern "C" int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  if (in_lib() && alloc_should_fail(n, CALLER)) return ENOMEM;
  void *p = memalign(al, n);
  if (!p) return ENOMEM;
  if (in_lib()) { residue(p, n); ledger_add(p, n); }
  *out = p;
  return 0;
}
extern "C" void *__wrap_aligned_alloc(size_t al, size_t n) {
  void *p = nullptr;
  return __wrap_posix_memalign(&p, al, n) ? nullptr : p;
}
void *operator new(size_t n) {
  void *p = malloc_from(n ? n : 1, CALLER);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  void *p = malloc_from(n ? n : 1, CALLER);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc_from(n ? n : 1, CALLER); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc_from(n ? n : 1, CALLER); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

// ---------------------------------------------------------------- process end
void flush_counters() {
  g_sh->steps = g_steps;
  g_sh->io_ops = g_w.io_ops;
}
void child_end(int code) {
  flush_counters();
  __real__exit(code);
}
void cli_finish(int code);  // exec.cpp
extern "C" void __wrap_exit(int code) {
  if (!in_lib()) __real_exit(code);
  if (g_w.is_cli) cli_finish(code);
  hist("EXIT op=%d code=%d", t_ctx->op, code);
  child_end(40);
}
extern "C" void __wrap__exit(int code) {
  if (!in_lib()) __real__exit(code);
  hist("EXIT op=%d code=%d", t_ctx->op, code);
  child_end(40);
}
extern "C" void __wrap__Exit(int code) { __wrap__exit(code); }
extern "C" void __wrap_quick_exit(int code) { __wrap__exit(code); }
extern "C" void __wrap_abort(void) {
  if (!in_lib()) __real_abort();
  hist("ABORT op=%d allocfault=%ld", t_ctx->op, t_ctx->allocs_at_fault);
  child_end(41);
}
extern "C" void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/');
  hist("ASSERT op=%d allocfault=%ld %s:%s", t_ctx ? t_ctx->op : -1, t_ctx ? t_ctx->allocs_at_fault : -1, b ? b + 1 : file, e);
  child_end(42);
}
extern "C" void __wrap___assert_perror_fail(int, const char *file, unsigned line, const char *fn) {
  __wrap___assert_fail("perror", file, line, fn);
}

// ---------------------------------------------------------------- clock, environment, randomness
static long sim_now() {
  long t = g_w.clock;
  if (g_w.told < 16) g_w.told_at[g_w.told++] = t;
  g_w.clock += g_w.clock_step;
  g_sh->simtime += labs(g_w.clock_step);
  if (g_w.clock_step) g_sh->fired[F_CLOCK]++;
  return t;
}
extern "C" time_t __wrap_time(time_t *p) {
  if (!in_lib()) return __real_time(p);
  time_t t = sim_now();
  if (p) *p = t;
  return t;
}
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *z) {
  if (!in_lib()) return __real_gettimeofday(tv, z);
  tv->tv_sec = sim_now();
  tv->tv_usec = 0;
  return 0;
}
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  if (!in_lib()) return __real_clock_gettime(id, ts);
  ts->tv_sec = sim_now();
  ts->tv_nsec = 0;
  return 0;
}
extern "C" clock_t __wrap_clock(void) { return in_lib() ? (clock_t)sim_now() : 0; }
extern "C" char *__wrap_getenv(const char *n) {
  if (!in_lib()) return __real_getenv(n);
  auto i = g_w.env.find(n);
  if (i != g_w.env.end()) return (char *)i->second.c_str();
  return nullptr;  // the simulated process has no other variables
}
extern "C" char *__wrap_secure_getenv(const char *n) { return __wrap_getenv(n); }
static uint64_t g_rand;
static uint64_t env_random() {
  g_rand = g_rand * 6364136223846793005ull + g_w.residue_seed * 2 + 1442695040888963407ull;
  return g_rand >> 33;
}
extern "C" int __wrap_rand(void) { return (int)(env_random() & 0x7fffffff); }
extern "C" void __wrap_srand(unsigned) {}
extern "C" long __wrap_random(void) { return (long)(env_random() & 0x7fffffff); }
extern "C" void __wrap_srandom(unsigned) {}
extern "C" int __wrap_rand_r(unsigned *) { return (int)(env_random() & 0x7fffffff); }
extern "C" double __wrap_drand48(void) { return (env_random() & 0x7fffffff) / 2147483648.0; }
extern "C" long __wrap_lrand48(void) { return (long)(env_random() & 0x7fffffff); }
extern "C" ssize_t __wrap_getrandom(void *b, size_t n, unsigned) {
  for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)env_random();
  return (ssize_t)n;
}
extern "C" int __wrap_getpid(void) { return in_lib() ? 2 + (int)(g_w.residue_seed % 30000) : __real_getpid(); }
extern "C" char *__wrap_setlocale(int c, const char *l) { return __real_setlocale(c, l && !*l && in_lib() ? g_w.locale.c_str() : l); }

// ---------------------------------------------------------------- storage
struct Stream { SinkState st; FILE *f; int op; ThreadCtx *ctx; OpFaults flt; bool lib_opened; bool eio_done = false, wfail_done = false; long nseek = 0; char *vbuf = nullptr; };
static std::vector<Stream *> g_streams;

static void io_point(bool writing, Stream *s, size_t pending) {
  (void)pending;
  g_w.io_ops++;
  if (t_ctx && t_ctx->f.crash_io >= 0 && g_w.io_ops > t_ctx->f.crash_io) {
    g_sh->fired[F_CRASH]++;
    hist("CRASH op=%d io=%ld", t_ctx->op, g_w.io_ops);
    child_end(43);
  }
  sched_io_point();
}
// The stdio callbacks below run on the library's thread while in_lib is set;
// they are simulator code.
static ssize_t ck_read(void *c, char *buf, size_t n) {
  Stream *s = (Stream *)c;
  HarnessScope h;
  io_point(false, s, n);
  s->st.reads++;
  const OpFaults &f = s->flt;
  size_t want = n;
  if (f.chunk > 0 && (long)want > f.chunk) { want = f.chunk; g_sh->fired[F_SHORT_READ]++; }
  if (f.eio_at >= 0 && !(f.eio_once && s->eio_done)) {
    if (s->st.pos >= f.eio_at) {
      s->eio_done = true;
      g_sh->fired[F_READ_EIO]++;
      errno = EIO;
      return -1;
    }
    if (s->st.pos + (long)want > f.eio_at) want = f.eio_at - s->st.pos;
  }
  ssize_t r = pread(s->st.fd, buf, want, s->st.pos);
  if (r > 0) s->st.pos += r;
  return r;
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
  Stream *s = (Stream *)c;
  HarnessScope h;
  if (t_ctx->f.crash_io >= 0 && g_w.io_ops + 1 > t_ctx->f.crash_io && t_ctx->f.crash_part > 0) {
    // torn write: part of this block reaches the disk before the crash
    size_t part = n * (size_t)t_ctx->f.crash_part / 100;
    if (part) (void)!pwrite(s->st.fd, buf, part, s->st.pos);
  }
  io_point(true, s, n);
  s->st.writes++;
  const OpFaults &f = s->flt;
  size_t done = 0;
  while (done < n) {
    size_t want = n - done;
    if (f.wchunk > 0 && (long)want > f.wchunk) want = f.wchunk;
    if (f.wfail_at >= 0 && !(f.wfail_once && s->wfail_done)) {
      if (s->st.pos >= f.wfail_at) {
        s->wfail_done = true;
        s->st.failed = true;
        g_sh->fired[f.wfail_once ? F_WRITE_TRANSIENT : F_WRITE_FAIL]++;
        errno = f.wfail_errno;
        break;
      }
      if (s->st.pos + (long)want > f.wfail_at) want = f.wfail_at - s->st.pos;
    }
    ssize_t r = pwrite(s->st.fd, buf + done, want, s->st.pos);
    if (r <= 0) { s->st.failed = true; break; }
    s->st.pos += r;
    s->st.delivered += r;
    done += r;
  }
  return done == n ? (ssize_t)n : (done ? (ssize_t)done : 0);
}
static int ck_seek(void *c, off64_t *off, int wh) {
  Stream *s = (Stream *)c;
  HarnessScope h;
  if (!s->st.seekable) {
    g_sh->fired[F_UNSEEKABLE]++;
    errno = ESPIPE;
    return -1;
  }
  io_point(false, s, 0);
  s->st.seeks++;
  if (s->flt.seek_fail_n >= 0 && s->nseek++ == s->flt.seek_fail_n) {
    g_sh->fired[F_SEEK_FAIL]++;
    errno = EIO;
    return -1;
  }
  struct stat sb;
  fstat(s->st.fd, &sb);
  long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->st.pos : (long)sb.st_size;
  if (base + *off < 0) { errno = EINVAL; return -1; }
  s->st.pos = base + *off;
  *off = s->st.pos;
  return 0;
}
static int ck_close(void *c) {
  Stream *s = (Stream *)c;
  HarnessScope h;
  io_point(true, s, 0);
  int r = 0;
  const OpFaults &f = s->flt;
  if (s->st.writing && f.late_loss_at >= 0) {
    struct stat sb;
    fstat(s->st.fd, &sb);
    if (sb.st_size > f.late_loss_at) {
      (void)!ftruncate(s->st.fd, f.late_loss_at);
      g_sh->fired[F_LATE_LOSS]++;
      s->st.failed = s->st.failed_close = true;
      errno = ENOSPC;
      r = -1;
    }
  }
  if (s->st.writing && f.close_fail) {
    g_sh->fired[F_CLOSE_FAIL]++;
    s->st.failed = s->st.failed_close = true;
    errno = EIO;
    r = -1;
  }
  close(s->st.fd);
  s->st.closed = true;
  return r;
}
FILE *sim_open(const char *path, const char *mode, bool harness_owned, SinkState **st) {
  HarnessScope h;
  bool wr = mode[0] != 'r' || strchr(mode, '+');
  int flags = mode[0] == 'r' ? (wr ? O_RDWR : O_RDONLY)
            : mode[0] == 'w' ? O_CREAT | O_TRUNC | (strchr(mode, '+') ? O_RDWR : O_WRONLY)
                             : O_CREAT | O_RDWR;
  int fd = open(path, flags | O_CLOEXEC, 0666);
  if (fd < 0) return nullptr;
  Stream *s = new Stream();
  s->st.fd = fd;
  s->st.harness_owned = harness_owned;
  s->st.writing = wr;
  s->st.name = path;
  s->op = t_ctx->op;
  s->ctx = t_ctx;
  s->flt = t_ctx->f;
  s->lib_opened = !harness_owned;
  if (mode[0] == 'a') s->st.pos = lseek(fd, 0, SEEK_END);
  if (s->flt.unseekable) s->st.seekable = false;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(s, mode, io);
  if (!f) { close(fd); delete s; return nullptr; }
  if (s->flt.rbuf == 0) setvbuf(f, nullptr, _IONBF, 0);
  else if (s->flt.rbuf > 0) {
    s->vbuf = (char *)__real_malloc(s->flt.rbuf);
    setvbuf(f, s->vbuf, _IOFBF, s->flt.rbuf);
  }
  s->f = f;
  g_streams.push_back(s);
  if (st) *st = &s->st;
  if (!harness_owned) g_w.open_streams++;
  return f;
}
static Stream *stream_of(FILE *f) {
  for (size_t i = g_streams.size(); i-- > 0;) if (g_streams[i]->f == f && !g_streams[i]->st.closed) return g_streams[i];
  return nullptr;
}
bool stream_open(FILE *f) { return stream_of(f) != nullptr; }
long harness_fclose(FILE *f) {
  HarnessScope h;
  return __real_fclose(f);
}
extern "C" FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!in_lib()) return __real_fopen(path, mode);
  ThreadCtx *c = t_ctx;
  long k = c->n_open++;
  {
    HarnessScope h;
    io_point(false, nullptr, 0);
  }
  if (c->f.open_fail_n == k) {
    g_sh->fired[F_OPEN_FAIL]++;
    errno = c->f.open_errno;
    return nullptr;
  }
  return sim_open(path, mode, false, nullptr);
}
extern "C" FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
extern "C" int __wrap_fclose(FILE *f) {
  Stream *s = stream_of(f);
  if (s && in_lib()) {
    if (s->st.harness_owned) {
      g_w.closes_foreign++;
      hist("FOREIGN-CLOSE op=%d", t_ctx->op);
    } else g_w.open_streams--;
  }
  return __real_fclose(f);
}
extern "C" FILE *__wrap_freopen(const char *p, const char *m, FILE *f) {
  if (in_lib()) hist("FREOPEN op=%d", t_ctx->op);
  return __real_freopen(p, m, f);
}

// The descriptor below a simulated stream, and descriptors the library opens
// itself, meet the same faults as stdio does.
extern "C" {
int __real_fileno(FILE *);
int __real_open(const char *, int, ...);
int __real_creat(const char *, mode_t);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
off_t __real_lseek(int, off_t, int);
ssize_t __real_writev(int, const struct iovec *, int);
int __real_fsync(int);
int __real_rename(const char *, const char *);
}
static Stream *stream_of_fd(int fd) {
  if (fd < 0 || !in_lib()) return nullptr;
  for (size_t i = g_streams.size(); i-- > 0;) if (g_streams[i]->st.fd == fd && !g_streams[i]->st.closed) return g_streams[i];
  return nullptr;
}
extern "C" int __wrap_fileno(FILE *f) {
  Stream *s = in_lib() ? stream_of(f) : nullptr;
  return s ? s->st.fd : __real_fileno(f);
}
extern "C" int __wrap_open(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, unsigned);
    va_end(ap);
  }
  if (!in_lib()) return __real_open(path, flags, mode);
  ThreadCtx *c = t_ctx;
  long k = c->n_open++;
  HarnessScope h;
  io_point(false, nullptr, 0);
  if (c->f.open_fail_n == k) {
    g_sh->fired[F_OPEN_FAIL]++;
    errno = c->f.open_errno;
    return -1;
  }
  int fd = __real_open(path, flags | O_CLOEXEC, mode);
  if (fd < 0) return fd;
  Stream *s = new Stream();
  s->f = nullptr;
  s->st.fd = fd;
  s->st.harness_owned = false;
  s->st.writing = (flags & O_ACCMODE) != O_RDONLY;
  s->st.name = path;
  s->op = c->op;
  s->ctx = c;
  s->flt = c->f;
  s->lib_opened = true;
  if (flags & O_APPEND) s->st.pos = __real_lseek(fd, 0, SEEK_END);
  if (s->flt.unseekable) s->st.seekable = false;
  g_streams.push_back(s);
  g_w.open_streams++;
  return fd;
}
extern "C" int __wrap_open64(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, unsigned);
    va_end(ap);
  }
  return __wrap_open(path, flags, mode);
}
extern "C" int __wrap_creat(const char *path, mode_t mode) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
extern "C" int __wrap_close(int fd) {
  Stream *s = stream_of_fd(fd);
  if (!s) return __real_close(fd);
  if (s->f) {  // the descriptor of an open stream
    s->st.failed = true;
    if (s->st.harness_owned) { g_w.closes_foreign++; hist("FOREIGN-CLOSE op=%d", t_ctx->op); }
    return __real_close(fd);
  }
  g_w.open_streams--;
  return ck_close(s);
}
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) {
  Stream *s = stream_of_fd(fd);
  return s ? ck_read(s, (char *)b, n) : __real_read(fd, b, n);
}
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) {
  Stream *s = stream_of_fd(fd);
  if (!s) return __real_write(fd, b, n);
  if (s->flt.wchunk > 0 && (long)n > s->flt.wchunk) n = s->flt.wchunk;
  ssize_t r = ck_write(s, (const char *)b, n);
  return r == 0 && n ? -1 : r;
}
extern "C" ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
  Stream *s = stream_of_fd(fd);
  if (!s) return __real_writev(fd, v, n);
  ssize_t done = 0;
  for (int i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return done ? done : -1;
    done += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return done;
}
extern "C" off_t __wrap_lseek(int fd, off_t o, int wh) {
  Stream *s = stream_of_fd(fd);
  if (!s) return __real_lseek(fd, o, wh);
  off64_t at = o;
  return ck_seek(s, &at, wh) ? -1 : at;
}
extern "C" off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
extern "C" int __wrap_fsync(int fd) {
  Stream *s = stream_of_fd(fd);
  if (!s) return __real_fsync(fd);
  HarnessScope h;
  io_point(true, s, 0);
  struct stat sb;
  fstat(s->st.fd, &sb);
  if (s->st.writing && s->flt.late_loss_at >= 0 && sb.st_size > s->flt.late_loss_at) {
    (void)!ftruncate(s->st.fd, s->flt.late_loss_at);
    g_sh->fired[F_LATE_LOSS]++;
    s->st.failed = s->st.failed_close = true;
    errno = ENOSPC;
    return -1;
  }
  return 0;
}
extern "C" int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
extern "C" int __wrap_rename(const char *a, const char *b) {
  if (in_lib()) {
    HarnessScope h;
    io_point(true, nullptr, 0);
  }
  return __real_rename(a, b);
}
extern "C" FILE *__wrap_fdopen(int fd, const char *m) {
  Stream *s = stream_of_fd(fd);
  if (!s || s->f) return __real_fdopen(fd, m);
  HarnessScope h;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  s->f = fopencookie(s, m, io);
  return s->f;
}
extern "C" FILE *__wrap_tmpfile(void) { return __real_tmpfile(); }

void world_reset() {
  g_w = World();
  g_cov = g_sh->cov;
  if (!g_ledger) g_ledger = (Block *)__real_calloc(kLedger, sizeof(Block));
}
void begin_op(ThreadCtx &t, int op, const OpFaults &f, uint64_t limit) {
  t.op = op;
  t.f = f;
  g_w.told = 0;
  t.n_open = t.n_alloc = t.n_seek = 0;
  t.n_site = 0;
  t.op_steps = 0;
  t.op_step_limit = limit;
  t.allocs_at_fault = -1;
  t.peek_next = ~0ull;
}

// ---------------------------------------------------------------- scheduler
static sem_t g_sem[16];
static bool g_done[16];
static int g_cur;
static size_t g_exp_pos;
static Rng g_dense(1);
static int g_noswitch;           // inside a once-only initialiser
static void plan_next_event() {
  g_next_event = ~0ull;
  if (!g_sched.active) return;
  if (g_sched.dense_budget > 0) g_next_event = g_steps + g_dense.range(g_sched.dense_lo, g_sched.dense_hi);
  while (g_exp_pos < g_sched.explicit_switches.size() && g_sched.explicit_switches[g_exp_pos].first <= g_steps) g_exp_pos++;
  if (g_exp_pos < g_sched.explicit_switches.size() && g_sched.explicit_switches[g_exp_pos].first < g_next_event)
    g_next_event = g_sched.explicit_switches[g_exp_pos].first;
}
static void switch_to(int to, uint64_t where) {
  int me = g_cur;
  if (to == me || to < 0 || to >= g_sched.n || g_done[to]) return;
  g_sh->fired[F_SWITCH]++;
  g_sh->sched_hash = (g_sh->sched_hash ^ (where * 31 + me * 17 + to)) * 0x100000001b3ull;
  g_sh->switches++;
  if (g_sh->nswlog < 20000) {
    g_sh->swlog[g_sh->nswlog].at = g_steps;
    g_sh->swlog[g_sh->nswlog].to = to;
    g_sh->nswlog++;
  }
  g_cur = to;
  sem_post(&g_sem[to]);
  while (sem_wait(&g_sem[me])) {}
}
static int pick_other() {
  int alive = 0;
  for (int i = 0; i < g_sched.n; i++) if (!g_done[i] && i != g_cur) alive++;
  if (!alive) return -1;
  int k = (int)g_dense.below(alive);
  for (int i = 0; i < g_sched.n; i++) if (!g_done[i] && i != g_cur && k-- == 0) return i;
  return -1;
}
static void __attribute__((noinline)) sched_event(uintptr_t pc) {
  if (g_noswitch) { g_next_event = g_steps + 1; return; }
  int to = -1;
  if (g_exp_pos < g_sched.explicit_switches.size() && g_sched.explicit_switches[g_exp_pos].first == g_steps)
    to = g_sched.explicit_switches[g_exp_pos++].second;
  else if (g_sched.dense_budget > 0) {
    g_sched.dense_budget--;
    to = pick_other();
  }
  plan_next_event();
  if (to >= 0) switch_to(to, pc);
}
void sched_io_point() {
  if (!g_sched.active) return;
  if (g_noswitch) return;
  g_steps++;  // a step of its own, so that a switch here has a position in the log
  if (g_exp_pos < g_sched.explicit_switches.size() && g_sched.explicit_switches[g_exp_pos].first == g_steps) {
    int to = g_sched.explicit_switches[g_exp_pos++].second;
    plan_next_event();
    switch_to(to, 7);
  } else if (g_sched.io_pct && g_dense.chance(g_sched.io_pct, 100)) {
    int to = pick_other();
    plan_next_event();
    if (to >= 0) switch_to(to, 7);
  }
}
uint64_t global_step() { return g_steps; }
#ifdef SIM_ACCESS
void access_switch(int pm) {
  if (g_noswitch) return;
  g_steps++;
  int to = -1;
  if (g_exp_pos < g_sched.explicit_switches.size() && g_sched.explicit_switches[g_exp_pos].first == g_steps) to = g_sched.explicit_switches[g_exp_pos++].second;
  else if (g_sched.dense_budget > 0 && pm && (long)g_dense.below(1000) < pm) {
    g_sched.dense_budget--;
    to = pick_other();
  } else return;
  plan_next_event();
  if (to >= 0) switch_to(to, 9);
}
#endif

// Everything that does not happen at most basic blocks.
static void __attribute__((noinline)) block_event(ThreadCtx *c, uintptr_t pc, uint8_t *cv) {
  if (!*cv) { *cv = 1; g_sh->cov_edges++; g_sh->cov_hash += (uint64_t)pc * 0x9E3779B97F4A7C15ull; }
  if (g_steps >= g_next_event) sched_event(pc);
  if (c->op_steps >= c->peek_next) {
    c->peek_next = c->op_steps + c->peek_every;
    HarnessScope h;
    c->peek(c->peek_arg);
  }
  if (c->op_step_limit && c->op_steps >= c->op_step_limit) {
    hist("HANG op=%d steps=%llu", c->op, (unsigned long long)c->op_steps);
    child_end(44);
  }
}
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
  ThreadCtx *c = t_ctx;
  if (__builtin_expect(!c || !c->in_lib, 0)) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  uint8_t *cv = &g_cov[((uint32_t)pc * 0x9E3779B1u) >> 16];
  uint64_t limit = c->op_step_limit - 1;  // no limit: all ones
  if (__builtin_expect((!*cv) | (++g_steps >= g_next_event) | (c->op_steps >= c->peek_next) | (c->op_steps >= limit), 0)) block_event(c, pc, cv);
  c->op_steps++;
}

// Locks of the code under test: a session that finds one taken hands the
// baton on, as a blocked thread would.
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
}
static long g_lock_spins;
static void lock_wait() {
  int to = -1;
  for (int k = 1; k < g_sched.n && to < 0; k++) if (!g_done[(g_cur + k) % g_sched.n]) to = (g_cur + k) % g_sched.n;
  if (to < 0 || ++g_lock_spins > 200000) {
    hist("HANG op=%d deadlock", t_ctx->op);
    child_end(44);
  }
  int me = g_cur;
  g_cur = to;
  sem_post(&g_sem[to]);
  while (sem_wait(&g_sem[me])) {}
}
static bool locks_simulated() { return in_lib(); }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!locks_simulated()) return __real_pthread_mutex_lock(m);
  for (int r; (r = pthread_mutex_trylock(m)) != 0;) {
    if (r != EBUSY) return r;
    lock_wait();
  }
  g_lock_spins = 0;
  return 0;
}
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!locks_simulated()) return __real_pthread_rwlock_rdlock(m);
  for (int r; (r = pthread_rwlock_tryrdlock(m)) != 0;) {
    if (r != EBUSY) return r;
    lock_wait();
  }
  g_lock_spins = 0;
  return 0;
}
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!locks_simulated()) return __real_pthread_rwlock_wrlock(m);
  for (int r; (r = pthread_rwlock_trywrlock(m)) != 0;) {
    if (r != EBUSY) return r;
    lock_wait();
  }
  g_lock_spins = 0;
  return 0;
}
extern "C" int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  g_noswitch++;
  int r = __real_pthread_once(o, f);
  g_noswitch--;
  return r;
}
extern "C" int __wrap___cxa_guard_acquire(uint64_t *g) {
  g_noswitch++;
  int r = __real___cxa_guard_acquire(g);
  if (!r) g_noswitch--;
  return r;
}
extern "C" void __wrap___cxa_guard_release(uint64_t *g) {
  __real___cxa_guard_release(g);
  g_noswitch--;
}
extern "C" void __wrap___cxa_guard_abort(uint64_t *g) {
  __real___cxa_guard_abort(g);
  g_noswitch--;
}

struct ThreadArg { int i; void (*body)(int, void *); void *arg; };
static void *thread_main(void *a) {
  ThreadArg *t = (ThreadArg *)a;
  while (sem_wait(&g_sem[t->i])) {}
  t->body(t->i, t->arg);
  g_done[t->i] = true;
  // hand the baton on
  int to = -1;
  for (int k = 1; k <= g_sched.n && to < 0; k++) {
    int j = (t->i + k) % g_sched.n;
    if (!g_done[j]) to = j;
  }
  if (to >= 0) {
    g_cur = to;
    plan_next_event();
    sem_post(&g_sem[to]);
  }
  return nullptr;
}
void sched_run(int n, void (*body)(int, void *), void *arg) {
  g_sched.n = n;
  g_dense = Rng(g_sched.dense_seed * 2 + 1);
  g_exp_pos = 0;
  g_cur = 0;
  g_sched.active = n > 1;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 256u << 20);
  pthread_t th[16];
  ThreadArg args[16];
  for (int i = 0; i < n; i++) {
    sem_init(&g_sem[i], 0, 0);
    g_done[i] = false;
    args[i] = {i, body, arg};
    if (pthread_create(&th[i], &at, thread_main, &args[i])) { hist("HARNESS pthread_create failed"); child_end(50); }
  }
  plan_next_event();
  sem_post(&g_sem[0]);
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
  g_sched.active = false;
  g_next_event = ~0ull;
}

double c_strtod(const char *s) {
  static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0);
  return strtod_l(s, nullptr, c);
}
