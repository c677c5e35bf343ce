// Executes a plan against the real code and records its history.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <clocale>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "autotrace.h"
#include "input.h"
#include "output.h"
#include "private.h"
#include "Autotrace.h"
#include "FittingOptionsBuidler.h"
#include "InputOptionsBuilder.h"
#include "OutputOptionsBuilder.h"

extern "C" int autotrace_cli_main(int argc, char *argv[]);
extern "C" [[noreturn]] void __real__exit(int);

std::string g_scratch;
std::map<std::string, std::string> g_other_bins;
PropStats g_stats;
uint64_t g_run_digest;
std::vector<uint64_t> g_run_covs, g_run_scheds;

// ---------------------------------------------------------------- plan text
std::string Plan::text() const {
  std::string r;
  for (auto &i : items) {
    r += i.kind;
    for (auto &k : i.kv) r += " " + k.first + "=" + k.second;
    r += "\n";
  }
  return r;
}
bool Plan::parse(const std::string &t, Plan &p) {
  p.items.clear();
  size_t at = 0;
  while (at < t.size()) {
    size_t nl = t.find('\n', at);
    if (nl == std::string::npos) nl = t.size();
    std::string line = t.substr(at, nl - at);
    at = nl + 1;
    if (line.empty() || line[0] == '#') continue;
    Item it;
    size_t i = 0;
    bool first = true;
    while (i < line.size()) {
      size_t sp = line.find(' ', i);
      if (sp == std::string::npos) sp = line.size();
      std::string tok = line.substr(i, sp - i);
      i = sp + 1;
      if (tok.empty()) continue;
      if (first) { it.kind = tok; first = false; continue; }
      size_t eq = tok.find('=');
      if (eq == std::string::npos) return false;
      it.kv[tok.substr(0, eq)] = tok.substr(eq + 1);
    }
    if (!it.kind.empty()) p.items.push_back(it);
  }
  return true;
}

// ---------------------------------------------------------------- helpers
static std::string slurp(const std::string &path) {
  std::string r;
  int fd = open(path.c_str(), O_RDONLY);
  if (fd < 0) return r;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
  close(fd);
  return r;
}
static void spill(const std::string &path, const std::string &d) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) return;
  size_t at = 0;
  while (at < d.size()) {
    ssize_t n = write(fd, d.data() + at, d.size() - at);
    if (n <= 0) break;
    at += n;
  }
  close(fd);
}
static std::string token(const std::string &s) {
  std::string r;
  for (char c : s) r += (c == ' ' || c == '\n' || c == '=' || c == '\t' || (unsigned char)c < 33) ? '_' : c;
  return r.empty() ? "-" : r.substr(0, 600);
}
static std::string hex(uint64_t v) { return strf("%016llx", (unsigned long long)v); }

static void color_opt(const Item &it, const char *k, at_color **out) {
  std::string s = it.str(k);
  if (s.empty() || s == "none") return;
  unsigned v = (unsigned)strtoul(s.c_str(), nullptr, 16);
  LibScope l;
  *out = at_color_new((v >> 16) & 255, (v >> 8) & 255, v & 255);
}
static void fill_fit(const Item &it, at_fitting_opts_type *o) {
  color_opt(it, "bg", &o->background_color);
  if (it.has("cc")) o->color_count = (unsigned)it.num("cc");
  if (it.has("cat")) o->corner_always_threshold = (float)it.dbl("cat", 60);
  if (it.has("cs")) o->corner_surround = (unsigned)it.num("cs");
  if (it.has("ct")) o->corner_threshold = (float)it.dbl("ct", 100);
  if (it.has("et")) o->error_threshold = (float)it.dbl("et", 2);
  if (it.has("fi")) o->filter_iterations = (unsigned)it.num("fi");
  if (it.has("lrt")) o->line_reversion_threshold = (float)it.dbl("lrt", .01);
  if (it.has("lt")) o->line_threshold = (float)it.dbl("lt", 1);
  if (it.num("rac")) o->remove_adjacent_corners = true;
  if (it.num("rk")) o->remove_knees = true;
  if (it.has("ts")) o->tangent_surround = (unsigned)it.num("ts");
  if (it.has("dl")) o->despeckle_level = (unsigned)it.num("dl");
  if (it.has("dt")) o->despeckle_tightness = (float)it.dbl("dt", 2);
  if (it.has("nr")) o->noise_removal = (float)it.dbl("nr", .99);
  if (it.num("cl")) o->centerline = true;
  if (it.num("pw")) o->preserve_width = true;
  if (it.has("wwf")) o->width_weight_factor = (float)it.dbl("wwf", 6);
}
template <class T> static void mix(uint64_t &h, const T &v) { h = hash_bytes(&v, sizeof v, h); }
static uint64_t hash_color(const at_color *c, uint64_t h) {
  if (!c) return h * 31 + 7;
  mix(h, c->r); mix(h, c->g); mix(h, c->b);
  return h;
}
static uint64_t hash_fit(const at_fitting_opts_type *o) {
  uint64_t h = 1;
  const void *bg = o->background_color;
  mix(h, bg);
  h = hash_color(o->background_color, h);
  mix(h, o->charcode); mix(h, o->color_count); mix(h, o->corner_always_threshold); mix(h, o->corner_surround);
  mix(h, o->corner_threshold); mix(h, o->error_threshold); mix(h, o->filter_iterations); mix(h, o->line_reversion_threshold);
  mix(h, o->line_threshold); mix(h, o->remove_adjacent_corners); mix(h, o->remove_knees); mix(h, o->tangent_surround);
  mix(h, o->despeckle_level); mix(h, o->despeckle_tightness); mix(h, o->noise_removal); mix(h, o->centerline);
  mix(h, o->preserve_width); mix(h, o->width_weight_factor);
  return h;
}
static uint64_t hash_in(const at_input_opts_type *o) {
  uint64_t h = 2;
  if (!o) return h;
  const void *bg = o->background_color;
  mix(h, bg);
  h = hash_color(o->background_color, h);
  mix(h, o->charcode);
  return h;
}
static uint64_t hash_bitmap(const at_bitmap *b) {
  uint64_t h = 3;
  mix(h, b->width); mix(h, b->height); mix(h, b->np);
  if (b->bitmap) h = hash_bytes(b->bitmap, (size_t)b->width * b->height * b->np, h);
  return h;
}
static uint64_t hash_splines(const at_splines_type *s, bool pointers) {
  uint64_t h = 4;
  if (!s) return h;
  mix(h, s->length); mix(h, s->height); mix(h, s->width); mix(h, s->centerline); mix(h, s->preserve_width); mix(h, s->width_weight_factor);
  h = hash_color(s->background_color, h);
  if (pointers) { const void *q = s->data, *c = s->background_color; mix(h, q); mix(h, c); }
  for (unsigned i = 0; i < s->length; i++) {
    const at_spline_list_type &l = s->data[i];
    mix(h, l.length); mix(h, l.clockwise); mix(h, l.open);
    h = hash_color(&l.color, h);
    if (pointers) { const void *q = l.data; mix(h, q); }
    for (unsigned k = 0; k < l.length; k++) {
      const at_spline_type &q = l.data[k];
      for (int j = 0; j < 4; j++) { mix(h, q.v[j].x); mix(h, q.v[j].y); mix(h, q.v[j].z); }
      mix(h, q.degree);
      mix(h, q.linearity);
    }
  }
  return h;
}

// ---------------------------------------------------------------- callbacks
struct Cb {
  char m = 0, p = 0, c = 0;  // their addresses are the client data pointers
  int op = 0;
  int nf = 0, nw = 0, bad = 0;
  std::string msgs;
  // progress
  long np = 0;
  double last = -1, lo = 1e9, hi = -1e9;
  bool dec = false, badval = false;
  uint64_t phash = 5;
  long ones = 0;
  // cancel
  long polls = 0, cancel_at = -1;
  bool latch = true, cancelled = false;
  long polls_after = 0, prog_after = 0, msgs_after = 0;
  uint64_t step_cancel = 0;
  // observers
  uint64_t watch_hash = 0;
  uint64_t (*watch)(Cb *) = nullptr;
  const void *w1 = nullptr, *w2 = nullptr, *w3 = nullptr;
  long seen_changed = 0, peeks = 0;
  uint64_t seen_bitmap = 0;
  bool whole = true;  // look at all of a large bitmap now
  // re-entry
  long reenter_at = -1;
  const Item *reenter = nullptr;
  bool stall = false;
  bool done = false;  // the operation returned
  long late = 0;
};
static thread_local Cb *t_cb;
static void observe(Cb *cb) {
  if (!cb || !cb->watch) return;
  cb->peeks++;
  if (cb->watch(cb) != cb->watch_hash) cb->seen_changed++;
}
static void peek_fn(void *a) { observe((Cb *)a); }
static void on_msg(const char *msg, at_msg_type type, void *data) {
  HarnessScope h;
  Cb *cb = t_cb;
  if (!cb || data != &cb->m) { if (cb) cb->bad++; hist("BADPTR kind=msg op=%d", t_ctx->op); return; }
  if (type == AT_MSG_FATAL) cb->nf++;
  else if (type == AT_MSG_WARNING) cb->nw++;
  else cb->bad++;
  if (!msg) { cb->bad++; msg = "(null)"; }
  if (cb->msgs.size() < 400) cb->msgs += (type == AT_MSG_FATAL ? "F:" : "W:") + token(msg) + ";";
  if (cb->cancelled) cb->msgs_after++;
  if (cb->done) cb->late++;
  observe(cb);
}
static void do_reenter(Cb *cb);
static void on_progress(float v, void *data) {
  HarnessScope h;
  Cb *cb = t_cb;
  if (!cb || data != &cb->p) { if (cb) cb->bad++; hist("BADPTR kind=progress op=%d", t_ctx->op); return; }
  cb->np++;
  mix(cb->phash, v);
  if (!(v >= 0.0f && v <= 1.0f)) cb->badval = true;
  if (v < cb->last) cb->dec = true;
  cb->last = v;
  cb->lo = std::min(cb->lo, (double)v);
  cb->hi = std::max(cb->hi, (double)v);
  if (v == 1.0f) cb->ones++;
  if (cb->cancelled) cb->prog_after++;
  if (cb->done) cb->late++;
  observe(cb);
  if (cb->stall) { g_sh->fired[F_STALL]++; g_w.clock += 3600; }
  if (cb->reenter && cb->np - 1 == cb->reenter_at) do_reenter(cb);
}
static bool on_cancel(void *data) {
  HarnessScope h;
  Cb *cb = t_cb;
  if (!cb || data != &cb->c) { if (cb) cb->bad++; hist("BADPTR kind=cancel op=%d", t_ctx->op); return false; }
  long k = cb->polls++;
  if (cb->done) cb->late++;
  observe(cb);
  if (cb->cancelled) {
    cb->polls_after++;
    return cb->latch;
  }
  if (cb->cancel_at >= 0 && k == cb->cancel_at) {
    cb->cancelled = true;
    cb->step_cancel = t_ctx->op_steps;
    g_sh->fired[F_CANCEL]++;
    return true;
  }
  if (cb->reenter && cb->reenter_at < 0 && k == -cb->reenter_at - 1) do_reenter(cb);
  return false;
}

// ---------------------------------------------------------------- session state
struct OutStream { FILE *f = nullptr; SinkState *st = nullptr; std::string path; std::string prefix; long docs = 0; std::string want; bool want_ok = true; };
struct Sess {
  int id = 0;
  std::map<int, at_bitmap *> bm;
  std::map<int, at_splines_type *> sp;
  std::map<int, OutStream> st;
  std::map<int, std::string> docs;  // documents written to plain files, by op
  ThreadCtx ctx;
};
struct Run {
  const Plan *p;
  const ExecMode *m;
  std::map<int, std::string> fname;              // file id -> path
  std::map<int, Encoded> enc;
  std::map<int, std::string> content;            // bytes on "disk"
  std::map<int, at_fitting_opts_type *> shfit;   // shared options
  std::map<int, at_output_opts_type *> shout;
  std::map<int, at_input_opts_type *> shin;
  std::vector<Sess *> sess;
  int iter = 0;
};
static Run *g_run;

static OpFaults faults_for(const Item &op, Cb *cb) {
  OpFaults f;
  f.rbuf = op.num("rbuf", -1);
  f.chunk = op.num("chunk", 0);
  f.wchunk = op.num("wchunk", 0);
  if (op.str("sink") == "pipe") f.unseekable = true;
  if (!g_run->m->faults) return f;
  for (auto &i : g_run->p->items) {
    if (i.kind != "fault" || i.num("op") != op.num("id")) continue;
    if (i.has("it") && i.num("it") != g_run->iter) continue;
    std::string k = i.str("kind");
    if (k == "eio") { f.eio_at = i.num("at"); f.eio_once = i.num("once"); }
    else if (k == "chunk") f.chunk = std::max(1l, i.num("n", 1));
    else if (k == "openfail") { f.open_fail_n = i.num("n"); f.open_errno = (int)i.num("errno", ENOENT); }
    else if (k == "seekfail") f.seek_fail_n = i.num("n");
    else if (k == "wfail") { f.wfail_at = i.num("at"); f.wfail_errno = (int)i.num("errno", ENOSPC); f.wfail_once = i.num("once"); }
    else if (k == "closefail") f.close_fail = true;
    else if (k == "lateloss") f.late_loss_at = i.num("at");
    else if (k == "alloc") { f.alloc_fail_n = i.num("n"); f.alloc_persist = i.num("persist"); f.alloc_min = i.num("min"); }
    else if (k == "crash" && g_run->m->asis_crash) { f.crash_io = i.num("io"); f.crash_part = i.num("part"); }
    else if (k == "cancel" && cb && !g_run->m->clean_cb) { cb->cancel_at = i.num("at"); cb->latch = i.str("mode", "latch") == "latch"; }
  }
  return f;
}

static void begin(Sess &s, const Item &op, Cb &cb, uint64_t limit) {
  cb.op = (int)op.num("id");
  begin_op(s.ctx, cb.op, faults_for(op, &cb), limit);
  t_cb = &cb;
}
static void finish(Cb &cb) {
  cb.done = true;
  t_ctx->peek_next = ~0ull;
  t_ctx->f = OpFaults();
}
static std::string msgs_kv(const Cb &cb) {
  return strf("nf=%d nw=%d bad=%d peeks=%ld na=%ld msgs=%s", cb.nf, cb.nw, cb.bad, cb.peeks, t_ctx->n_alloc, cb.msgs.empty() ? "-" : cb.msgs.c_str());
}
static void skip(const Item &op, const char *why) { hist("OP op=%ld it=%d kind=%s st=skip why=%s res=skip:%s", op.num("id"), g_run->iter, op.str("kind").c_str(), why, why); }

static uint64_t watch_fit(Cb *c) {
  uint64_t h = hash_fit((const at_fitting_opts_type *)c->w1);
  if (const at_bitmap *b = (const at_bitmap *)c->w2) {
    // a large bitmap is looked at less often than the options
    long every = 1 + (long)((size_t)b->width * b->height * b->np / 4000);
    if (c->whole || c->peeks % every == 0) c->seen_bitmap = hash_bitmap(b);
    mix(h, c->seen_bitmap);
  }
  return h;
}
static uint64_t watch_in(Cb *c) { return hash_in((const at_input_opts_type *)c->w1); }
static uint64_t watch_out(Cb *c) {
  uint64_t h = hash_splines((const at_splines_type *)c->w1, true);
  if (c->w2) mix(h, ((const at_output_opts_type *)c->w2)->dpi);
  return h;
}

// ---------------------------------------------------------------- operations
static void op_read(Sess &s, const Item &op) {
  int fid = (int)op.num("file");
  int id = (int)op.num("id");
  Cb cb;
  std::string path, suffix, fmt;
  const Item *fi = g_run->p->find("file", "id", fid);
  Encoded *enc = nullptr;
  if (fi) {
    path = g_run->fname[fid];
    enc = &g_run->enc[fid];
    suffix = enc->suffix;
    fmt = fi->str("fmt");
  } else {
    path = op.str("path", "missing.bmp");
    size_t d = path.rfind('.');
    suffix = d == std::string::npos ? "" : path.substr(d + 1);
  }
  if (op.has("as")) suffix = op.str("as");
  at_bitmap_reader *rd;
  at_input_opts_type *o = nullptr;
  bool shared = op.has("shin") && g_run->shin.count((int)op.num("shin"));
  double declared = enc ? (double)enc->expect.w * enc->expect.h : 0;
  uint64_t limit = 3000000 + (uint64_t)(600 * ((fi ? (double)g_run->content[fid].size() : 0) + std::max(declared, 4e5)));
  begin_op(s.ctx, id, OpFaults(), 0);
  {
    LibScope l;
    std::vector<char> nm(suffix.begin(), suffix.end());
    nm.push_back(0);
    rd = at_input_get_handler_by_suffix(nm.data());
    if (shared) o = g_run->shin[(int)op.num("shin")];
    else if (!op.num("noopts")) o = at_input_opts_new();
  }
  if (!rd) { skip(op, "nohandler"); if (o && !shared) { LibScope l; at_input_opts_free(o); } return; }
  if (o && !shared) {
    if (enc && enc->charcode) o->charcode = enc->charcode;
    if (op.has("charcode")) o->charcode = (unsigned)op.num("charcode");
    color_opt(op, "bg", &o->background_color);
  }
  uint64_t h0 = hash_in(o);
  cb.w1 = o;
  cb.watch = o ? watch_in : nullptr;
  cb.watch_hash = h0;
  long streams0 = g_w.open_streams;
  begin(s, op, cb, limit);
  if (op.num("peek") && o) { s.ctx.peek = peek_fn; s.ctx.peek_arg = &cb; s.ctx.peek_every = op.num("peek"); s.ctx.peek_next = op.num("peek"); }
  at_bitmap *b;
  bool nomsg = op.num("nomsg");
  if (nomsg) g_sh->fired[F_NOMSG]++;
  {
    std::vector<char> nm(path.begin(), path.end());
    nm.push_back(0);
    LibScope l;
    b = at_bitmap_read(rd, nm.data(), o, nomsg ? nullptr : on_msg, nomsg ? nullptr : &cb.m);
  }
  uint64_t steps = s.ctx.op_steps;
  finish(cb);
  uint64_t h1 = hash_in(o);
  int match = -1;
  std::string shape = "null";
  uint64_t pxh = 0;
  bool bits = false;
  if (b) {
    bits = b->bitmap != nullptr;
    shape = strf("%ux%ux%u", b->width, b->height, b->np);
    if (bits) pxh = hash_bytes(b->bitmap, (size_t)b->width * b->height * b->np);  // every declared pixel is readable
    if (enc && bits) {
      const Image &x = enc->expect;
      match = b->width == x.w && b->height == x.h && (b->np == (unsigned)x.np || enc->np_any);
      if (match) {
        size_t n = (size_t)x.w * x.h;
        for (size_t i = 0; i < n && match; i++)
          for (int k = 0; k < x.np && match; k++) {
            int got = b->bitmap[i * b->np + (b->np == (unsigned)x.np ? k : 0)];
            if (abs(got - x.px[i * x.np + k]) > enc->tol) match = 0;
          }
      }
    } else if (enc) match = 0;
  }
  hist("OP op=%d it=%d kind=read st=%s shape=%s bits=%d px=%s match=%d %s opts=%d seen=%ld streams=%ld steps=%llu late=%ld fmt=%s flen=%zu fsame=%d res=%s:%d:%s:%s",
       id, g_run->iter, b ? "ok" : "null", shape.c_str(), bits, hex(pxh).c_str(), match, msgs_kv(cb).c_str(), h0 == h1, cb.seen_changed,
       g_w.open_streams - (g_run->m->concurrent ? 0 : streams0), (unsigned long long)steps, cb.late, fmt.empty() ? "-" : fmt.c_str(), fi ? g_run->content[fid].size() : (size_t)0, !fi || slurp(path) == g_run->content[fid], shape.c_str(), bits, hex(pxh).c_str(), cb.msgs.c_str());
  if (o && !shared) { LibScope l; at_input_opts_free(o); }
  t_cb = nullptr;
  if (b) s.bm[(int)op.num("out", id)] = b;
}

static at_bitmap *make_bitmap(const Item &img) {
  Image m = make_image(img);
  at_bitmap *b;
  { LibScope l; b = at_bitmap_new((unsigned short)m.w, (unsigned short)m.h, m.np); }
  memcpy(b->bitmap, m.px.data(), m.px.size());
  return b;
}
static void op_mkbmp(Sess &s, const Item &op) {
  const Item *img = g_run->p->find("img", "id", op.num("img"));
  if (!img) return skip(op, "noimg");
  begin_op(s.ctx, (int)op.num("id"), OpFaults(), 0);
  at_bitmap *b = make_bitmap(*img);
  s.bm[(int)op.num("out", op.num("id"))] = b;
  hist("OP op=%ld it=%d kind=mkbmp st=ok res=%s", op.num("id"), g_run->iter, hex(hash_bitmap(b)).c_str());
}

static void do_reenter(Cb *outer) {
  // a callback that itself uses the library, on objects of its own
  const Item *img = g_run->p->find("img", "id", outer->reenter->num("reimg"));
  if (!img) return;
  g_sh->fired[F_REENTER]++;
  ThreadCtx saved = *t_ctx;
  Cb inner;
  t_cb = &inner;
  t_ctx->f = OpFaults();
  t_ctx->peek_next = ~0ull;
  at_bitmap *b = make_bitmap(*img);
  {
    LibScope l;
    at_fitting_opts_type *o = at_fitting_opts_new();
    if (outer->reenter->num("recl")) o->centerline = true;
    if (outer->reenter->num("redl")) { o->despeckle_level = 3; }
    if (outer->reenter->num("recc")) { o->color_count = 4; }
    at_splines_type *sp = at_splines_new_full(b, o, on_msg, &inner.m, on_progress, &inner.p, on_cancel, &inner.c);
    hist("NESTED op=%d res=%s", outer->op, hex(hash_splines(sp, false)).c_str());
    if (sp) {
      char nm[] = "svg";
      at_spline_writer *w = at_output_get_handler_by_suffix(nm);
      if (w) {
        HarnessScope h;
        FILE *f = fopen("/dev/null", "wb");
        { LibScope l2; at_splines_write(w, f, (char *)"nested.svg", nullptr, sp, on_msg, &inner.m); }
        fclose(f);
      }
      at_splines_free(sp);
    }
    at_fitting_opts_free(o);
    at_bitmap_free(b);
  }
  ThreadCtx now = *t_ctx;
  *t_ctx = saved;
  (void)now;
  t_cb = outer;
}

static void op_trace(Sess &s, const Item &op) {
  int id = (int)op.num("id"), in = (int)op.num("in");
  auto bi = s.bm.find(in);
  if (bi == s.bm.end() || !bi->second) return skip(op, "nobitmap");
  at_bitmap *b = bi->second;
  if (!b->bitmap && !op.num("force")) return skip(op, "emptybitmap");
  if (op.has("maxpx") && (long)b->width * b->height > op.num("maxpx")) return skip(op, "large");
  bool clean = g_run->m->clean_cb;
  Cb cb;
  begin_op(s.ctx, id, OpFaults(), 0);
  at_fitting_opts_type *o;
  bool shared = op.has("shopts") && g_run->shfit.count((int)op.num("shopts"));
  if (shared) o = g_run->shfit[(int)op.num("shopts")];
  else {
    { LibScope l; o = at_fitting_opts_new(); }
    fill_fit(op, o);
  }
  bool mod = o->despeckle_level > 0 || o->color_count > 0 || o->centerline;
  at_bitmap *own = nullptr;
  if (op.num("copy")) {  // trace a copy, the original must stay
    LibScope l;
    own = at_bitmap_copy(b);
  }
  at_bitmap *work = own ? own : b;
  uint64_t b0 = hash_bitmap(work), orig0 = hash_bitmap(b);
  cb.w1 = o;
  cb.w2 = mod ? nullptr : work;
  cb.watch = watch_fit;
  uint64_t h0 = cb.watch_hash = watch_fit(&cb);
  cb.whole = false;
  uint64_t limit = op.has("limit") ? (uint64_t)op.num("limit") : 400000000ull;
  begin(s, op, cb, limit);
  if (!clean && op.has("reimg")) { cb.reenter = &op; cb.reenter_at = op.num("reat"); }
  cb.stall = !clean && op.num("stall");
  if (op.num("peek")) { s.ctx.peek = peek_fn; s.ctx.peek_arg = &cb; s.ctx.peek_every = op.num("peek"); s.ctx.peek_next = op.num("peek"); }
  bool nomsg = op.num("nomsg"), noprog = clean || op.num("noprog"), nocancel = clean || op.num("nocancel");
  if (nomsg) g_sh->fired[F_NOMSG]++;
  at_splines_type *sp;
  {
    LibScope l;
    if (noprog && nocancel && op.num("simple")) sp = at_splines_new(work, o, nomsg ? nullptr : on_msg, nomsg ? nullptr : &cb.m);
    else
      sp = at_splines_new_full(work, o, nomsg ? nullptr : on_msg, nomsg ? nullptr : &cb.m, noprog ? nullptr : on_progress, noprog ? nullptr : &cb.p,
                               nocancel ? nullptr : on_cancel, nocancel ? nullptr : &cb.c);
  }
  uint64_t steps = s.ctx.op_steps;
  finish(cb);
  cb.whole = true;
  uint64_t h1 = watch_fit(&cb);
  std::string shh = sp ? hex(hash_splines(sp, false)) : std::string("none");
  hist("OP op=%d it=%d kind=trace st=%s spl=%s n=%u w=%u h=%u bm=%s origsame=%d %s owned=%d seen=%ld prog=%ld plast=%.9g pdec=%d pbad=%d pones=%ld ph=%s polls=%ld cancelled=%d pafter=%ld prafter=%ld mafter=%ld "
       "stepcancel=%llu steps=%llu late=%ld mod=%d res=%s:%s:%s",
       id, g_run->iter, sp ? "ok" : "null", shh.c_str(), sp ? sp->length : 0, sp ? sp->width : 0, sp ? sp->height : 0, hex(hash_bitmap(work)).c_str(),
       hash_bitmap(b) == orig0 || !own, msgs_kv(cb).c_str(), h0 == h1 && (mod || hash_bitmap(work) == b0), cb.seen_changed, cb.np, cb.last, cb.dec, cb.badval, cb.ones, hex(cb.phash).c_str(), cb.polls,
       cb.cancelled, cb.polls_after, cb.prog_after, cb.msgs_after, (unsigned long long)cb.step_cancel, (unsigned long long)steps, cb.late, mod, shh.c_str(),
       cb.cancelled && !sp ? "-" : hex(hash_bitmap(work)).c_str(), cb.msgs.c_str());
  {
    LibScope l;
    if (!shared) at_fitting_opts_free(o);
    if (own) at_bitmap_free(own);
  }
  t_cb = nullptr;
  if (sp) s.sp[(int)op.num("out", id)] = sp;
}

static void op_open(Sess &s, const Item &op) {
  OutStream os;
  Cb cb;
  os.path = strf("o%ld.bin", op.num("id"));
  begin(s, op, cb, 0);
  os.f = sim_open(os.path.c_str(), op.str("mode", "wb").c_str(), true, &os.st);
  long pre = op.num("prefix");
  for (long i = 0; i < pre; i++) os.prefix += (char)(i * 7 + 3);
  if (pre) { fwrite(os.prefix.data(), 1, os.prefix.size(), os.f); if (op.num("flush")) fflush(os.f); }
  finish(cb);
  t_cb = nullptr;
  s.st[(int)op.num("stream")] = os;
  hist("OP op=%ld it=%d kind=open st=ok res=open", op.num("id"), g_run->iter);
}
static void op_close(Sess &s, const Item &op) {
  auto i = s.st.find((int)op.num("stream"));
  if (i == s.st.end() || !i->second.f) return skip(op, "nostream");
  OutStream os = i->second;
  i->second.f = nullptr;
  int r = 0;
  bool still = stream_open(os.f);
  if (still) r = (int)harness_fclose(os.f);
  std::string d = slurp(os.path);
  bool pre = d.compare(0, os.prefix.size(), os.prefix) == 0;
  std::string body = d.size() >= os.prefix.size() ? d.substr(os.prefix.size()) : "";
  hist("OP op=%ld it=%d kind=close st=ok ret=%d still=%d pre=%d len=%zu concat=%d doc=%s docs=%ld res=%s", op.num("id"), g_run->iter, r, still, pre, body.size(), !os.want_ok || body == os.want,
       hex(hash_str(body)).c_str(), os.docs, hex(hash_str(body)).c_str());
  s.st.erase(i);
}
// replace what follows "Date: " on its line (EPS, EPD and ER headers) by a fixed text
static std::string date_norm(std::string d, std::string *shown = nullptr) {
  size_t at = d.substr(0, 2000).find("Date: ");
  if (at == std::string::npos) return d;
  size_t e = d.find('\n', at);
  if (e == std::string::npos) e = d.size();
  if (shown) *shown = d.substr(at + 6, e - at - 6);
  return d.replace(at + 6, e - at - 6, "<DATE>");
}
// is the creation date one of the times the library was told during the call?
static const char *date_truth(const std::string &shown) {
  if (shown.empty()) return "none";
  auto dz = g_w.env.find("AT_DATE_ZERO");
  if (dz != g_w.env.end() && dz->second == "yes") return shown.substr(0, 24) == "Thu Jan  1 00:00:00 1970" && shown.size() == 24 ? "fixed" : "wrong";
  for (int i = 0; i < g_w.told && i < 16; i++) {
    time_t t = g_w.told_at[i];
    char buf[64];
    struct tm tm;
    if (!localtime_r(&t, &tm) || tm.tm_year + 1900 > 9999 || !asctime_r(&tm, buf)) return "unknown";
    if (shown == std::string(buf).substr(0, 24)) return "now";
  }
  return "wrong";
}
// suffixes are found in any letter case
static std::string upper_if(const Item &op, std::string s) {
  if (op.num("oup")) for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32;
  return s;
}
// the name of an output: `olen' more characters than usual, `odots' times "./" before it
static std::string out_name(const Item &op, char kind) {
  static const char fill[] = "-a (b) %s & <c> 'd' \"e\" \\n {f} [g] # \xc3\xa9 ";
  std::string n;
  for (long i = 0; i < op.num("odots"); i++) n += "./";
  n += strf("%c%ld", kind, op.num("nameof", op.num("id")));
  for (long i = 0; i < op.num("olen"); i++) n += fill[i % (sizeof fill - 1)];
  return n + "." + upper_if(op, op.str("fmt", "svg"));
}
static void op_write(Sess &s, const Item &op) {
  int id = (int)op.num("id"), in = (int)op.num("in");
  auto si = s.sp.find(in);
  if (si == s.sp.end() || !si->second) return skip(op, "nosplines");
  at_splines_type *sp = si->second;
  std::string fmt = op.str("fmt", "svg");
  Cb cb;
  begin_op(s.ctx, id, OpFaults(), 0);
  at_spline_writer *w;
  at_output_opts_type *o = nullptr;
  bool shared = op.has("shout") && g_run->shout.count((int)op.num("shout"));
  {
    LibScope l;
    std::string suf = upper_if(op, fmt);
    std::vector<char> nm(suf.begin(), suf.end());
    nm.push_back(0);
    w = at_output_get_handler_by_suffix(nm.data());
    if (shared) o = g_run->shout[(int)op.num("shout")];
    else if (op.has("dpi")) { o = at_output_opts_new(); o->dpi = (int)op.num("dpi"); }
  }
  if (!w) { skip(op, "nohandler"); if (o && !shared) { LibScope l; at_output_opts_free(o); } return; }
  begin(s, op, cb, 400000000ull);
  OpFaults flt = s.ctx.f;
  // destination
  OutStream own, *os = nullptr;
  if (op.has("stream")) {
    auto i = s.st.find((int)op.num("stream"));
    if (i == s.st.end() || !i->second.f) { skip(op, "nostream"); if (o && !shared) { LibScope l; at_output_opts_free(o); } finish(cb); t_cb = nullptr; return; }
    os = &i->second;
  } else {
    own.path = strf("o%d.%s", id, fmt.c_str());
    long pre = op.num("prefix");
    for (long i = 0; i < pre; i++) own.prefix += (char)(i * 7 + 3);
    // the stream is the caller's: allocation faults concern the library only
    own.f = sim_open(own.path.c_str(), op.str("mode", "wb").c_str(), true, &own.st);
    if (!own.f) { skip(op, "openfailed"); finish(cb); t_cb = nullptr; return; }
    if (pre) { fwrite(own.prefix.data(), 1, own.prefix.size(), own.f); if (op.num("flush")) fflush(own.f); }
    os = &own;
  }
  FILE *f = os->f;
  int err0 = ferror(f) != 0;  // failed before the writer got it
  long p0 = os->st->seekable ? ftell(f) : -1;
  cb.w1 = sp;
  cb.w2 = o;
  cb.watch = watch_out;
  uint64_t h0 = cb.watch_hash = watch_out(&cb);
  if (op.num("peek")) { s.ctx.peek = peek_fn; s.ctx.peek_arg = &cb; s.ctx.peek_every = op.num("peek"); s.ctx.peek_next = op.num("peek"); }
  bool nomsg = op.num("nomsg");
  if (nomsg) g_sh->fired[F_NOMSG]++;
  std::string name = op.has("name") ? op.str("name") : out_name(op, op.str("nameas", "o")[0]);
  {
    std::vector<char> nm(name.begin(), name.end());
    nm.push_back(0);
    LibScope l;
    at_splines_write(w, f, op.num("noname") ? nullptr : nm.data(), o, sp, nomsg ? nullptr : on_msg, nomsg ? nullptr : &cb.m);
  }
  (void)flt;
  uint64_t steps = s.ctx.op_steps;
  s.ctx.peek_next = ~0ull;
  cb.done = true;
  uint64_t h1 = watch_out(&cb);
  bool still = stream_open(f);
  int err = 0, cret = 0;
  long p1 = -1;
  if (still) {
    err = ferror(f) != 0;
    p1 = os->st->seekable ? ftell(f) : -1;
  }
  os->docs++;
  if (op.has("stream")) { auto d = s.docs.find((int)op.num("ref", -1)); if (d == s.docs.end()) os->want_ok = false; else os->want += d->second; }
  bool sinkfail = false, closefail = false;
  std::string doc;
  bool pre = true;
  if (os == &own) {
    SinkState *st = own.st;
    if (still) cret = (int)harness_fclose(f);
    sinkfail = st->failed;
    closefail = st->failed_close;
    std::string d = slurp(own.path);
    pre = d.compare(0, own.prefix.size(), own.prefix) == 0;
    doc = d.size() >= own.prefix.size() ? d.substr(own.prefix.size()) : "";
  }
  finish(cb);
  if (!op.has("stream")) s.docs[id] = doc;
  std::string shown, nd = date_norm(doc, &shown);
  hist("OP op=%d it=%d kind=write st=ok date=%s nres=%zu:%s:%d:%s fmt=%s len=%zu doc=%s ndoc=%s pre=%d ferror=%d err0=%d cret=%d still=%d p0=%ld p1=%ld sinkfail=%d closefail=%d %s owned=%d seen=%ld steps=%llu late=%ld res=%zu:%s:%d:%s", id, g_run->iter, date_truth(shown), nd.size(), hex(hash_str(nd)).c_str(), err, cb.msgs.c_str(),
       fmt.c_str(), doc.size(), hex(hash_str(doc)).c_str(), hex(hash_str(nd)).c_str(), pre, err, err0, cret, still, p0, p1, sinkfail, closefail, msgs_kv(cb).c_str(),
       h0 == h1, cb.seen_changed, (unsigned long long)steps, cb.late, doc.size(), hex(hash_str(doc)).c_str(), err, cb.msgs.c_str());
  if (o && !shared) { LibScope l; at_output_opts_free(o); }
  t_cb = nullptr;
}

static void op_free(Sess &s, const Item &op) {
  LibScope l;
  if (op.has("b")) {
    auto i = s.bm.find((int)op.num("b"));
    if (i != s.bm.end()) { if (i->second) at_bitmap_free(i->second); s.bm.erase(i); }
  }
  if (op.has("sp")) {
    auto i = s.sp.find((int)op.num("sp"));
    if (i != s.sp.end()) { if (i->second) at_splines_free(i->second); s.sp.erase(i); }
  }
}

static void op_misc(Sess &s, const Item &op) {
  begin_op(s.ctx, (int)op.num("id"), OpFaults(), 0);
  uint64_t h = 9;
  std::string what = op.str("what", "names");
  if (what == "names") {
    static const char *names[] = {"a.bmp", "A.PNG", "noext", "", "x.", ".", "dir.d/noext", "x.xyz", "x.svg", "y.EPS", "z.p2e", "a.b.tga"};
    for (auto *n : names) {
      std::vector<char> v(n, n + strlen(n) + 1);
      LibScope l;
      bool a = at_input_get_handler(v.data()) != nullptr, b = at_output_get_handler(v.data()) != nullptr;
      mix(h, a); mix(h, b);
    }
  } else if (what == "opts") {
    LibScope l;
    at_fitting_opts_type *o = at_fitting_opts_new();
    { HarnessScope hs; fill_fit(op, o); }
    at_fitting_opts_type *c = at_fitting_opts_copy(o);
    at_fitting_opts_free(o);
    h = hash_fit(c) ^ 0;
    h = hash_color(c->background_color, 1);
    at_fitting_opts_free(c);
    at_input_opts_type *i1 = at_input_opts_new();
    { HarnessScope hs; color_opt(op, "bg", &i1->background_color); }
    at_input_opts_type *i2 = at_input_opts_copy(i1);
    at_input_opts_free(i1);
    h = hash_color(i2->background_color, h);
    at_input_opts_free(i2);
    at_output_opts_type *o1 = at_output_opts_new(), *o2 = at_output_opts_copy(o1);
    mix(h, o2->dpi);
    at_output_opts_free(o1);
    at_output_opts_free(o2);
  }
  hist("OP op=%ld it=%d kind=misc st=ok res=%s", op.num("id"), g_run->iter, hex(h).c_str());
}

// -------- format registry; the model is kept here and every answer is compared with it
struct RegModel {
  struct Entry { void *handler = nullptr; void *func = nullptr; std::string desc; bool builtin = false, unsure = false; };
  std::map<std::string, Entry> t[2];  // readers, writers
  bool init = false, listed[2] = {false, false};
};
static RegModel g_reg;
struct RegCall { int n = 0, fn = -1; std::string name; void *opts = nullptr, *data = nullptr; void *msg = nullptr, *msgdata = nullptr; int box[4] = {0, 0, 0, 0}; unsigned len = 0; };
static RegCall g_rc;
template <int K> static at_bitmap reg_reader(char *name, at_input_opts_type *o, at_msg_func m, void *md, void *) {
  { HarnessScope h; g_rc.n++; g_rc.fn = K; g_rc.name = name; g_rc.opts = o; g_rc.msg = (void *)m; g_rc.msgdata = md; }
  at_bitmap b = at_bitmap_init(nullptr, 3, 2, 1);
  for (int i = 0; i < 6; i++) AT_BITMAP_BITS(&b)[i] = (unsigned char)(K * 10 + i);
  return b;
}
template <int K> static int reg_writer(FILE *f, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *o, at_splines_type sh, at_msg_func m, void *md, void *) {
  { HarnessScope h; g_rc.n++; g_rc.fn = K; g_rc.name = name; g_rc.opts = o; g_rc.msg = (void *)m; g_rc.msgdata = md; g_rc.box[0] = llx; g_rc.box[1] = lly; g_rc.box[2] = urx; g_rc.box[3] = ury; g_rc.len = sh.length; }
  fprintf(f, "written by %d\n", K);
  return 0;
}
static at_input_func reg_readers[] = {reg_reader<0>, reg_reader<1>, reg_reader<2>, reg_reader<3>};
static at_output_func reg_writers[] = {reg_writer<0>, reg_writer<1>, reg_writer<2>, reg_writer<3>};
static void *reg_func(int side, void *h) { return side ? *(void **)&((at_spline_writer *)h)->func : *(void **)&((at_bitmap_reader *)h)->func; }
static void reg_msg(const char *, at_msg_type, void *) {}
static const char *reg_builtin[2][20] = {{"png", "tga", "bmp", "pbm", "pnm", "pgm", "ppm", "gf"}, {"eps", "ai", "p2e", "sk", "svg", "ugs", "fig", "emf", "mif", "er", "dxf", "epd", "pdf", "cgm", "dr2d", "pov", "plt", "ild"}};
static void op_reg(Sess &s, const Item &op) {
  int id = (int)op.num("id"), side = (int)op.num("side") & 1, fn = (int)op.num("fn") & 3;
  std::string what = op.str("what"), name = op.str("name"), low = name, bad, st = "ok";
  if (name == "empty") name = low = "";
  for (auto &c : low) if (c >= 'A' && c <= 'Z') c += 32;
  auto &tab = g_reg.t[side];
  Cb cb;
  auto lookup = [&](const std::string &n, bool file) -> void * {
    std::vector<char> v(n.begin(), n.end());
    v.push_back(0);
    LibScope l;
    if (side) return file ? at_output_get_handler(v.data()) : at_output_get_handler_by_suffix(v.data());
    return file ? at_input_get_handler(v.data()) : at_input_get_handler_by_suffix(v.data());
  };
  // the model's answer for a lower-case suffix, checked against the handler given
  auto judge = [&](const std::string &n, void *h) {
    auto e = tab.find(n);
    if (e == tab.end()) { if (h) bad = "found-unregistered"; return; }
    if (e->second.unsure) {
      if (!h) { tab.erase(e); return; }
      e->second.unsure = false;
    }
    if (!h) { bad = "registered-not-found"; return; }
    if (e->second.handler && e->second.handler != h) { bad = "handler-moved"; return; }
    e->second.handler = h;
    void *f = reg_func(side, h);
    if (!e->second.func) e->second.func = f;
    else if (e->second.func != f) bad = "other-function";
  };
  begin(s, op, cb, 50000000ull);
  if (what == "locale") {  // the host program changes its locale
    if (setlocale(LC_ALL, op.str("name").c_str())) { g_w.locale = op.str("name"); g_sh->fired[F_LOCALE]++; }
  } else if (what == "init") {
    { LibScope l; autotrace_init(); }
    if (!g_reg.init)
      for (int k = 0; k < 2; k++)
        for (const char *n : reg_builtin[k]) if (n && !g_reg.t[k].count(n)) { g_reg.t[k][n].builtin = true; }
    g_reg.init = true;
  } else if (what == "add") {
    std::string desc = strf("made by %d", fn);
    bool known = tab.count(low) > 0;
    int rc = -1;
    try {
      LibScope l;
      rc = side ? at_output_add_handler(name.c_str(), desc.c_str(), reg_writers[fn]) : op.num("full") ? at_input_add_handler_full(name.c_str(), desc.c_str(), reg_readers[fn]) : at_input_add_handler(name.c_str(), desc.c_str(), reg_readers[fn]);
    } catch (...) {
      st = "throw";
    }
    bool af = t_ctx->f.alloc_fail_n >= 0;
    if (st == "throw" && !af) bad = "throw";
    if (!known) {
      RegModel::Entry e;
      e.func = side ? *(void **)&reg_writers[fn] : *(void **)&reg_readers[fn];
      e.desc = desc;
      e.unsure = st == "throw" || (af && rc != 1);
      tab[low] = e;
      t_ctx->f = OpFaults();
      if (e.unsure) judge(low, lookup(low, false));  // a failed registration: all or nothing
    }
  } else if (what == "find") {
    bool file = op.num("file") != 0;
    judge(low, lookup(file ? op.str("dir", "") + "a." + name : name, file));
    if (low.empty() && tab.count("")) bad = "";  // an empty suffix names no format
  } else if (what == "all") {
    std::vector<std::string> names;
    for (auto &e : tab) names.push_back(e.first);
    for (auto &n : names) if (bad.empty() && !n.empty()) { judge(n, lookup(n, false)); if (!bad.empty()) bad += ":" + n; }
  } else if (what == "list") {
    std::vector<std::string> names;
    for (auto &e : tab) names.push_back(e.first);
    for (auto &n : names) if (bad.empty() && !n.empty()) judge(n, lookup(n, false));
    FILE *f = fopen("list.txt", "w");
    { LibScope l; side ? printOutputFormatInfo(f) : printInputFormatInfo(f); }
    fclose(f);
    std::map<std::string, std::string> got;
    std::string txt = slurp("list.txt"), line;
    for (char c : txt) {
      if (c != '\n') { line += c; continue; }
      size_t a = line.find_first_not_of(' '), b = line.find(' ', a);
      if (a == std::string::npos) { if (bad.empty()) bad = "blank-line"; line.clear(); continue; }
      std::string n = line.substr(a, b == std::string::npos ? b : b - a);
      if (!got.insert({n, b == std::string::npos ? "" : line.substr(b + 1)}).second && bad.empty()) bad = "listed-twice:" + n;
      line.clear();
    }
    for (auto &e : tab) {
      if (!bad.empty() || e.first.empty()) continue;
      if (!got.count(e.first)) bad = "not-listed:" + e.first;
      else if (!e.second.builtin && got[e.first] != e.second.desc) bad = "wrong-description:" + e.first;
    }
    // formats this model does not know may be built in: they count from the first listing on
    for (auto &g : got) if (!g_reg.listed[side] && g_reg.init && !tab.count(g.first)) tab[g.first].builtin = true;
    g_reg.listed[side] = g_reg.init;
    for (auto &g : got) if (bad.empty() && !tab.count(g.first)) bad = "listed-unregistered:" + g.first;
  } else if (what == "use") {
    void *h = low.empty() ? nullptr : lookup(name, false);
    if (!low.empty()) judge(low, h);
    auto e = tab.find(low);
    if (e == tab.end() || e->second.builtin || !h) st = "none";
    else {
      int want = atoi(e->second.desc.c_str() + 8);
      g_rc = RegCall();
      std::string fname = "file." + name;
      std::vector<char> v(fname.begin(), fname.end());
      v.push_back(0);
      int md = 0;
      if (!side) {
        at_input_opts_type *o = nullptr;
        { LibScope l; if (!op.num("noopts")) o = at_input_opts_new(); }
        at_bitmap *b;
        { LibScope l; b = at_bitmap_read((at_bitmap_reader *)h, v.data(), o, reg_msg, &md); }
        bool ok = b && AT_BITMAP_WIDTH(b) == 3 && AT_BITMAP_HEIGHT(b) == 2 && AT_BITMAP_PLANES(b) == 1;
        for (int i = 0; ok && i < 6; i++) ok = AT_BITMAP_BITS(b)[i] == want * 10 + i;
        if (!ok && bad.empty()) bad = "bitmap-of-reader-changed";
        if (bad.empty() && (o ? g_rc.opts != o : !g_rc.opts)) bad = "options-not-passed";
        LibScope l;
        at_bitmap_free(b);
        if (o) at_input_opts_free(o);
      } else {
        auto sp = s.sp.find((int)op.num("in"));
        if (sp == s.sp.end() || !sp->second) { st = "none"; }
        else {
          at_output_opts_type *o = nullptr;
          { LibScope l; if (!op.num("noopts")) o = at_output_opts_new(); }
          FILE *f = fopen("used.txt", "w");
          { LibScope l; at_splines_write((at_spline_writer *)h, f, v.data(), o, sp->second, reg_msg, &md); }
          fclose(f);
          if (slurp("used.txt") != strf("written by %d\n", want) && bad.empty()) bad = "output-of-writer-changed";
          if (bad.empty() && (o ? g_rc.opts != o : !g_rc.opts)) bad = "options-not-passed";
          if (bad.empty() && (g_rc.box[0] || g_rc.box[1] || g_rc.box[2] != sp->second->width || g_rc.box[3] != sp->second->height || g_rc.len != sp->second->length)) bad = "drawing-not-passed";
          if (o) { LibScope l; at_output_opts_free(o); }
        }
      }
      if (st == "ok" && bad.empty()) {
        if (g_rc.n != 1) bad = strf("called-%d-times", g_rc.n);
        else if (g_rc.fn != want) bad = "other-function-called";
        else if (g_rc.name != fname) bad = "name-not-passed";
        else if (g_rc.msg != (void *)reg_msg || g_rc.msgdata != &md) bad = "message-callback-not-passed";
      }
    }
  }
  finish(cb);
  hist("OP op=%d it=%d kind=reg what=%s st=%s bad=%s na=%ld res=%s", id, g_run->iter, what.c_str(), st.c_str(), bad.empty() ? "-" : bad.c_str(), s.ctx.n_alloc, bad.c_str());
  t_cb = nullptr;
}

// -------- C++ interface
static FittingOptions wrap_fit(const Item &op) {
  FittingOptionsBuilder b = FittingOptionsBuilder::builder();
  unsigned v = (unsigned)strtoul(op.str("bg", "000000").c_str(), nullptr, 16);
  if (op.has("bg") && op.str("bg") != "none") { _at_color c; c.r = (v >> 16) & 255; c.g = (v >> 8) & 255; c.b = v & 255; b.setBackgroudColor(c); }
  if (op.has("cc")) b.setColorCount((unsigned)op.num("cc"));
  if (op.has("et")) b.setErrorThreshold((float)op.dbl("et", 2));
  if (op.has("fi")) b.setFilterIterations((unsigned)op.num("fi"));
  if (op.has("dl")) b.setDespeckleLevel((unsigned)op.num("dl"));
  if (op.num("cl")) b.setCenterline(true);
  if (op.num("pw")) b.setPreserveWidth(true);
  if (op.has("cat")) b.setCornerAlwaysThreshold((float)op.dbl("cat", 60));
  if (op.has("cs")) b.setCornerSurround((unsigned)op.num("cs"));
  if (op.has("ct")) b.setCornerThreshold((float)op.dbl("ct", 100));
  if (op.has("lrt")) b.setLineReversionThreshold((float)op.dbl("lrt", .01));
  if (op.has("lt")) b.setLineThreshold((float)op.dbl("lt", 1));
  if (op.num("rac")) b.setRemoveAdjacentCorners(true);
  if (op.has("ts")) b.setTangentSurround((unsigned)op.num("ts"));
  if (op.has("dt")) b.setDespeckleTightness((float)op.dbl("dt", 2));
  if (op.has("nr")) b.setNoiseRemoval((float)op.dbl("nr", .99));
  if (op.has("wwf")) b.setWidthWeightFactor((float)op.dbl("wwf", 6));
  return b.build();
}
static void op_wrap(Sess &s, const Item &op) {
  int id = (int)op.num("id"), fid = (int)op.num("file");
  Cb cb;
  std::string in = g_run->p->find("file", "id", fid) ? g_run->fname[fid] : op.str("path", "missing.bmp");
  std::string out = op.has("outname") ? op.str("outname") : out_name(op, 'w');
  std::string status = "?", err;
  long streams0 = g_w.open_streams;
  int optsame = 1;
  std::string st2 = "-", doc2, doc;
  {
    FittingOptions fo = wrap_fit(op);
    InputOptions io;
    { LibScope l; InputOptionsBuilder ib = InputOptionsBuilder::builder();
      if (op.has("ibg")) { unsigned v = (unsigned)strtoul(op.str("ibg").c_str(), nullptr, 16); _at_color c; c.r = (v >> 16) & 255; c.g = (v >> 8) & 255; c.b = v & 255; ib.setBackgroudColor(c); }
      const Encoded *e = g_run->enc.count(fid) ? &g_run->enc[fid] : nullptr;
      if (e && e->charcode) ib.setCharCode((unsigned)e->charcode);
      InputOptions tmp = ib.build();
      io.charcode = tmp.charcode;
      *io.background_color = *tmp.background_color; }
    OutputOptions oo = OutputOptionsBuilder::builder().build();
    if (op.has("dpi")) oo.dpi = (int)op.num("dpi");
    uint64_t hf = hash_fit(&fo), hi = hash_in(&io);
    std::unique_ptr<Autotrace> at;
    begin(s, op, cb, 400000000ull);
    try {
      LibScope l;
      struct Place { void operator()(Options *o) const { o->~Options(); memset((void *)o, 0xC3, sizeof *o); free(o); } };
      void *room = malloc(sizeof(Options));
      if (!room) throw std::bad_alloc();
      std::unique_ptr<Options, Place> opt(new (room) Options(fo, io, oo));
      at.reset(new Autotrace(in, out, *opt));
      uint64_t ho = hash_fit(&opt->fittingOptions), hoi = hash_in(&opt->inputOptions);
      if (op.num("tmpopts")) opt.reset();  // the object keeps its own copy
      auto r = at->produceOutput();
      status = r.has_value() ? "success" : "error";
      if (!r.has_value()) { HarnessScope h; err = r.error(); }
      if (opt && (hash_fit(&opt->fittingOptions) != ho || hash_in(&opt->inputOptions) != hoi)) optsame = 0;
    } catch (const std::bad_alloc &) {
      status = "throw-bad_alloc";
    } catch (...) {
      status = "throw";
    }
    if (hash_fit(&fo) != hf || hash_in(&io) != hi) optsame = 0;
    finish(cb);
    doc = slurp(out);
    if (op.num("twice") && at) {  // the same object again, now without faults
      begin_op(s.ctx, id, OpFaults(), 400000000ull);
      try {
        LibScope l;
        auto r = at->produceOutput();
        st2 = r.has_value() ? "success" : "error";
        if (!r.has_value() && r.error().empty()) st2 = "empty-error";
      } catch (...) {
        st2 = "throw";
      }
      if (hash_fit(&fo) != hf || hash_in(&io) != hi) optsame = 0;
      doc2 = slurp(out);
    }
    LibScope l;
    at.reset();
  }
  struct stat sb;
  bool exists = stat(out.c_str(), &sb) == 0;
  std::string shown, nd = date_norm(doc, &shown);
  hist("OP op=%d it=%d kind=wrap date=%s nres=%s:%zu:%s st=%s err=%s errlen=%zu exists=%d len=%zu doc=%s ndoc=%s st2=%s doc2=%s opts=%d streams=%ld insame=%d na=%ld flen=%zu res=%s:%zu:%s", id, g_run->iter, date_truth(shown), status.c_str(), nd.size(), hex(hash_str(nd)).c_str(), status.c_str(), token(err).c_str(), err.size(), exists,
       doc.size(), hex(hash_str(doc)).c_str(), hex(hash_str(nd)).c_str(), st2.c_str(), hex(hash_str(doc2)).c_str(), optsame, g_w.open_streams - streams0, !g_run->content.count(fid) || slurp(in) == g_run->content[fid], s.ctx.n_alloc, g_run->content.count(fid) ? g_run->content[fid].size() : (size_t)0, status.c_str(), doc.size(), hex(hash_str(doc)).c_str());
  t_cb = nullptr;
}

// -------- buffer interface (fixed file names Test.png and test.svg in the current directory)
bool buffer_run(const void *p, size_t n, const std::string &fit, const std::string &in, const std::string &out, std::string &error);
bool buffer_size(unsigned long long &value, std::string &error);
bool buffer_get(void *p, size_t n, std::string &error);
static void op_brun(Sess &s, const Item &op) {
  int id = (int)op.num("id"), fid = (int)op.num("file");
  if (!g_run->content.count(fid)) return skip(op, "nofile");
  // the caller may use one buffer, of one size, for picture after picture (readers ignore what follows the image)
  static std::vector<char> room(1 << 16);
  std::string own = g_run->content[fid];
  if (op.num("pad") && own.size() < room.size()) own.resize(std::max<size_t>(own.size(), (size_t)op.num("pad")));
  bool reuse = op.num("pad") && own.size() <= room.size();
  if (reuse) memcpy(room.data(), own.data(), own.size());
  const char *data = reuse ? room.data() : own.data();
  std::string fit = "{", in = "{}", out = "{}", err, status;
  auto put = [&](const char *k, const char *name, const char *suffix = "") { if (op.has(k)) fit += std::string(fit.size() > 1 ? "," : "") + "\"" + name + "\":" + (*suffix ? suffix : op.str(k).c_str()); };
  auto colour = [&](const char *k) { unsigned c = (unsigned)strtoul(op.str(k).c_str(), nullptr, 16); return strf("{\"red\":%u,\"green\":%u,\"blue\":%u}", c >> 16 & 255, c >> 8 & 255, c & 255); };
  put("cc", "color_count"); put("et", "error_threshold"); put("fi", "filter_iterations"); put("dl", "despeckle_level"); put("cs", "corner_surround");
  put("cl", "centerline", "true"); put("pw", "preserve_width", "true"); put("lt", "line_threshold"); put("cat", "corner_always_threshold"); put("ct", "corner_threshold");
  put("lrt", "line_reversion_threshold"); put("rac", "remove_adjacent_corners", "true"); put("ts", "tangent_surround"); put("dt", "despeckle_tightness"); put("nr", "noise_removal"); put("wwf", "width_weight_factor");
  if (op.has("bg")) put("bg", "background_color", colour("bg").c_str());
  fit += "}";
  if (op.has("ibg")) in = "{\"background_color\":" + colour("ibg") + "}";
  if (op.has("dpi")) out = "{\"dpi\":" + op.str("dpi") + "}";
  if (op.num("badjson")) { std::string &bad = op.num("badjson") % 3 == 0 ? fit : op.num("badjson") % 3 == 1 ? in : out; bad = op.num("badjson") > 3 ? "[1]" : "{\"a\":"; }
  long streams0 = g_w.open_streams;
  Cb cb;
  begin(s, op, cb, 400000000ull);
  try {
    LibScope l;
    std::string e;
    status = buffer_run(data, own.size(), fit, in, out, e) ? "success" : "error";
    HarnessScope h;
    err = e;
  } catch (const std::bad_alloc &) {
    status = "throw-bad_alloc";
  } catch (...) {
    status = "throw";
  }
  finish(cb);
  std::string doc = slurp("test.svg");
  hist("OP op=%d it=%d kind=brun st=%s err=%s errlen=%zu len=%zu doc=%s streams=%ld same=%d na=%ld flen=%zu res=%s:%zu:%s", id, g_run->iter, status.c_str(), token(err).c_str(), err.size(), doc.size(), hex(hash_str(doc)).c_str(),
       g_w.open_streams - streams0, !memcmp(data, own.data(), own.size()) && own.compare(0, g_run->content[fid].size(), g_run->content[fid]) == 0, s.ctx.n_alloc, own.size(), status.c_str(), doc.size(), hex(hash_str(doc)).c_str());
  t_cb = nullptr;
}
int autotrace_buffer_program_main();
static void op_bmain(Sess &s, const Item &op) {
  int id = (int)op.num("id"), fid = (int)op.num("file");
  if (!g_run->content.count(fid)) return skip(op, "nofile");
  spill("Test.png", g_run->content[fid]);
  long streams0 = g_w.open_streams;
  std::string status;
  Cb cb;
  begin(s, op, cb, 400000000ull);
  try {
    LibScope l;
    status = autotrace_buffer_program_main() ? "error" : "success";
  } catch (...) {
    status = "throw";
  }
  finish(cb);
  std::string doc = slurp("test.svg");
  hist("OP op=%d it=%d kind=bmain st=%s errlen=1 len=%zu doc=%s streams=%ld same=1 na=%ld flen=%zu res=%s:%zu:%s", id, g_run->iter, status.c_str(), doc.size(), hex(hash_str(doc)).c_str(),
       g_w.open_streams - streams0, s.ctx.n_alloc, g_run->content[fid].size(), status.c_str(), doc.size(), hex(hash_str(doc)).c_str());
  t_cb = nullptr;
}
static void op_bget(Sess &s, const Item &op) {
  int id = (int)op.num("id");
  if (op.num("remove")) unlink("test.svg");
  struct stat sb;
  bool exists = stat("test.svg", &sb) == 0;
  std::string doc = slurp("test.svg"), status, gstatus, err, gerr;
  unsigned long long value = 0;
  long n = std::max(0l, (long)doc.size() + op.num("slack"));
  std::vector<unsigned char> buf((size_t)n + 64, 0xC3);
  long streams0 = g_w.open_streams;
  Cb cb;
  begin(s, op, cb, 50000000ull);
  try {
    if (!op.num("nosize")) {
      LibScope l;
      std::string e;
      status = buffer_size(value, e) ? "success" : "error";
      HarnessScope h;
      err = e;
    }
    {
      LibScope l;
      std::string e;
      gstatus = buffer_get(buf.data(), (size_t)n, e) ? "success" : "error";
      HarnessScope h;
      gerr = e;
    }
  } catch (...) {
    (gstatus.empty() && status.empty() ? status : gstatus) = "throw";
  }
  finish(cb);
  bool guard = true, match = (size_t)n >= doc.size() && memcmp(buf.data(), doc.data(), doc.size()) == 0;
  for (size_t i = n; i < buf.size(); i++) guard = guard && buf[i] == 0xC3;
  hist("OP op=%d it=%d kind=bget st=%s get=%s value=%llu flen=%zu len=%zu buf=%ld exists=%d match=%d guard=%d errlen=%zu gerrlen=%zu streams=%ld res=%s:%s:%d", id, g_run->iter, status.empty() ? "-" : status.c_str(), gstatus.empty() ? "-" : gstatus.c_str(), value, doc.size(), doc.size(), n,
       exists, match, guard, err.size(), gerr.size(), g_w.open_streams - streams0, status.c_str(), gstatus.c_str(), match);
  t_cb = nullptr;
}

// -------- command line tool
static std::vector<std::string> cli_args(const Item &op, const std::string &in, const std::string &out, const std::string &suffix, int charcode) {
  std::vector<std::string> a = {"autotrace"};
  if (charcode) { if (op.num("eqform")) a.push_back(strf("-charcode=%d", charcode)); else { a.push_back("-charcode"); a.push_back(strf(op.num("id") & 1 ? "0x%x" : "%d", charcode)); } }
  if (op.str("ifmt") == "@own") { a.push_back("-input-format"); a.push_back(suffix); }
  auto flag = [&](const char *k, const char *o) { if (op.num(k)) a.push_back(o); };
  auto val = [&](const char *k, const char *o) { if (op.has(k) && op.str(k) != "none") { if (op.num("eqform")) a.push_back(std::string(o) + "=" + op.str(k)); else { a.push_back(o); a.push_back(op.str(k)); } } };
  val("bg", "-background-color"); val("cc", "-color-count"); val("cat", "-corner-always-threshold"); val("cs", "-corner-surround");
  val("ct", "-corner-threshold"); val("et", "-error-threshold"); val("fi", "-filter-iterations"); val("lrt", "-line-reversion-threshold");
  val("lt", "-line-threshold"); flag("rac", "-remove-adjacent-corners"); flag("rk", "-remove-knees"); val("ts", "-tangent-surround");
  val("dl", "-despeckle-level"); val("dt", "-despeckle-tightness"); val("nr", "-noise-removal"); flag("cl", "-centerline");
  flag("pw", "-preserve-width"); val("wwf", "-width-weight-factor"); val("dpi", "-dpi");
  flag("progress", "-report-progress"); flag("dump", "-debug-bitmap"); flag("log", "-log"); flag("version", "-version");
  if (op.str("ifmt") != "@own") val("ifmt", "-input-format");
  val("ofmt", "-output-format");
  if (op.num("badopt")) a.push_back("-no-such-option");
  if (op.has("badbg")) { a.push_back("-background-color"); a.push_back(op.str("badbg")); }
  if (op.has("info")) a.push_back("-" + op.str("info"));
  if (!out.empty()) { a.push_back("-output-file"); a.push_back(out); }
  if (!op.num("noinput")) a.push_back(in);
  if (op.num("twoinputs")) a.push_back(in);
  return a;
}
static int g_cli_op;
static long g_cli_io0;
static SinkState *g_cli_out, *g_cli_err;
// the first and the last allocation of every call site in this operation
static void say_sites(int op) {
  if (!t_ctx->n_site) return;
  std::string l;
  for (int i = 0; i < t_ctx->n_site; i++) l += strf("%s%ld-%ld", i ? "." : "", t_ctx->site[i].first, t_ctx->site[i].last);
  hist("SITES op=%d list=%s", op, l.c_str());
}
void cli_finish(int code) {
  HarnessScope h;
  t_ctx->in_lib = false;
  // what exit() does: flush what is still open, ignoring errors
  bool out_open = stream_open(stdout);
  int fl = 0;
  if (out_open) { fl = fflush(stdout); }
  if (stream_open(stderr)) fflush(stderr);
  hist("CLIEND op=%d code=%d lostflush=%d outopen=%d nio=%ld na=%ld", g_cli_op, code & 255, fl != 0, out_open, g_w.io_ops - g_cli_io0, t_ctx->n_alloc);
  say_sites(g_cli_op);
  child_end(code & 255);
}
static std::string dir_listing() {
  std::vector<std::string> v;
  DIR *d = opendir(".");
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    v.push_back(n + ":" + hex(hash_str(slurp(n))));
  }
  closedir(d);
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto &x : v) r += x + ",";
  return r;
}
static void op_cli(Sess &s, const Item &op) {
  int id = (int)op.num("id"), fid = (int)op.num("file");
  std::string in = g_run->p->find("file", "id", fid) ? g_run->fname[fid] : op.str("path", "missing.bmp");
  std::string fmt = op.str("fmt", "svg");
  std::string out = op.num("stdout") ? "" : op.has("outname") ? op.str("outname") : out_name(op, 'c');
  if (op.has("inname") && g_run->fname.count(fid)) {  // the same file by another name
    std::string suf = in.substr(in.rfind('.'));
    std::string alias = op.str("inname") == "sub" ? "sub/" + in : op.str("inname") == "dot" ? "./" + in : op.str("inname") == "dots" ? "a.b" + suf : op.str("inname") == "outdot" ? (out.empty() ? "a" : out) + suf : "bare";
    if (op.str("inname") == "sub") mkdir("sub", 0755);
    if (op.str("inname") == "dots") spill("a.b", "the user's own");
    if (op.str("inname") != "dot") { unlink(alias.c_str()); if (link(in.c_str(), alias.c_str()) != 0) alias = in; }
    in = alias;
  }
  if (op.str("outname") == "@same") out = in;
  else if (op.str("outname") == "@dot") out = "./" + in;
  else if (op.str("outname") == "@link") { out = "lnk-" + in; (void)!link(in.c_str(), out.c_str()); }
  else if (op.str("outname") == "@sym") { out = "sym-" + in; (void)!symlink(in.c_str(), out.c_str()); }
  else if (op.str("outname") == "@nodir") out = "nodir/x." + fmt;
  if (op.has("old")) spill(out, std::string((size_t)op.num("old"), 'Z'));
  std::string so = strf("c%d.stdout", id), se = strf("c%d.stderr", id);
  std::string root = in.substr(in.rfind('/') + 1);
  root = root.substr(0, root.rfind('.'));
  std::string dumps[2] = {root + ".dump.pgm", root + ".dump.ppm"};
  for (auto &d : dumps) { unlink(d.c_str()); if (op.num("dumpdir")) mkdir(d.c_str(), 0755); }
  // another name of the input or output lies where the dump would go
  if (op.has("dumpto")) {
    bool toin = op.str("dumpto").substr(0, 2) == "in";
    std::string to = toin ? in : out;
    struct stat sb;
    if (!toin && !to.empty() && !op.has("info") && lstat(to.c_str(), &sb) != 0) spill(to, "earlier");
    for (auto &d : dumps) if (to.empty()) break; else if (op.str("dumpto").size() > 3) (void)!symlink(to.c_str(), d.c_str()); else (void)!link(to.c_str(), d.c_str());
  }
  std::string before = dir_listing();
  std::vector<std::string> args = cli_args(op, in, out, in.substr(0, 4) == "bare" ? g_run->enc[fid].suffix : in.substr(in.rfind('.') + 1), g_run->enc.count(fid) ? g_run->enc[fid].charcode : 0);
  Cb cb;
  uint32_t h0 = g_sh->len;
  (void)h0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    g_w.is_cli = true;
    g_cli_op = id;
    setlocale(LC_ALL, "C");  // as every program starts
    OpFaults f = faults_for(op, &cb);
    begin_op(s.ctx, id, OpFaults(), 0);
    FILE *ferr = sim_open(se.c_str(), "wb", true, &g_cli_err);
    setvbuf(ferr, nullptr, _IONBF, 0);
    if (out.empty()) s.ctx.f = f;
    FILE *fout = sim_open(so.c_str(), "wb", true, &g_cli_out);
    stdout = fout;
    stderr = ferr;
    g_cli_io0 = g_w.io_ops;
    if (f.crash_io >= 0) f.crash_io += g_w.io_ops;
    begin_op(s.ctx, id, f, 600000000ull);
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(strdup(a.c_str()));
    argv.push_back(nullptr);
    int code;
    {
      LibScope l;
      errno = 0;
      code = autotrace_cli_main((int)argv.size() - 1, argv.data());
    }
    cli_finish(code);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1, sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  // what kind of end the tool came to is in the history lines it left
  std::string tail(g_sh->buf + h0, g_sh->len - h0);
  const char *end = tail.find("CLIEND ") != std::string::npos ? "exit" : tail.find("CRASH ") != std::string::npos ? "crash" : tail.find("ASSERT ") != std::string::npos ? "assert"
                  : tail.find("ABORT ") != std::string::npos ? "abort" : tail.find("HANG ") != std::string::npos ? "hang" : sig ? "signal" : code == 77 ? "memory" : "unknown";
  std::string sout = slurp(so), serr = slurp(se), doc = out.empty() ? sout : slurp(out);
  unlink(so.c_str());
  unlink(se.c_str());
  struct stat sb;
  bool exists = !out.empty() && lstat(out.c_str(), &sb) == 0;
  bool insame = !g_run->content.count(fid) || slurp(in) == g_run->content[fid];
  std::string after = dir_listing();
  // names that appeared or changed, other than the named output
  std::string others, outbase = out.substr(out.find_first_not_of("./") == std::string::npos ? 0 : out.find_first_not_of("./"));
  {
    std::set<std::string> b;
    size_t at = 0;
    while (at < before.size()) { size_t c = before.find(',', at); b.insert(before.substr(at, c - at)); at = c + 1; }
    at = 0;
    while (at < after.size()) {
      size_t c = after.find(',', at);
      std::string e = after.substr(at, c - at);
      at = c + 1;
      std::string name = e.substr(0, e.rfind(':'));
      if (!b.count(e) && name != out && name != outbase && name != so && name != se) others += name + ",";
      b.erase(e);
    }
    for (auto &e : b) { std::string name = e.substr(0, e.rfind(':')); if (name != out && name != outbase && after.find(name + ":") == std::string::npos) others += "-" + name + ","; }
  }
  std::string nd = date_norm(doc);
  std::string dumpf = "-";
  for (auto &d : dumps) if (!op.num("dumpdir") && lstat(d.c_str(), &sb) == 0) { std::string b = slurp(d); dumpf = strf("%zu:%s", b.size(), hex(hash_str(b)).c_str()); unlink(d.c_str()); }
  for (auto &d : dumps) if (op.num("dumpdir")) rmdir(d.c_str());
  long nio = 0, na = 0;
  { size_t q = tail.find(" nio="); if (q != std::string::npos) nio = atol(tail.c_str() + q + 5); q = tail.find(" na="); if (q != std::string::npos) na = atol(tail.c_str() + q + 4); }
  bool lost = tail.find("lostflush=1") != std::string::npos;
  hist("OP op=%d it=%d kind=cli nres=%s:%d:%zu:%s:%s st=%s code=%d sig=%d errlen=%zu err=%s outlen=%zu len=%zu doc=%s ndoc=%s exists=%d insame=%d others=%s dump=%s lost=%d nio=%ld na=%ld flen=%zu res=%s:%d:%zu:%s:%s", id, g_run->iter, end, code, nd.size(), hex(hash_str(nd)).c_str(), token(serr.substr(0, 100)).c_str(), end, code, sig, serr.size(), token(serr.substr(0, 200)).c_str(),
       sout.size(), doc.size(), hex(hash_str(doc)).c_str(), hex(hash_str(nd)).c_str(), exists, insame, others.empty() ? "-" : token(others).c_str(), dumpf.c_str(), lost, nio, na, g_run->content.count(fid) ? g_run->content[fid].size() : (size_t)0, end, code, doc.size(), hex(hash_str(doc)).c_str(), token(serr.substr(0, 100)).c_str());
  if (op.str("outname").substr(0, 5) == "@link" || op.str("outname") == "@sym") unlink(out.c_str());
}

static void run_op(Sess &s, const Item &op) {
  std::string k = op.str("kind");
  if (k == "read") op_read(s, op);
  else if (k == "mkbmp") op_mkbmp(s, op);
  else if (k == "trace") op_trace(s, op);
  else if (k == "write") op_write(s, op);
  else if (k == "open") op_open(s, op);
  else if (k == "close") op_close(s, op);
  else if (k == "free") op_free(s, op);
  else if (k == "misc") op_misc(s, op);
  else if (k == "reg") op_reg(s, op);
  else if (k == "wrap") op_wrap(s, op);
  else if (k == "brun") op_brun(s, op);
  else if (k == "bget") op_bget(s, op);
  else if (k == "bmain") op_bmain(s, op);
  else if (k == "cli") { op_cli(s, op); return; }
  say_sites((int)op.num("id"));
}
static void end_session(Sess &s) {
  begin_op(s.ctx, 0, OpFaults(), 0);
  for (auto &i : s.st) if (i.second.f && stream_open(i.second.f)) harness_fclose(i.second.f);
  s.st.clear();
  LibScope l;
  for (auto &i : s.sp) if (i.second) at_splines_free(i.second);
  for (auto &i : s.bm) if (i.second) at_bitmap_free(i.second);
  HarnessScope h;
  s.sp.clear();
  s.bm.clear();
}
static int count_fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static bool wanted(const ExecMode &m, int s) {
  return m.sessions.empty() || std::find(m.sessions.begin(), m.sessions.end(), s) != m.sessions.end();
}
static bool needed(const Plan &p, const Item &op, int target) {
  // op is needed by target if target (transitively) uses its outputs
  if (op.num("id") == target) return true;
  const Item *t = p.find("op", "id", target);
  if (!t || op.num("s") != t->num("s")) return false;
  long out = op.num("out", op.num("id"));
  if (t->has("in")) {
    // the last producer of that slot before the target
    const Item *prod = nullptr;
    for (auto &i : p.items) {
      if (&i == t) break;
      if (i.kind == "op" && i.num("s") == t->num("s") && (i.str("kind") == "read" || i.str("kind") == "mkbmp" || i.str("kind") == "trace") && i.num("out", i.num("id")) == t->num("in") &&
          ((t->str("kind") == "write") == (i.str("kind") == "trace")))
        prod = &i;
    }
    if (prod) return needed(p, op, (int)prod->num("id"));
  }
  (void)out;
  return false;
}
static void session_body(Sess &s) {
  t_ctx = &s.ctx;
  s.ctx.id = s.id;
  for (auto &i : g_run->p->items) {
    if (i.kind != "op" || i.num("s") != s.id) continue;
    if (g_run->m->only_op >= 0 && !needed(*g_run->p, i, g_run->m->only_op)) continue;
    // a caller that keeps its own locale: it sets it again between calls
    if (!g_w.locale.empty() && g_run->sess.size() == 1) setlocale(LC_ALL, g_w.locale.c_str());
    run_op(s, i);
  }
  end_session(s);
}
static void thread_body(int i, void *) { session_body(*g_run->sess[i]); }
static void sequential_body(int, void *) {
  for (int it = 0; it < g_run->m->iters; it++) {
    g_run->iter = it;
    uint32_t seq = ledger_seq();
    for (auto *s : g_run->sess) session_body(*s);
    long live = g_w.live_blocks;
    hist("ITER it=%d live=%ld fresh=%ld bytes=%lld streams=%ld fds=%d sample=%s", it, live, it ? ledger_since(seq) : 0, g_w.live_bytes, g_w.open_streams, count_fds(),
         it == g_run->m->iters - 1 && it > 0 ? token(ledger_sample(6)).c_str() : "-");
  }
}

static void write_files(Run &r) {
  double maxpx = r.p->first("limits") ? r.p->first("limits")->dbl("maxpx", 15000) : 15000;
  for (auto &i : r.p->items) {
    if (i.kind != "file") continue;
    int id = (int)i.num("id");
    const Item *img = r.p->find("img", "id", i.num("img"));
    if (!img) continue;
    Encoded e = encode_file(i, make_image(*img));
    std::string bytes = e.bytes;
    if (r.m->faults) {
      std::vector<const Item *> ds;
      for (auto &d : r.p->items) if (d.kind == "damage" && d.num("file") == id) ds.push_back(&d);
      if (!ds.empty()) {
        apply_damage(i.str("fmt", "p5"), bytes, ds);
        if (!affordable(i.str("fmt"), bytes, maxpx)) {
          // keep the declared size within what a run can afford
          for (auto &d : e.dims) for (size_t k = d.first; k < d.second && k < bytes.size(); k++) bytes[k] = e.bytes[k];
          if (!affordable(i.str("fmt"), bytes, maxpx)) bytes = e.bytes;
        }
        // a text image cut inside its last number is another valid image: cut before it
        if (e.last_token && bytes.size() > e.last_token && bytes.size() < e.bytes.size() && e.bytes.compare(0, bytes.size(), bytes) == 0) bytes.resize(e.last_token);
      }
    }
    std::string name = i.has("name") ? i.str("name") : strf("f%d.%s", id, e.suffix.c_str());
    spill(name, bytes);
    r.fname[id] = name;
    r.enc[id] = e;
    r.content[id] = bytes;
  }
}

static void on_abort(int) {
  hist("ABORT op=%d allocfault=%ld", t_ctx ? t_ctx->op : -1, t_ctx ? t_ctx->allocs_at_fault : -1);
  __real__exit(41);
}

// loops in code that counts no steps, such as a library function fed a wild length
static void on_xcpu(int) {
  hist("HANG op=%d cpu", t_ctx ? t_ctx->op : -1);
  __real__exit(44);
}

int exec_child_main(const Plan &p, const ExecMode &m) {
  // what the code under test prints must not mix with the driver's report
  int efd = open((g_scratch + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  dup2(efd, 1);
  dup2(efd, 2);
  close(efd);
  world_reset();
  signal(SIGABRT, on_abort);
  signal(SIGXCPU, on_xcpu);
  struct rlimit rl = {60, 65};
  setrlimit(RLIMIT_CPU, &rl);
  alarm(240);
  Run run;
  run.p = &p;
  run.m = &m;
  g_run = &run;
  if (chdir(g_scratch.c_str())) { hist("HARNESS chdir"); child_end(50); }
  // environment
  const Item *env = p.find("env", "id", m.env);
  Item none;
  if (!env) env = &none;
  g_w.heapfill = (int)env->num("heapfill", 0xA5);
  g_w.residue_seed = env->u64("residue", 1);
  if (env->has("heapfill")) g_sh->fired[F_RESIDUE]++;
  g_w.clock = env->num("clock", 1000000000);
  g_w.clock_step = env->num("step", 0);
  if (env->has("clock")) g_sh->fired[F_CLOCK]++;
  for (auto &i : p.items) if (i.kind == "fault" && i.has("site")) g_w.sites = true;
  g_w.max_alloc = p.first("limits") ? p.first("limits")->num("maxalloc", 0) : 0;
  std::string dz = env->str("datezero", "unset");
  if (dz != "unset") { g_w.env["AT_DATE_ZERO"] = dz; g_sh->fired[F_ENVVAR]++; }
  setenv("TZ", env->str("tz", "UTC0").c_str(), 1);
  if (env->has("tz")) g_sh->fired[F_ENVVAR]++;
  tzset();
  if (env->has("junk")) { g_w.env["LANG"] = env->str("junk"); g_w.env["HOME"] = "/nowhere"; g_w.env["COLUMNS"] = "7"; g_w.env["AUTOTRACE"] = env->str("junk"); g_sh->fired[F_ENVVAR]++; }
  g_errno0 = (int)env->num("errno");
  if (env->has("locale")) {
    g_w.locale = env->str("locale");
    if (setlocale(LC_ALL, g_w.locale.c_str())) g_sh->fired[F_LOCALE]++;
    else hist("NOLOCALE");
  }
  std::vector<void *> shift;
  long hs = env->num("heapshift");
  for (long i = 0; i < hs; i++) shift.push_back(malloc(24 + 40 * (i % 9)));
  write_files(run);
  ThreadCtx main_ctx;
  t_ctx = &main_ctx;
  bool noinit = false;
  for (auto &i : p.items) noinit = noinit || i.kind == "noinit";
  if (!noinit) {
    LibScope l;
    autotrace_init();
    HarnessScope h;
    for (int k = 0; k < 2; k++)
      for (const char *n : reg_builtin[k]) if (n) g_reg.t[k][n].builtin = true;
    g_reg.init = true;
  }
  for (auto &i : p.items) {
    if (i.kind == "shopts") {
      at_fitting_opts_type *o;
      { LibScope l; o = at_fitting_opts_new(); }
      fill_fit(i, o);
      run.shfit[(int)i.num("id")] = o;
    } else if (i.kind == "shout") {
      LibScope l;
      at_output_opts_type *o = at_output_opts_new();
      o->dpi = (int)i.num("dpi", 72);
      HarnessScope h;
      run.shout[(int)i.num("id")] = o;
    } else if (i.kind == "shin") {
      LibScope l;
      at_input_opts_type *o = at_input_opts_new();
      HarnessScope h;
      run.shin[(int)i.num("id")] = o;
    }
  }
  std::set<int> ids;
  for (auto &i : p.items) if (i.kind == "op" && wanted(m, (int)i.num("s"))) ids.insert((int)i.num("s"));
  for (int i : ids) {
    Sess *s = new Sess();
    s->id = i;
    run.sess.push_back(s);
  }
  std::map<int, uint64_t> sh0;
  for (auto &o : run.shfit) sh0[o.first] = hash_fit(o.second);
  hist("START");
  g_sched = Sched();
  if (m.concurrent && run.sess.size() > 1) {
    const Item *sc = p.first("sched");
    if (sc) {
      g_sched.dense_seed = sc->u64("seed");
      g_sched.dense_lo = (int)std::max(1l, sc->num("lo", 1));
      g_sched.dense_hi = (int)std::max<long>(g_sched.dense_lo, sc->num("hi", 50));
      g_sched.dense_budget = sc->num("budget", 2000);
      g_sched.io_pct = (int)sc->num("io", 0);
      g_sched.acc_pm = (int)sc->num("acc", 0);
    }
    for (auto &i : p.items) if (i.kind == "switch") g_sched.explicit_switches.push_back({i.u64("at"), (int)i.num("to")});
    std::sort(g_sched.explicit_switches.begin(), g_sched.explicit_switches.end());
    sched_run((int)run.sess.size(), thread_body, nullptr);
  } else {
    sched_run(1, sequential_body, nullptr);
  }
  t_ctx = &main_ctx;
  for (auto &o : run.shfit) hist("SHARED id=%d same=%d", o.first, hash_fit(o.second) == sh0[o.first]);
  hist("FDS n=%d streams=%ld foreign=%ld", count_fds(), g_w.open_streams, g_w.closes_foreign);
  hist("DONE");
  child_end(0);
}

// ---------------------------------------------------------------- parent side
std::vector<std::pair<uint64_t, int>> g_last_switches;
void clear_dir(const std::string &d) {
  DIR *dp = opendir(d.c_str());
  if (!dp) return;
  while (dirent *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") unlink((d + "/" + n).c_str());
  }
  closedir(dp);
}
static void parse_hist(ExecOut &o) {
  size_t at = 0;
  while (at < o.hist.size()) {
    size_t nl = o.hist.find('\n', at);
    if (nl == std::string::npos) nl = o.hist.size();
    std::string line = o.hist.substr(at, nl - at);
    at = nl + 1;
    OpRec r;
    size_t i = 0;
    bool first = true;
    while (i < line.size()) {
      size_t sp = line.find(' ', i);
      if (sp == std::string::npos) sp = line.size();
      std::string tok = line.substr(i, sp - i);
      i = sp + 1;
      if (tok.empty()) continue;
      if (first) { r.kind = tok; first = false; continue; }
      size_t eq = tok.find('=');
      if (eq != std::string::npos) r.kv[tok.substr(0, eq)] = tok.substr(eq + 1);
    }
    if (r.kind == "OP") {
      int id = (int)r.num("op");
      o.ops[id] = r;
      o.iter[{id, (int)r.num("it")}] = r;
    } else o.lines.push_back(r);
  }
}
ExecOut collect(int st) {
  ExecOut o;
  o.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  o.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  o.hist.assign(g_sh->buf, g_sh->len);
  o.steps = g_sh->steps; o.io = g_sh->io_ops; o.allocs = g_sh->allocs; o.cov_hash = g_sh->cov_hash; o.sched_hash = g_sh->sched_hash;
  o.simtime = g_sh->simtime; o.edges = g_sh->cov_edges; o.switches = g_sh->switches;
  for (int i = 0; i < F__COUNT; i++) o.fired[i] = g_sh->fired[i];
  for (uint32_t i = 0; i < g_sh->nswlog; i++) o.swlog.push_back({g_sh->swlog[i].at, (int)g_sh->swlog[i].to});
  if (!o.swlog.empty()) g_last_switches = o.swlog;
  parse_hist(o);
  if (o.code != 0 || o.sig) {
    for (auto &l : o.lines)
      if (l.kind == "EXIT" || l.kind == "ABORT" || l.kind == "ASSERT" || l.kind == "HANG" || l.kind == "HARNESS") {
        o.end_class = l.kind;
        o.end_op = (int)l.num("op", -1);
      }
    if (o.end_class.empty()) {
      if (o.sig == SIGALRM) o.end_class = "TIMEOUT";
      else if (o.sig) o.end_class = "SIGNAL";
      else if (o.code == 77) o.end_class = "MEMORY";
      else o.end_class = "CODE" + std::to_string(o.code);
    }
    o.end_detail = o.hist.substr(o.hist.rfind('\n', o.hist.size() > 1 ? o.hist.size() - 2 : 0) + 1);
    while (!o.end_detail.empty() && o.end_detail.back() == '\n') o.end_detail.pop_back();
  }
  // totals
  g_stats.execs++;
  g_stats.steps += o.steps; g_stats.io += o.io; g_stats.allocs += o.allocs; g_stats.simtime += o.simtime; g_stats.switches += o.switches;
  for (int i = 0; i < F__COUNT; i++) g_stats.fired[i] += o.fired[i];
  g_run_digest = hash_bytes(&o.cov_hash, 8, hash_str(o.hist, g_run_digest * 31 + o.steps + o.sched_hash));
  g_run_covs.push_back(o.cov_hash);
  if (o.switches) g_run_scheds.push_back(o.sched_hash);
  return o;
}
void reset_shared() {
  g_sh->len = 0; g_sh->overflow = 0; g_sh->steps = 0; g_sh->io_ops = 0; g_sh->allocs = 0; g_sh->simtime = 0; g_sh->cov_hash = 0; g_sh->cov_edges = 0;
  g_sh->sched_hash = 0; g_sh->switches = 0; g_sh->nswlog = 0;
  for (int i = 0; i < F__COUNT; i++) g_sh->fired[i] = 0;
  memset(g_sh->cov, 0, sizeof g_sh->cov);
}
std::string ExecOut::ended() const { return end_class; }
ExecOut run_exec(const Plan &p, const ExecMode &m) {
  clear_dir(g_scratch);
  reset_shared();
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    exec_child_main(p, m);
    __real__exit(51);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  ExecOut o = collect(st);
  if (g_sh->overflow || o.end_class == "HARNESS" || o.end_class == "TIMEOUT") {
    fprintf(stderr, "simulator error: %s %s\n%s\n", o.end_class.c_str(), o.end_detail.c_str(), p.text().c_str());
    exit(3);
  }
  return o;
}
