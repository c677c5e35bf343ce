// The properties: for each, a generator of seeded plans and the oracle that
// decides a plan's executions.
#include "sim.h"
#include <algorithm>
#include <set>

// ================================================================ generator helpers
namespace {

struct Gen {
  Rng &r;
  Plan p;
  int id = 0;
  explicit Gen(Rng &rr) : r(rr) { p.items.reserve(1000); }  // references to items stay good while drawing
  int next() { return ++id; }

  // One plan in fifteen has one image of several thousand pixels: limits that
  // depend on how many pixels or outlines there are do not show on small ones.
  int large_ = -1;
  bool huge_ok_ = true, strip_ok_ = false;
  int image(int maxside, bool big_ok = true) {
    int i = next();
    Item &it = p.add("img");
    long w, h;
    if (large_ < 0) large_ = big_ok && r.chance(1, 15);
    else if (large_ == 1) large_ = 2;
    if (large_ == 1) maxside = std::max(maxside, r.chance(1, 2) ? 50 : 90);
    int gen = (int)r.below(14);
    // images in which nearly every pixel is an outline of its own are kept smaller
    if (large_ == 1 && (gen == 4 || gen == 7 || gen == 9)) maxside = std::min(maxside, 36);
    switch (large_ == 1 ? 5 : r.below(12)) {
      case 0: w = 1; h = r.range(1, maxside); break;
      case 1: w = r.range(1, maxside); h = 1; break;
      case 2: w = r.range(1, 4); h = r.range(1, 4); break;
      case 3: w = big_ok ? r.range(maxside, maxside * 3) : r.range(1, maxside); h = r.range(1, 5); break;
      case 4: h = big_ok ? r.range(maxside, maxside * 3) : r.range(1, maxside); w = r.range(1, 5); break;
      default: w = r.range(2, maxside); h = r.range(2, maxside);
    }
    if (large_ == 1) w = std::max(w, (long)maxside * 9 / 10), h = std::max(h, (long)maxside * 9 / 10);
    if (large_ == 1 && huge_ok_ && r.chance(1, 4)) {
      // sides beyond a byte and more pixels than sixteen bits count, with few outlines
      static const int simple[] = {1, 2, 3, 5, 8, 10, 12, 13};
      gen = simple[r.below(8)];
      switch (r.below(5)) {
        case 0: w = r.range(250, 262); h = r.range(1, 40); break;
        case 1: h = r.range(250, 262); w = r.range(1, 40); break;
        case 2: w = r.range(500, 1100); h = r.range(1, 8); break;
        case 3: h = r.range(500, 1100); w = r.range(1, 8); break;
        default: w = r.range(255, 290); h = r.range(255, 290);
      }
    }
    if (strip_ok_ && r.chance(1, 25)) {
      static const long sides[] = {255, 256, 257, 511, 512, 1000, 4096, 16384, 32767, 32768, 40000, 65535};
      w = r.range(1, 2), h = sides[r.below(12)];
      if (r.chance(1, 2)) std::swap(w, h);
    }
    static const char *gens[] = {"blobs", "rings", "rects", "strokes", "noise", "sparse", "checker", "gradient", "frame", "manycolors", "blank", "blobs", "strokes", "rings"};
    static const int cols[] = {2, 2, 3, 4, 6, 16, 40};
    it.set("id", i).set("gen", gens[gen]).set("w", w).set("h", h).set("np", r.chance(2, 3) ? 3 : 1).set("colors", cols[r.below(7)]).set("seed", (long)r.below(100000));
    return i;
  }
  int file(int img, const std::vector<std::string> &fmts) {
    int i = next();
    // the one GF encoding would otherwise be lost among the many of other formats
    bool gf = fmts.size() > 10 && fmts.back() == "gf" && r.chance(1, 9);
    p.add("file").set("id", i).set("img", img).set("fmt", gf ? "gf" : r.pick(fmts)).set("var", (long)r.below(1000000));
    return i;
  }
  std::string fmt_of(int file) { return p.find("file", "id", file)->str("fmt"); }
  Item &op(int s, const char *kind, int *idp = nullptr) {
    int i = next();
    if (idp) *idp = i;
    return p.add("op").set("id", i).set("s", s).set("kind", kind);
  }
  Item &fault(int op, const char *kind) { return p.add("fault").set("op", op).set("kind", kind); }

  // Colour reduction costs a hundred times the work of a trace, so it is kept to some plans.
  int quant_ = -1;
  bool quant() {
    if (quant_ < 0) quant_ = large_ < 1 && r.chance(1, 6);
    return quant_;
  }
  void fit(Item &it, int density = 50) {
    auto on = [&] { return (long)r.below(100) < density; };
    static const char *bgs[] = {"ffffff", "000000", "ff0000", "fefefe"};
    if (on()) it.set("bg", bgs[r.below(4)]);
    if (quant() && r.chance(1, 3)) it.set("cc", r.pick(std::vector<long>{1, 2, 3, 8, 16, 100, 256}));
    if (r.chance(1, 4)) it.set("dl", r.range(1, 20));
    if (r.chance(1, 6)) it.set("dt", r.pick(std::vector<std::string>{"0.5", "2.0", "8.0"}));
    if (r.chance(1, 4)) it.set("cl", 1);
    if (r.chance(1, it.num("cl") ? 2 : 5)) it.set("pw", 1);
    if (r.chance(1, 6)) it.set("et", r.pick(std::vector<std::string>{"0.1", "1", "2", "8", "30"}));
    if (r.chance(1, 6)) it.set("fi", r.range(0, 8));
    if (r.chance(1, 6)) it.set("cs", r.range(2, 8));
    if (r.chance(1, 6)) it.set("ts", r.range(2, 7));
    if (r.chance(1, 8)) it.set("ct", r.range(10, 170));
    if (r.chance(1, 8)) it.set("cat", r.range(10, 170));
    if (r.chance(1, 8)) it.set("lt", r.pick(std::vector<std::string>{"0.2", "1", "4"}));
    if (r.chance(1, 8)) it.set("lrt", r.pick(std::vector<std::string>{"0.001", "0.01", "0.5"}));
    if (r.chance(1, 8)) it.set("rac", 1);
    if (r.chance(1, 8)) it.set("rk", 1);
    if (r.chance(1, 8)) it.set("nr", r.pick(std::vector<std::string>{"0", "0.5", "0.99", "1"}));
    if (r.chance(1, 10)) it.set("wwf", r.pick(std::vector<std::string>{"0.5", "6", "20"}));
  }
  void storage(Item &it) {  // how storage splits reads: legal behaviour, not a fault
    if (r.chance(1, 2)) it.set("chunk", r.pick(std::vector<long>{1, 2, 3, 7, 13, 64, 511, 4095, 4096, 4097}));
    if (r.chance(1, 2)) it.set("rbuf", r.pick(std::vector<long>{0, 1, 2, 3, 8, 17, 64, 512, 4096, 8192}));
  }
  void name(Item &it) {
    if (!r.chance(1, 6)) return;
    if (r.chance(2, 3)) it.set("olen", r.pick(std::vector<long>{1, 20, 22, 23, 24, 25, 26, 27, 28, 60, 120, 200}));
    if (r.chance(1, 3)) it.set("odots", r.pick(std::vector<long>{1, 2, 60, 300}));
    if (r.chance(1, 3)) it.set("oup", 1);
  }
  void sink(Item &it, bool kinds = true) {
    if (kinds && r.chance(1, 3)) it.set("sink", "pipe");
    if (r.chance(1, 2)) it.set("rbuf", r.pick(std::vector<long>{0, 1, 2, 5, 16, 100, 511, 4096, 65536}));
    if (r.chance(1, 3)) it.set("wchunk", r.pick(std::vector<long>{1, 3, 64, 1000}));
    if (kinds && r.chance(1, 3)) {
      it.set("prefix", r.pick(std::vector<long>{1, 2, 10, 100, 5000}));
      if (r.chance(1, 2)) it.set("flush", 1);
    }
  }
  void damage(int file) {
    int n = 1 + (int)r.below(r.chance(1, 3) ? 6 : 2);
    for (int i = 0; i < n; i++) {
      Item &d = p.add("damage");
      d.set("file", file);
      bool head = r.chance(1, 2);
      if (head) d.set("off", (long)r.below(r.chance(1, 2) ? 32 : 140));
      else d.set("at", (long)r.below(65536));
      if (r.chance(1, 2)) d.set("sums", 1);
      if (r.chance(1, 3)) {
        d.kv.erase("off"), d.kv.erase("at");
        d.set("kind", "field").set("idx", (long)r.below(r.chance(1, 2) ? 12 : 120));
        if (r.chance(1, 5)) d.set("jump", 1);
        if (r.chance(1, d.has("jump") ? 2 : 10)) d.set("back", r.chance(1, 2) ? (long)r.below(3) : r.range(-4, 60));
        else if (r.chance(1, 3)) d.set("delta", r.pick(std::vector<long>{-1, 1, -2, 2, 256, -256}));
        else d.set("val", r.pick(std::vector<std::string>{"0", "1", "2", "3", "4", "5", "7", "8", "12", "16", "24", "32", "64", "67", "68", "69", "127", "128", "239", "255", "256", "257", "511", "32767", "32768", "65535", "65536", "65537", "0x7fffffff", "0x80000000", "0xffffffff", "0xfffffff0"}));
        if (r.chance(1, 8)) d.set("text", r.pick(std::vector<std::string>{"-1", "x", "-", "1e3", "0x10", "007", "99999999999999999999", "3.5", "-32768"}));
        continue;
      }
      switch (r.below(13)) {
        case 0: case 1: case 2: d.set("kind", "flip").set("bit", (long)r.below(8)); break;
        case 3: d.set("kind", "set").set("val", r.pick(std::vector<long>{0, 1, 2, 4, 8, 16, 32, 127, 128, 254, 255, 35, 10, 32, 48, 57})); break;
        case 4: d.set("kind", "set4").set("val", r.pick(std::vector<std::string>{"0", "1", "0xffffffff", "0x7fffffff", "0x80000000", "0xffff", "0x10000", "0x100", "0xfffffff0"})); break;
        case 5: d.set("kind", "zero").set("len", r.range(1, 64)); break;
        case 6: d.set("kind", "ones").set("len", r.range(1, 64)); break;
        case 7: d.set("kind", "rand").set("len", r.range(1, 200)).set("val", (long)r.below(1000000)); break;
        case 8: case 9: d.set("kind", "trunc"); break;
        case 10: d.set("kind", "dup").set("len", r.range(1, 100)); break;
        case 11: d.set("kind", r.chance(1, 2) ? "drop" : "swap").set("len", r.range(1, 100)).set("at2", (long)r.below(65536)); break;
        default:
          if (r.chance(1, 2)) d.set("kind", "append").set("len", r.range(1, 300)).set("val", (long)r.below(1000000));
          else d.set("kind", "long").set("len", r.pick(std::vector<long>{510, 511, 512, 513, 600, 5000})).set("val", r.pick(std::vector<long>{'x', '1', ' ', '#', 0}));
      }
    }
  }
  void read_fault(int opid, int file) {
    (void)file;
    switch (r.below(6)) {
      case 0: fault(opid, "openfail").set("n", 0L).set("errno", r.pick(std::vector<long>{2, 13, 24, 5})); break;
      case 1: fault(opid, "seekfail").set("n", (long)r.below(4)); break;
      case 2: case 3: fault(opid, "eio").set("at", (long)r.below(r.chance(1, 2) ? 64 : 4000)).set("once", 1); break;
      default: {
        long at = r.chance(1, 2) ? (long)r.below(100) : -1;
        Item &f = fault(opid, "eio");
        if (at >= 0) f.set("at", at);
        else f.set("frac", (long)r.below(10000));
      }
    }
  }
  void write_fault(int opid) {
    switch (r.below(6)) {
      case 0: fault(opid, "closefail"); break;
      case 1: fault(opid, "lateloss").set("frac", (long)r.below(10000)); break;
      case 2: fault(opid, "wfail").set("frac", (long)r.below(10000)).set("once", 1).set("errno", 4); break;
      case 3: fault(opid, "wfail").set("at", (long)r.below(200)).set("errno", r.pick(std::vector<long>{28, 5, 32, 27})); break;
      default: fault(opid, "wfail").set("frac", (long)r.below(10001)).set("errno", r.pick(std::vector<long>{28, 5, 32, 27})); break;
    }
  }
};

const std::vector<std::string> &out_formats(bool ugs) {
  static std::vector<std::string> all = kWriteFormats, no;
  if (no.empty()) for (auto &f : kWriteFormats) if (f != "ugs") no.push_back(f);
  return ugs ? all : no;
}
const std::vector<std::string> &in_formats(bool gf) {
  static std::vector<std::string> no;
  if (no.empty()) for (auto &f : kReadFormats) if (f != "gf") no.push_back(f);
  return gf ? kReadFormats : no;
}
// small tokens the CLI and the wrapper can find by suffix
bool cpp_ok(const std::string &) { return true; }

struct SessOpt {
  bool faults = false, damage = false, cancel = false, gf = true, ugs = false, peek = false, allocf = false, reader_mismatch = false, nomsg = false, wrap = false;
  int side = 24, traces = 2, writes = 3;
};
// one caller's life: bitmaps, traces and writes with whatever goes wrong
void session(Gen &g, int s, const SessOpt &o) {
  Rng &r = g.r;
  int rounds = 1 + (int)r.below(o.traces);
  for (int k = 0; k < rounds; k++) {
    int img = g.image(o.side);
    int b;
    bool crowd = r.chance(1, 25);  // more colours than some formats can hold
    if (crowd) {
      Item *im = nullptr;
      for (auto &q : g.p.items) if (q.kind == "img" && q.num("id") == img) im = &q;
      im->set("gen", "manycolors").set("np", 3).set("w", r.range(21, 27)).set("h", r.range(21, 27));
    }
    if (!crowd && r.chance(2, 3)) {
      int f = g.file(img, in_formats(o.gf));
      if (o.damage && r.chance(1, 3)) g.damage(f);
      int rd;
      Item &it = g.op(s, "read", &rd);
      it.set("file", f).set("out", rd);
      g.storage(it);
      if (o.reader_mismatch && r.chance(1, 6)) it.set("as", r.pick(std::vector<std::string>{"bmp", "tga", "png", "pnm", "gf"}));
      if (o.nomsg && r.chance(1, 3)) it.set("nomsg", 1);
      if (o.peek && r.chance(1, 2)) it.set("peek", r.range(50, 500));
      if (r.chance(1, 4)) it.set("bg", "00ff00");
      if (o.faults && r.chance(1, 3)) g.read_fault(rd, f);
      b = rd;
      if (r.chance(1, 3) && !o.gf) {
        int m;
        g.op(s, "mkbmp", &m).set("img", img).set("out", m);
        b = m;
      }
    } else {
      int m;
      g.op(s, "mkbmp", &m).set("img", img).set("out", m);
      b = m;
    }
    int t;
    Item &it = g.op(s, "trace", &t);
    it.set("in", b).set("out", t);
    if (!crowd) g.fit(it);
    if (r.chance(1, 4)) it.set("copy", 1);
    if (o.reader_mismatch && r.chance(1, 3)) it.set("force", 1);
    if (o.nomsg && r.chance(1, 3)) it.set("nomsg", 1);
    if (o.peek) it.set("peek", r.range(100, 2000));
    if (r.chance(1, 10)) it.set("noprog", 1).set("nocancel", 1).set("simple", 1);
    else if (o.cancel && r.chance(1, 4)) g.fault(t, "cancel").set("frac", (long)r.below(10000)).set("mode", r.chance(1, 2) ? "latch" : "once");
    int nw = std::max((int)r.below(o.writes + 1), crowd ? 1 : 0);
    bool ugs_ok = o.ugs;
    for (int w = 0; w < nw; w++) {
      int wi;
      Item &wt = g.op(s, "write", &wi);
      wt.set("in", t).set("fmt", crowd && r.chance(2, 3) ? "fig" : r.pick(out_formats(ugs_ok)));
      if (r.chance(1, 4)) wt.set("dpi", r.pick(std::vector<long>{72, 100, 300, 0, 1, 1200}));
      g.sink(wt);
      g.name(wt);
      if (o.nomsg && r.chance(1, 3)) wt.set("nomsg", 1);
      if (o.peek) wt.set("peek", r.range(100, 2000));
      if (o.faults && r.chance(1, 4)) g.write_fault(wi);
    }
    if (r.chance(1, 3)) g.op(s, "free").set("b", b);
    if (r.chance(1, 4)) g.op(s, "free").set("sp", t);
    if (o.wrap && r.chance(1, 5)) {
      int wr;
      Item &wt = g.op(s, "wrap", &wr);
      int f = 0;
      for (auto &q : g.p.items) if (q.kind == "file") f = (int)q.num("id");
      wt.set("file", f).set("fmt", r.pick(out_formats(o.ugs)));
      g.fit(wt, 30);
      if (o.faults && r.chance(1, 3)) g.write_fault(wr);
    }
    if (o.wrap && r.chance(1, 8)) g.op(s, "misc").set("what", r.chance(1, 2) ? "opts" : "names");
  }
}

// ================================================================ oracle helpers
typedef std::vector<Violation> Viol;
void viol(Viol &v, const std::string &cls, const std::string &text) {
  for (auto &x : v) if (x.cls == cls) return;
  v.push_back({cls, text});
}
void count(const char *k, uint64_t n = 1) { g_stats.extra[k] += n; }
void evaluated(uint64_t n = 1) { g_stats.evaluations += n; }
bool has_line(const ExecOut &o, const char *kind) {
  for (auto &l : o.lines) if (l.kind == kind) return true;
  return false;
}
const OpRec *rec(const ExecOut &o, int id) {
  auto i = o.ops.find(id);
  return i == o.ops.end() ? nullptr : &i->second;
}
bool too_big(const ExecOut &o) { return has_line(o, "BIGALLOC"); }
std::string desc(const Plan &p, int opid) {
  const Item *it = p.find("op", "id", opid);
  if (!it) return strf("op %d", opid);
  std::string r = strf("op %d %s", opid, it->str("kind").c_str());
  if (it->has("file")) {
    const Item *f = p.find("file", "id", it->num("file"));
    if (f) r += " of a " + f->str("fmt") + " file";
  }
  if (it->has("fmt")) r += " as " + it->str("fmt");
  return r;
}
// turn fault positions given as fractions into absolute ones, using a fault-free execution
Plan resolve(const Plan &p, const ExecOut &ref) {
  Plan q = p;
  for (auto &i : q.items) {
    if (i.kind != "fault" || !i.has("frac")) continue;
    const OpRec *o = rec(ref, (int)i.num("op"));
    long total = 0;
    std::string k = i.str("kind");
    if (o) total = k == "cancel" ? o->num("polls") : k == "alloc" ? o->num("na") : k == "eio" ? o->num("flen") : k == "crash" ? o->num("nio") : o->num("len");
    long v = (long)((double)i.num("frac") * total / 10000.0);
    if (i.has("site")) {
      // loops make most of the allocations: choose among the places that allocate instead
      std::string list;
      for (auto &l : ref.lines) if (l.kind == "SITES" && l.num("op") == i.num("op")) list = l.s("list");
      std::vector<std::pair<long, long>> sites;
      for (const char *c = list.c_str(); *c;) {
        char *e;
        long first = strtol(c, &e, 10), last = strtol(*e == '-' ? e + 1 : e, &e, 10);
        sites.push_back({first, last});
        if (*e != '.') break;
        c = e + 1;
      }
      if (!sites.empty()) {
        auto &at = sites[(size_t)((double)i.num("frac") * sites.size() / 10000.0)];
        v = i.num("site") == 0 ? at.first : i.num("site") == 1 ? at.second : at.first + (i.num("frac") * 7919 % (at.second - at.first + 1));
      }
      i.kv.erase("site");
    }
    i.kv.erase("frac");
    i.set(k == "alloc" ? "n" : k == "crash" ? "io" : "at", v);
  }
  return q;
}
bool uses_frac(const Plan &p) {
  for (auto &i : p.items) if (i.kind == "fault" && i.has("frac")) return true;
  return false;
}
ExecMode mode_plain() { return ExecMode(); }
ExecMode mode_clean() { ExecMode m; m.faults = false; return m; }
Plan resolved(const Plan &p) {
  if (!uses_frac(p)) return p;
  return resolve(p, run_exec(p, mode_clean()));
}
bool ends_host(const std::string &c) { return c == "EXIT" || c == "ABORT" || c == "ASSERT" || c == "SIGNAL" || c == "MEMORY"; }
std::string end_text(const Plan &p, const ExecOut &o) {
  int op = o.end_op;
  if (op < 0) {
    // the operation running when the process died: the first without a record
    for (auto &i : p.items) if (i.kind == "op" && i.str("kind") != "free" && !o.ops.count((int)i.num("id"))) { op = (int)i.num("id"); break; }
  }
  return strf("%s during %s%s", o.end_class.c_str(), desc(p, op).c_str(), o.end_class == "MEMORY" || o.end_class == "SIGNAL" ? "" : (" (" + o.end_detail + ")").c_str());
}
// a trace that does not end is outside these properties
bool discard(const ExecOut &o) {
  if (o.end_class == "HANG" || (too_big(o) && (o.end_class == "EXIT" || o.end_class == "ABORT" || o.end_class == "ASSERT"))) { count("discarded"); return true; }
  return false;
}

// ================================================================ C01
Plan gen_c01(Rng &r, long) {
  Gen g(r);
  g.strip_ok_ = true;
  int n = 2 + (int)r.below(4);
  for (int i = 0; i < n; i++) {
    int img = g.image(r.chance(1, 8) ? 120 : 40);
    int f = g.file(img, r.chance(1, 16) ? kOddFormats : kReadFormats);
    int o;
    Item &it = g.op(0, "read", &o);
    it.set("file", f).set("out", o);
    if (r.chance(1, 4)) it.set("bg", "00ff00");
    g.storage(it);
    if (r.chance(1, 2)) {
      if (r.chance(1, 2)) {
        Item &d = g.p.add("damage");
        d.set("file", f).set("kind", "trunc");
        if (r.chance(1, 3)) d.set("off", (long)r.below(80)); else d.set("at", (long)r.below(65536));
      } else g.read_fault(o, f);
    }
    g.op(0, "free").set("b", o);
  }
  return g.p;
}
bool op_faulted(const Plan &p, const Item &op) {
  for (auto &i : p.items) {
    if (i.kind == "fault" && i.num("op") == op.num("id")) return true;
    if (i.kind == "damage" && op.has("file") && i.num("file") == op.num("file")) return true;
  }
  return false;
}
Viol eval_c01(const Plan &p0) {
  Viol v;
  Plan p = resolved(p0);
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty()) {
    if (discard(o) && o.end_class != "HANG") return v;
    viol(v, "C01-end", "a read did not return: " + end_text(p, o));
  }
  for (auto &i : p.items) {
    if (i.kind != "op" || i.str("kind") != "read") continue;
    const OpRec *x = rec(o, (int)i.num("id"));
    if (!x || x->s("st") == "skip") continue;
    evaluated();
    std::string fmt = x->s("fmt");
    const Item *fi = p.find("file", "id", i.num("file"));
    bool odd = fi && fi->str("fmt").compare(0, 4, "odd-") == 0;
    bool f = op_faulted(p, i) || odd;
    count(odd ? "odd_reads" : f ? "faulted_reads" : "clean_reads");
    bool exact = x->num("bits") && x->num("match") == 1, reported = x->num("nf") + x->num("nw") > 0;
    if (!f) {
      if (!exact) viol(v, "C01-clean-" + fmt, desc(p, (int)i.num("id")) + " without any fault did not return the stored image (shape " + x->s("shape") + ", messages " + x->s("msgs") + ")");
      else if (x->num("nf")) viol(v, "C01-cleanfatal-" + fmt, desc(p, (int)i.num("id")) + " reported a fatal error for a good file");
    } else {
      count(exact && !x->num("nf") ? "faulted_exact" : "faulted_reported", exact || reported);
      if (!exact && !reported) viol(v, "C01-silent-" + fmt, desc(p, (int)i.num("id")) + " under a fault, or of an unusual kind, returned a wrong image (shape " + x->s("shape") + ") without any report");
    }
    if (x->num("nf") && x->num("bits")) viol(v, "C01-fatalbits-" + fmt, desc(p, (int)i.num("id")) + " reported a fatal error (" + x->s("msgs") + ") but returned pixels");
  }
  return v;
}

// ================================================================ C02
Plan gen_c02(Rng &r, long) {
  Gen g(r);
  g.strip_ok_ = true;
  g.p.add("limits").set("maxalloc", 64000000).set("maxpx", r.chance(1, 2) ? "1e19" : "4e5");
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) {
    int img = g.image(r.chance(1, 8) ? 90 : 24);
    int f = g.file(img, r.chance(1, 16) ? kOddFormats : kReadFormats);
    g.damage(f);
    int o;
    Item &it = g.op(0, "read", &o);
    it.set("file", f).set("out", o);
    if (r.chance(1, 3)) g.storage(it);
    if (r.chance(1, 12)) it.set("as", r.pick(std::vector<std::string>{"bmp", "tga", "png", "pnm", "gf"}));
    if (r.chance(1, 3)) {
      int t;
      Item &tr = g.op(0, "trace", &t);
      tr.set("in", o).set("out", t).set("maxpx", 12000l);
      if (r.chance(1, 2)) g.fit(tr, 40);
      g.op(0, "free").set("sp", t);
    }
    g.op(0, "free").set("b", o);
  }
  return g.p;
}
Viol eval_c02(const Plan &p) {
  Viol v;
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty()) {
    const Item *at = p.find("op", "id", o.end_op);
    bool in_trace = at && at->str("kind") == "trace";
    if (o.end_class == "HANG" && !in_trace) viol(v, "C02-hang", "reading did not end within its work bound: " + end_text(p, o));
    else if (!discard(o)) viol(v, "C02-" + o.end_class, end_text(p, o));
  }
  for (auto &i : p.items) {
    if (i.kind != "op" || i.str("kind") != "read") continue;
    const OpRec *x = rec(o, (int)i.num("id"));
    if (!x || x->s("st") == "skip") continue;
    evaluated();
    const Item *f = p.find("file", "id", i.num("file"));
    bool gf = (f && f->str("fmt") == "gf") || i.str("as") == "gf";
    if (!x->num("bits") && !x->num("nf") && !x->num("nw") && !gf) viol(v, "C02-silent", desc(p, (int)i.num("id")) + " returned no pixels and no report");
    count(x->num("bits") ? "returned_bitmap" : "reported_failure");
  }
  return v;
}

// ================================================================ C03
Plan gen_c03(Rng &r, long) {
  Gen g(r);
  int kind = (int)r.below(4);
  int img = g.image(20);
  if (kind <= 1) {
    int m, t;
    g.op(0, "mkbmp", &m).set("img", img).set("out", m);
    Item &tr = g.op(0, "trace", &t);
    tr.set("in", m).set("out", t);
    g.fit(tr);
    int n = 3 + (int)r.below(6);
    for (int i = 0; i < n; i++) {
      int w;
      Item &it = g.op(0, "write", &w);
      it.set("in", t).set("fmt", r.pick(kWriteFormats));
      g.sink(it);
      if (r.chance(1, 8)) g.fault(w, "seekfail").set("n", (long)r.below(4));
      else g.write_fault(w);
    }
  } else {
    int f = g.file(img, in_formats(true));
    int n = 1 + (int)r.below(2);
    for (int i = 0; i < n; i++) {
      int w;
      Item &it = g.op(0, kind == 2 ? "cli" : "wrap", &w);
      it.set("file", f).set("fmt", r.pick(kWriteFormats));
      g.fit(it, 30);
      if (r.chance(1, 2)) it.set("rbuf", r.pick(std::vector<long>{0, 16, 100, 4096}));
      if (kind == 2 && r.chance(1, 3)) it.set("stdout", 1).set("ofmt", it.str("fmt"));
      if (kind == 2 && r.chance(1, 6)) it.set("progress", 1);
      if (r.chance(1, 8)) g.fault(w, "openfail").set("n", (long)r.below(2)).set("errno", r.pick(std::vector<long>{13, 24, 28}));
      else g.write_fault(w);
    }
  }
  return g.p;
}
Viol eval_c03(const Plan &p0) {
  Viol v;
  ExecOut ref = run_exec(p0, mode_clean());
  if (!ref.end_class.empty()) { count("discarded"); return v; }
  Plan p = resolve(p0, ref);
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty()) {
    if (!discard(o)) viol(v, "C03-end", "a failing destination ended the process: " + end_text(p, o));
  }
  for (auto &i : p.items) {
    if (i.kind != "op") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id), *y = rec(ref, id);
    if (!x || !y || x->s("st") == "skip" || y->s("st") == "skip") continue;
    std::string k = i.str("kind");
    if (k == "write") {
      evaluated();
      bool same = x->s("doc") == y->s("doc") && x->num("pre");
      bool visible = x->num("ferror") || x->num("cret") || x->num("nf");
      count(same ? "complete" : "failed_visibly", same || visible);
      if (!visible && !same) viol(v, "C03-lib-" + i.str("fmt"), desc(p, id) + strf(": %ld of %ld bytes arrived, but neither the stream nor the message callback shows a failure", x->num("len"), y->num("len")));
      if (!visible && x->num("sinkfail")) viol(v, "C03-libfail-" + i.str("fmt"), desc(p, id) + ": the destination refused a write but no failure is visible");
    } else if (k == "cli") {
      evaluated();
      std::string st = x->s("st");
      if (st == "hang" || y->s("st") == "hang") { count("discarded"); continue; }
      if (y->num("code") != 0 || y->s("st") != "exit") continue;  // not convertible even without faults
      if (st == "exit" && x->num("code") == 0) {
        if (x->s("doc") != y->s("doc") || x->num("lost"))
          viol(v, "C03-cli", desc(p, id) + strf(": exit status 0 although only %ld of %ld bytes arrived", x->num("len"), y->num("len")));
        count("complete");
      } else if (st == "exit") {
        if (!x->num("errlen")) viol(v, "C03-climsg", desc(p, id) + strf(": exit status %ld without a message", x->num("code")));
        count("failed_visibly");
      } else viol(v, "C03-cliend", desc(p, id) + ": the tool ended with " + st);
    } else if (k == "wrap") {
      evaluated();
      if (y->s("st") != "success") continue;
      if (x->s("st") == "success") {
        if (x->s("doc") != y->s("doc")) viol(v, "C03-cpp", desc(p, id) + strf(": success although only %ld of %ld bytes arrived", x->num("len"), y->num("len")));
        count("complete");
      } else if (x->s("st") == "error") {
        if (!x->num("errlen")) viol(v, "C03-cppmsg", desc(p, id) + ": error without text");
        count("failed_visibly");
      } else viol(v, "C03-cppend", desc(p, id) + ": " + x->s("st"));
    }
  }
  return v;
}

// ================================================================ C04
Plan gen_c04(Rng &r, long) {
  Gen g(r);
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    int img = g.image(r.chance(1, 5) ? 60 : 28), m, t, m2, t2;
    g.op(0, "mkbmp", &m).set("img", img).set("out", m);
    Item &tr = g.op(0, "trace", &t);
    tr.set("in", m).set("out", t);
    g.fit(tr);
    std::map<std::string, std::string> opts = tr.kv;
    g.fault(t, "cancel").set("frac", r.chance(1, 4) ? 9999 : (long)r.below(10000)).set("mode", r.chance(1, 2) ? "latch" : "once");
    g.op(0, "mkbmp", &m2).set("img", img).set("out", m2);
    Item &tr2 = g.op(0, "trace", &t2);
    long id2 = tr2.num("id");
    tr2.kv = opts;
    tr2.set("id", id2).set("in", m2).set("out", t2).set("after", t);
    if (r.chance(1, 3)) g.op(0, "write").set("in", t2).set("fmt", r.pick(out_formats(false)));
  }
  return g.p;
}
const OpRec *iter_rec(const ExecOut &o, int id, int it) {
  auto i = o.iter.find({id, it});
  return i == o.iter.end() ? nullptr : &i->second;
}
const OpRec *iter_line(const ExecOut &o, int it) {
  for (auto &l : o.lines) if (l.kind == "ITER" && l.num("it") == it) return &l;
  return nullptr;
}
void leak_check(Viol &v, const char *prop, const Plan &p, const ExecOut &o) {
  const OpRec *a = iter_line(o, 1), *b = iter_line(o, 2);
  if (!a || !b) return;
  evaluated();
  if (b->num("live") > a->num("live") || b->num("bytes") > a->num("bytes"))
    viol(v, std::string(prop) + "-leak", strf("repeating the same operations leaves %ld more blocks (%ld bytes) allocated each time; newest:%s", b->num("live") - a->num("live"), b->num("bytes") - a->num("bytes"), b->s("sample").c_str()));
  else if (b->num("fresh") > 0)
    viol(v, std::string(prop) + "-held", strf("%ld blocks allocated by these operations are still held after everything was released; newest:%s", b->num("fresh"), b->s("sample").c_str()));
  if (b->num("streams") > 0 || b->num("fds") > a->num("fds"))
    viol(v, std::string(prop) + "-handles", strf("repeating the same operations leaves %ld more files open each time", std::max(b->num("streams") - a->num("streams"), b->num("fds") - a->num("fds"))));
}
Viol eval_c04(const Plan &p0) {
  Viol v;
  ExecOut ref = run_exec(p0, mode_clean());
  if (!ref.end_class.empty()) { count("discarded"); return v; }
  Plan p = resolve(p0, ref);
  ExecMode m;
  m.iters = 3;
  ExecOut o = run_exec(p, m);
  if (!o.end_class.empty()) {
    const Item *at = p.find("op", "id", o.end_op);
    bool cancelled_op = at && op_faulted(p, *at);
    if (o.end_class == "HANG" && cancelled_op) viol(v, "C04-hang", "a cancelled trace goes on: " + end_text(p, o));
    else if (!discard(o)) viol(v, "C04-end", "cancelling ended the process: " + end_text(p, o));
  }
  for (auto &i : p.items) {
    if (i.kind != "op" || i.str("kind") != "trace") continue;
    int id = (int)i.num("id");
    for (int it = 0; it < 3; it++) {
      const OpRec *x = iter_rec(o, id, it), *y = rec(ref, id);
      if (!x || !y || x->s("st") == "skip") continue;
      evaluated();
      if (x->num("cancelled")) {
        count("cancelled_traces");
        if (x->s("st") != "null") viol(v, "C04-result", desc(p, id) + strf(": cancelled at poll but returned splines"));
        if (x->num("prafter")) viol(v, "C04-progress", desc(p, id) + ": progress was sent after the cancellation");
        if (x->num("pafter") > 4) viol(v, "C04-polls", desc(p, id) + strf(": polled %ld more times after the cancellation", x->num("pafter")));
        if (x->num("mafter") || x->num("nf")) viol(v, "C04-error", desc(p, id) + ": an error was reported for a cancelled trace: " + x->s("msgs"));
        long after = x->num("steps") - x->num("stepcancel"), img = 0;
        const Item *mk = p.find("op", "id", i.num("in"));
        const Item *im = mk ? p.find("img", "id", mk->num("img")) : nullptr;
        if (im) img = im->num("w") * im->num("h");
        g_stats.extra["max_steps_after"] = std::max<uint64_t>(g_stats.extra["max_steps_after"], after);
        if (after > 3000 + 12 * img + x->num("stepcancel") / 8) viol(v, "C04-work", desc(p, id) + strf(": %ld more basic blocks after the cancellation (%ld before, image of %ld pixels)", after, x->num("stepcancel"), img));
      } else {
        if (x->s("res") != y->s("res")) viol(v, "C04-repeat", desc(p, id) + " gives a different result after a cancelled trace");
      }
      if (x->num("bad") || x->num("late")) viol(v, "C04-data", desc(p, id) + ": callback misused");
    }
  }
  for (auto &i : p.items)
    if (i.kind == "op" && i.str("kind") == "write") {
      const OpRec *x = rec(o, (int)i.num("id")), *y = rec(ref, (int)i.num("id"));
      if (x && y && x->s("st") == "ok" && x->s("res") != y->s("res")) viol(v, "C04-repeat", desc(p, (int)i.num("id")) + " differs after a cancelled trace");
    }
  leak_check(v, "C04", p, o);
  return v;
}

// ================================================================ C05
Plan gen_c05(Rng &r, long) {
  Gen g(r);
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    int img = g.image(30), m, t;
    g.op(0, "mkbmp", &m).set("img", img).set("out", m);
    Item &tr = g.op(0, "trace", &t);
    tr.set("in", m).set("out", t);
    g.fit(tr);
    if (r.chance(1, 4)) tr.set("stall", 1);
    if (r.chance(1, 8)) tr.set("noprog", 1);
    if (r.chance(1, 8)) tr.set("nocancel", 1);
    if (r.chance(1, 6)) g.fault(t, "cancel").set("frac", (long)r.below(10000)).set("mode", r.chance(1, 2) ? "latch" : "once");
    else if (r.chance(1, 2)) {
      int img2 = g.image(16), m2, t2;
      Item &tt = g.p.items[0];
      (void)tt;
      for (auto &it : g.p.items) if (it.kind == "op" && it.num("id") == t) {
        it.set("reimg", img2).set("reat", (long)r.below(6));
        if (r.chance(1, 3)) it.set("recl", 1);
        if (r.chance(1, 3)) it.set("redl", 1);
        if (g.quant() && r.chance(1, 2)) it.set("recc", 1);
        Item n2 = it;
        g.op(1, "mkbmp", &m2).set("img", img2).set("out", m2);
        Item &x = g.op(1, "trace", &t2);
        x.set("in", m2).set("out", t2).set("nestof", t);
        if (n2.num("recl")) x.set("cl", 1);
        if (n2.num("redl")) x.set("dl", 3);
        if (n2.num("recc")) x.set("cc", 4);
        break;
      }
    }
    if (r.chance(1, 2)) g.op(0, "write").set("in", t).set("fmt", r.pick(out_formats(false)));
  }
  return g.p;
}
Viol eval_c05(const Plan &p0) {
  Viol v;
  ExecMode cm = mode_clean();
  ExecOut full = run_exec(p0, cm);
  if (discard(full)) return v;
  Plan p = resolve(p0, full);
  cm.clean_cb = true;
  ExecOut ref = run_exec(p0, cm);
  if (!ref.end_class.empty()) { count("discarded"); return v; }
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty() && !discard(o)) viol(v, "C05-end", "tracing with callbacks ended the process: " + end_text(p, o));
  for (auto &i : p.items) {
    if (i.kind != "op" || i.str("kind") != "trace") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id), *y = rec(ref, id);
    if (!x || !y || x->s("st") == "skip") continue;
    evaluated();
    bool ok = x->s("st") == "ok";
    if (x->num("bad")) viol(v, "C05-data", desc(p, id) + ": a callback got a pointer or type that is not the caller's");
    if (x->num("pbad")) viol(v, "C05-range", desc(p, id) + ": progress outside 0..1");
    if (x->num("pdec")) viol(v, "C05-order", desc(p, id) + ": progress went back");
    if (x->num("late")) viol(v, "C05-late", desc(p, id) + ": callback used after the trace returned");
    if (!i.num("noprog")) {
      count("progress_values", x->num("prog"));
      if (ok && (x->num("pones") < 1 || x->s("plast") != "1")) viol(v, "C05-final", desc(p, id) + ": succeeded but its last progress value was " + x->s("plast") + ", not 1");
      if (!ok && x->num("pones")) viol(v, "C05-false", desc(p, id) + ": reported progress 1 but returned nothing");
    }
    if (!x->num("cancelled") && (x->s("spl") != y->s("spl") || x->s("bm") != y->s("bm")))
      viol(v, "C05-differs", desc(p, id) + ": the splines differ from those of a trace without callbacks");
    if (i.has("nestof"))
      for (auto &l : o.lines) if (l.kind == "NESTED" && l.num("op") == i.num("nestof")) {
        evaluated();
        if (l.s("res") != y->s("spl")) viol(v, "C05-nested", strf("a trace started from a callback of op %ld gives other splines than alone", i.num("nestof")));
      }
  }
  bool stalls = false;  // a stall moves the clock, and with it the creation dates
  for (auto &i : p.items) stalls |= i.num("stall") != 0;
  for (auto &i : p.items) if (i.kind == "op" && i.str("kind") == "write") {
    std::string fmt = i.str("fmt");
    if (stalls && (fmt == "eps" || fmt == "ai" || fmt == "epd" || fmt == "er")) continue;
    const OpRec *x = rec(o, (int)i.num("id")), *y = rec(ref, (int)i.num("id"));
    if (x && y && x->s("st") == "ok" && y->s("st") == "ok" && x->s("doc") != y->s("doc")) viol(v, "C05-doc", desc(p, (int)i.num("id")) + ": the document differs from that of a trace without callbacks");
  }
  return v;
}

// ================================================================ C06
Plan gen_c06(Rng &r, long) {
  Gen g(r);
  for (int s = 0; s < 2; s++) {
    // session 1 repeats session 0 without faults
    if (s == 1) {
      if (r.chance(1, 2)) break;
      Plan q = g.p;
      for (auto &i : q.items) if (i.kind == "op") {
        Item c = i;
        c.set("s", 1).set("id", i.num("id") + 1000);
        if (c.has("in")) c.set("in", c.num("in"));
        g.p.items.push_back(c);
      }
      break;
    }
    int img = g.image(18), f = g.file(img, kReadFormats), rd, t, w;
    g.op(0, "read", &rd).set("file", f).set("out", rd);
    Item &tr = g.op(0, "trace", &t);
    tr.set("in", rd).set("out", t);
    g.fit(tr, 40);
    if (r.chance(1, 3)) tr.set("dl", r.range(1, 20));
    int nw = 1 + (int)r.below(2);
    std::vector<int> targets = {rd, t, t, t};
    for (int i = 0; i < nw; i++) {
      Item &it = g.op(0, "write", &w);
      it.set("in", t).set("fmt", r.pick(out_formats(g.fmt_of(f) != "gf")));
      if (r.chance(1, 4)) it.set("dpi", 72);
      targets.push_back(w);
    }
    if (r.chance(1, 5)) { Item &it = g.op(0, "wrap", &w); it.set("file", f).set("fmt", r.pick(out_formats(false))); targets = {w}; }
    else if (r.chance(1, 5)) { Item &it = g.op(0, "cli", &w); it.set("file", f).set("fmt", r.pick(out_formats(false))); g.fit(it, 30); targets = {w}; }
    int target = r.pick(targets);
    Item &ft = g.p.add("fault");
    ft.set("op", target).set("kind", "alloc").set("frac", (long)r.below(10000));
    if (r.chance(2, 3)) ft.set("site", (long)r.below(3));
    if (r.chance(1, 3)) ft.set("persist", 1);
  }
  return g.p;
}
Viol eval_c06(const Plan &p0) {
  Viol v;
  ExecOut ref = run_exec(p0, mode_clean());
  if (!ref.end_class.empty()) { count("discarded"); return v; }
  Plan p = resolve(p0, ref);
  ExecOut o = run_exec(p, mode_plain());
  evaluated();
  if (o.end_class == "MEMORY" || o.end_class == "SIGNAL") viol(v, "C06-memory", "a failed allocation led to an invalid memory access: " + end_text(p, o));
  else if (o.end_class == "HANG") viol(v, "C06-hang", "a failed allocation led to an endless loop: " + end_text(p, o));
  else if (!o.end_class.empty()) count("terminated_deliberately");
  bool upstream_failed = false;
  for (auto &i : p.items) {
    if (i.kind != "op") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id), *y = rec(ref, id);
    if (!x || !y || x->s("st") == "skip") continue;
    std::string k = i.str("kind");
    evaluated();
    bool faulted = op_faulted(p, i);
    if (k == "cli") {
      if (!faulted) continue;
      std::string st = x->s("st");
      if (st == "memory" || st == "signal") viol(v, "C06-climemory", desc(p, id) + ": a failed allocation led to an invalid memory access (" + st + ")");
      else if (st == "hang" && y->s("st") != "hang") viol(v, "C06-clihang", desc(p, id) + ": a failed allocation led to an endless loop");
      else if (st == "exit" && x->num("code") == 0 && y->num("code") == 0 && x->s("doc") != y->s("doc")) viol(v, "C06-cliwrong", desc(p, id) + ": exit status 0 with a different document after a failed allocation");
      else count(st == "exit" && x->num("code") == 0 ? "completed_exactly" : "failed_visibly");
      continue;
    }
    if (k == "wrap") {
      if (!faulted) continue;
      if (x->s("st") == "success" && y->s("st") == "success" && x->s("doc") != y->s("doc")) viol(v, "C06-cppwrong", desc(p, id) + ": success with a different document after a failed allocation");
      count(x->s("st") == "success" ? "completed_exactly" : "failed_visibly");
      continue;
    }
    if (x->s("res") == y->s("res")) { if (faulted) count("completed_exactly"); continue; }
    bool visible = x->num("nf") || x->num("nw") || x->s("st") == "null" || (k == "write" && (x->num("ferror") || x->num("cret")));
    if (!faulted) {
      // inputs damaged by a visible failure upstream may differ; anything else must not
      if (upstream_failed && i.num("s") == 0) continue;
      viol(v, "C06-later", desc(p, id) + " gives a different result after another operation ran out of memory");
    } else if (!visible) viol(v, "C06-wrong-" + k, desc(p, id) + ": reported success with a different result after a failed allocation");
    else { count("failed_visibly"); upstream_failed = true; }
  }
  return v;
}

// ================================================================ C07
Plan gen_c07(Rng &r, long) {
  Gen g(r);
  int n = 2 + (int)r.below(5);
  bool gf = r.chance(1, 3);
  SessOpt o;
  o.faults = r.chance(2, 3);
  o.damage = o.faults && r.chance(1, 2);
  o.cancel = r.chance(1, 2);
  o.gf = gf;
  o.ugs = !gf;
  o.wrap = true;
  o.side = 20;
  g.p.add("limits").set("maxalloc", 64000000);
  for (int s = 0; s < n; s++) session(g, s, o);
  return g.p;
}
std::set<int> session_ids(const Plan &p) {
  std::set<int> s;
  for (auto &i : p.items) if (i.kind == "op") s.insert((int)i.num("s"));
  return s;
}
Viol eval_c07(const Plan &p0) {
  Viol v;
  Plan p = p0;
  if (uses_frac(p0)) {
    ExecOut cl = run_exec(p0, mode_clean());
    if (!cl.end_class.empty()) { count("discarded"); return v; }
    p = resolve(p0, cl);
  }
  ExecOut o = run_exec(p, mode_plain());
  for (int s : session_ids(p)) {
    ExecMode m;
    m.sessions = {s};
    ExecOut a = run_exec(p, m);
    if (!a.end_class.empty()) { count("discarded"); return v; }
    for (auto &x : a.ops) {
      const OpRec *y = rec(o, x.first);
      evaluated();
      if (!y) { if (o.end_class != "HANG") viol(v, "C07-end", desc(p, x.first) + " works in a fresh process, but after other operations the process ended: " + end_text(p, o)); return v; }
      if (y->s("res") != x.second.s("res"))
        viol(v, "C07-" + x.second.s("kind") + "-" + (p.find("op", "id", x.first) ? p.find("op", "id", x.first)->str("fmt") : ""), desc(p, x.first) + " gives another result after other operations (" + y->s("res") + ") than in a fresh process (" + x.second.s("res") + ")");
    }
  }
  return v;
}

// ================================================================ C08
Plan gen_c08(Rng &r, long) {
  Gen g(r);
  SessOpt o;
  o.gf = r.chance(1, 4);
  o.ugs = !o.gf;
  o.side = 24;
  o.traces = 2;
  o.writes = 5;
  o.damage = r.chance(1, 4);
  g.p.add("limits").set("maxalloc", 64000000);
  int n = 1 + (int)r.below(2);
  for (int s = 0; s < n; s++) session(g, s, o);
  if (r.chance(1, 3)) {
    int f = g.file(g.image(14), in_formats(false));
    Item &it = g.op(0, r.chance(1, 2) ? "cli" : "wrap");
    it.set("file", f).set("fmt", r.pick(out_formats(false)));
    g.fit(it, 30);
  }
  // two environments
  for (int e = 1; e <= 2; e++) {
    Item &it = g.p.add("env");
    it.set("id", e);
    it.set("heapfill", r.pick(std::vector<long>{0, 1, 0x55, 0xA5, 0xff, 256, 256, 256})).set("residue", (long)r.below(1000000));
    if (r.chance(1, 2)) it.set("heapshift", r.range(1, 3000));
    if (r.chance(1, 2)) it.set("clock", r.pick(std::vector<long>{0, 1, 86399, 951782400, 1700000000, 2147483647, 4102444800, 253402300799, -1, 1234567890}));
    if (r.chance(1, 4)) it.set("step", r.pick(std::vector<long>{1, 3600, -5, 86400}));
    if (r.chance(1, 2)) it.set("tz", r.pick(std::vector<std::string>{"UTC0", "EST5EDT", "XXX-14", "YYY12", "IST-5:30"}));
    if (r.chance(1, 3)) it.set("locale", r.pick(std::vector<std::string>{"C", "de_DE.UTF-8", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9"}));
    if (r.chance(1, 3)) it.set("datezero", r.pick(std::vector<std::string>{"yes", "yes", "no", "1", "unset"}));
    if (r.chance(1, 3)) it.set("errno", r.pick(std::vector<long>{2, 4, 5, 12, 28, 34}));
    if (r.chance(1, 4)) it.set("junk", r.pick(std::vector<std::string>{"de_DE", "xx", "999"}));
    it.set("flav", r.pick(std::vector<std::string>{"z", "p", "p"}));
  }
  return g.p;
}
ExecOut run_env(const Plan &p, int env) {
  ExecMode m;
  m.env = env;
  const Item *e = p.find("env", "id", env);
  std::string f = e ? e->str("flav", "z") : "z";
  auto b = g_other_bins.find(f);
  if (b == g_other_bins.end()) return run_exec(p, m);
  return run_exec_other(b->second, p, m);
}
std::string strip_doc_res(const OpRec &x, bool dates, const std::string &) {
  std::string k = x.s("kind");
  if (!dates || (k != "write" && k != "cli" && k != "wrap")) return x.s("res");
  return x.s("nres");
}
Viol eval_c08(const Plan &p) {
  Viol v;
  ExecOut a = run_env(p, 1), b = run_env(p, 2);
  if (a.end_class.empty() && !b.end_class.empty() && b.end_class != "HANG") viol(v, "C08-end", "the process ended in one environment only: " + end_text(p, b));
  if (b.end_class.empty() && !a.end_class.empty() && a.end_class != "HANG") viol(v, "C08-end", "the process ended in one environment only: " + end_text(p, a));
  if (!a.end_class.empty() || !b.end_class.empty()) { count("discarded"); return v; }
  const Item *e1 = p.find("env", "id", 1), *e2 = p.find("env", "id", 2);
  Item none;
  if (!e1) e1 = &none;
  if (!e2) e2 = &none;
  auto dated = [&](const Item *e) { return e->str("datezero", "unset") != "yes"; };
  for (auto &x : a.ops) {
    const OpRec *y = rec(b, x.first);
    if (!y) continue;
    evaluated();
    const Item *op = p.find("op", "id", x.first);
    std::string fmt = op ? op->str("fmt") : "";
    // only these formats carry a date, and only when it is not fixed
    bool dates = (fmt == "eps" || fmt == "epd" || fmt == "er" || fmt == "ai") && (dated(e1) || dated(e2));
    if (fmt == "ai") dates = dated(e1) || dated(e2);
    if (strip_doc_res(x.second, dates, fmt) != strip_doc_res(*y, dates, fmt))
      viol(v, "C08-" + x.second.s("kind") + "-" + fmt, desc(p, x.first) + " depends on the environment: " + x.second.s("res") + " in environment 1, " + y->s("res") + " in environment 2");
    if (x.second.has("date") && y->has("date")) {
      // the date shown must be the simulated time
      for (const OpRec *q : {(const OpRec *)&x.second, y})
        if (q->s("date") == "wrong") viol(v, "C08-date-" + fmt, desc(p, x.first) + " shows a creation date that is neither the current time nor the fixed date");
    }
  }
  return v;
}

// ================================================================ C09
Plan gen_c09(Rng &r, long) {
  Gen g(r);
  g.huge_ok_ = false;
  int n = 2 + (int)r.below(3);
  SessOpt o;
  o.gf = r.chance(1, 3);
  o.ugs = !o.gf;
  o.wrap = true;
  o.side = 16;
  o.traces = 1;
  o.writes = 4;
  o.faults = r.chance(1, 3);
  o.damage = o.faults && r.chance(1, 3);
  o.cancel = r.chance(1, 4);
  g.p.add("limits").set("maxalloc", 64000000);
  if (r.chance(1, 5)) g.p.add("env").set("id", 0L).set("locale", r.pick(std::vector<std::string>{"de_DE.UTF-8", "tr_TR.UTF-8"}));
  bool sh = r.chance(1, 2);
  if (sh) { Item &it = g.p.add("shopts"); it.set("id", 1); g.fit(it); g.p.add("shout").set("id", 1).set("dpi", 72); g.p.add("shin").set("id", 1); }
  // sessions often use the same formats and code at the same time
  bool alike = r.chance(1, 2);
  size_t mark = g.p.items.size();
  session(g, 0, o);
  if (alike) {
    Plan first = g.p;
    for (int s = 1; s < n; s++)
      for (size_t i = mark; i < first.items.size(); i++) {
        Item c = first.items[i];
        long off = 1000 * s;
        for (const char *k : {"id", "file", "img", "in", "out", "op", "b", "sp"}) if (c.has(k)) c.set(k, c.num(k) + off);
        if (c.kind == "op") c.set("s", s);
        if (c.kind == "img" && r.chance(2, 3)) c.set("seed", (long)r.below(100000)).set("w", r.range(2, 18)).set("h", r.range(2, 18));
        if (c.kind == "file" && r.chance(1, 2)) c.set("var", (long)r.below(1000000));
        g.p.items.push_back(c);
      }
  } else for (int s = 1; s < n; s++) session(g, s, o);
  if (sh) for (auto &i : g.p.items) if (i.kind == "op") {
    if (i.str("kind") == "trace" && r.chance(2, 3)) i.set("shopts", 1);
    if (i.str("kind") == "write" && r.chance(2, 3)) i.set("shout", 1);
    if (i.str("kind") == "read" && r.chance(2, 3)) i.set("shin", 1);
  }
  Item &sc = g.p.add("sched");
  sc.set("seed", (long)r.below(1000000000));
  switch (r.below(5)) {
    case 0: sc.set("lo", 1).set("hi", 30).set("budget", 2500); break;
    case 3: sc.set("lo", 100000000).set("hi", 200000000).set("budget", 1000).set("acc", r.pick(std::vector<long>{3, 20, 100, 400, 1000})); break;
    case 1: sc.set("lo", 20).set("hi", 400).set("budget", 2500); break;
    case 2: sc.set("lo", 300).set("hi", 6000).set("budget", 1500); break;
    default: sc.set("lo", 2000).set("hi", 60000).set("budget", 300);
  }
  if (r.chance(1, 2)) sc.set("io", r.range(5, 60));
  if (!sc.has("acc") && r.chance(3, 4)) sc.set("acc", r.pick(std::vector<long>{3, 20, 100, 400, 1000}));
  return g.p;
}
Viol eval_c09(const Plan &p0) {
  Viol v;
  Plan p = p0;
  if (uses_frac(p0)) {
    ExecOut cl = run_exec(p0, mode_clean());
    if (!cl.end_class.empty()) { count("discarded"); return v; }
    p = resolve(p0, cl);
  }
  std::map<int, ExecOut> alone;
  for (int s : session_ids(p)) {
    ExecMode m;
    m.sessions = {s};
    alone[s] = run_exec(p, m);
    if (!alone[s].end_class.empty()) { count("discarded"); return v; }
  }
  ExecMode m;
  m.concurrent = true;
  ExecOut o = run_exec(p, m);
  count("interleaved_executions");
  if (o.end_class == "HANG") viol(v, "C09-hang", "concurrent sessions do not end: " + end_text(p, o));
  else if (!o.end_class.empty()) viol(v, "C09-end", "concurrent sessions ended the process: " + end_text(p, o));
  else
    for (auto &l : o.lines) if (l.kind == "SHARED" && !l.num("same")) viol(v, "C09-shared", "a shared options object was modified");
  for (auto &a : alone)
    for (auto &x : a.second.ops) {
      const OpRec *y = rec(o, x.first);
      if (!y) continue;
      evaluated();
      if (y->s("res") != x.second.s("res"))
        viol(v, "C09-" + x.second.s("kind") + "-" + (p.find("op", "id", x.first) ? p.find("op", "id", x.first)->str("fmt") : ""), desc(p, x.first) + " gives another result when other sessions run at the same time (" + y->s("res") + ") than alone (" + x.second.s("res") + ")");
    }
  return v;
}

// ================================================================ C10
Plan gen_c10(Rng &r, long) {
  Gen g(r);
  g.p.add("limits").set("maxalloc", 64000000);
  SessOpt o;
  o.faults = r.chance(3, 4);
  o.damage = r.chance(1, 2);
  o.cancel = r.chance(1, 2);
  o.gf = true;
  o.ugs = true;
  o.wrap = true;
  o.reader_mismatch = true;
  o.side = 20;
  o.writes = 4;
  session(g, 0, o);
  if (r.chance(1, 2)) { Item &it = g.op(0, "misc"); it.set("what", r.chance(1, 2) ? "opts" : "names"); if (r.chance(1, 2)) it.set("bg", "123456"); }
  return g.p;
}
Viol eval_c10(const Plan &p0) {
  Viol v;
  Plan p = p0;
  if (uses_frac(p0)) {
    ExecOut cl = run_exec(p0, mode_clean());
    if (!cl.end_class.empty()) { count("discarded"); return v; }
    p = resolve(p0, cl);
  }
  ExecMode m;
  m.iters = 3;
  ExecOut o = run_exec(p, m);
  if (has_line(o, "FOREIGN-CLOSE")) viol(v, "C10-foreign", "the library closed a stream that belongs to the caller");
  if (!o.end_class.empty()) {
    if (o.end_class == "MEMORY" || o.end_class == "SIGNAL") viol(v, "C10-memory", "memory misuse: " + end_text(p, o));
    else count("discarded");
    return v;
  }
  leak_check(v, "C10", p, o);
  return v;
}

// ================================================================ C11
Plan gen_c11(Rng &r, long) {
  Gen g(r);
  g.p.add("limits").set("maxalloc", 64000000);
  SessOpt o;
  o.faults = true;
  o.damage = true;
  o.cancel = true;
  o.gf = true;
  o.ugs = true;
  o.reader_mismatch = true;
  o.side = 18;
  o.writes = 4;
  session(g, 0, o);
  if (r.chance(1, 4)) g.op(0, "misc").set("what", "names");
  if (r.chance(1, 4)) g.op(0, "read").set("path", r.pick(std::vector<std::string>{"missing.bmp", "missing.png", "missing.tga", "missing.pnm", "missing.gf", "missing.ppm"}));
  return g.p;
}
Viol eval_c11(const Plan &p0) {
  Viol v;
  Plan p = p0;
  if (uses_frac(p0)) {
    ExecOut cl = run_exec(p0, mode_clean());
    if (!cl.end_class.empty()) {
      if (!discard(cl)) viol(v, "C11-end", "the library ended the process: " + end_text(p0, cl));
      return v;
    }
    p = resolve(p0, cl);
  }
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty() && !discard(o)) viol(v, "C11-end", "the library ended the process: " + end_text(p, o));
  if (has_line(o, "BADPTR")) viol(v, "C11-ptr", "a callback got a data pointer that is not the caller's");
  for (auto &i : p.items) {
    if (i.kind != "op") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id);
    if (!x || x->s("st") == "skip") continue;
    std::string k = i.str("kind");
    evaluated();
    if (k == "read") {
      const Item *f = p.find("file", "id", i.num("file"));
      bool gf = (f && f->str("fmt") == "gf") || i.str("as") == "gf";
      bool rep = x->num("nf") + x->num("nw") > 0;
      if (x->num("nf") && x->num("bits")) viol(v, "C11-usable-read", desc(p, id) + ": fatal error (" + x->s("msgs") + ") followed by a usable bitmap");
      if (!x->num("bits") && !rep && (!gf || op_faulted(p, i) == false)) viol(v, "C11-silent-read", desc(p, id) + ": failed without a report");
    } else if (k == "trace") {
      if (x->num("nf") && x->s("st") == "ok") viol(v, "C11-usable-trace", desc(p, id) + ": fatal error (" + x->s("msgs") + ") followed by usable splines");
      if (x->s("st") == "null" && !x->num("nf") && !x->num("cancelled")) viol(v, "C11-silent-trace", desc(p, id) + ": failed without a report");
    } else if (k == "write") {
      if (x->num("ferror") && !x->num("err0") && !x->num("nf") && !x->num("nw")) viol(v, "C11-silent-write", desc(p, id) + ": the stream failed but nothing was reported");
    }
    if (x->num("bad")) viol(v, "C11-type", desc(p, id) + ": message with a wrong type, text or data pointer");
    if (x->num("late")) viol(v, "C11-late", desc(p, id) + ": callback used after the operation returned");
  }
  // the same without a message callback
  Plan q = p;
  for (auto &i : q.items) if (i.kind == "op") i.set("nomsg", 1);
  ExecOut n = run_exec(q, mode_plain());
  if (!n.end_class.empty() && o.end_class.empty() && !discard(n)) viol(v, "C11-nomsg-end", "without a message callback the library ended the process: " + end_text(q, n));
  for (auto &i : p.items) {
    if (i.kind != "op") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id), *y = rec(n, id);
    if (!x || !y) continue;
    evaluated();
    for (const char *k : {"st", "shape", "bits", "px", "spl", "doc", "ferror"})
      if (x->s(k) != y->s(k)) { viol(v, "C11-nomsg", desc(p, id) + strf(": outcome without a message callback differs (%s)", k)); break; }
  }
  return v;
}

// ================================================================ C12
Plan gen_c12(Rng &r, long) {
  Gen g(r);
  g.p.add("limits").set("maxalloc", 64000000);
  SessOpt o;
  o.faults = r.chance(2, 3);
  o.damage = r.chance(1, 3);
  o.cancel = r.chance(2, 3);
  o.gf = true;
  o.ugs = true;
  o.peek = true;
  o.side = 22;
  o.writes = 4;
  session(g, 0, o);
  return g.p;
}
Viol eval_c12(const Plan &p0) {
  Viol v;
  Plan p = p0;
  if (uses_frac(p0)) {
    ExecOut cl = run_exec(p0, mode_clean());
    if (!cl.end_class.empty()) { count("discarded"); return v; }
    p = resolve(p0, cl);
  }
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty()) {
    count("discarded");
  }
  for (auto &i : p.items) {
    if (i.kind != "op") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id);
    if (!x || x->s("st") == "skip") continue;
    std::string k = i.str("kind");
    evaluated();
    if (k == "read") {
      if (!x->num("opts", 1)) viol(v, "C12-read-opts", desc(p, id) + " changed the input options");
      if (x->has("fsame") && !x->num("fsame")) viol(v, "C12-read-file", desc(p, id) + " changed the file");
    } else if (k == "trace") {
      if (!x->num("owned", 1)) viol(v, "C12-trace", desc(p, id) + " changed the fitting options or the bitmap");
      if (!x->num("origsame", 1)) viol(v, "C12-trace-copy", desc(p, id) + " of a copied bitmap changed the original");
    } else if (k == "write") {
      if (!x->num("owned", 1)) viol(v, "C12-write", desc(p, id) + " changed the splines or the output options");
      if (!x->num("still", 1)) viol(v, "C12-write-closed", desc(p, id) + " closed the caller's stream");
      if (!op_faulted(p, i) && x->num("p0") >= 0 && x->num("p1") >= 0 && x->num("p1") != x->num("p0") + x->num("len") && i.str("mode", "wb") == "wb")
        viol(v, "C12-write-pos", desc(p, id) + strf(" left the stream at %ld, the document is %ld bytes from %ld", x->num("p1"), x->num("len"), x->num("p0")));
    }
    if (x->num("seen")) viol(v, "C12-seen-" + k, desc(p, id) + strf(": the caller's objects were seen changed %ld times during the operation", x->num("seen")));
    count("peeks", x->num("peeks"));
  }
  return v;
}

// ================================================================ C13
const char *const kTraceKeys[] = {"bg", "cc", "cat", "cs", "ct", "et", "fi", "lrt", "lt", "rac", "rk", "ts", "dl", "dt", "nr", "cl", "pw", "wwf"};
Plan gen_c13(Rng &r, long) {
  Gen g(r);
  int img = g.image(16), f = g.file(img, in_formats(true));
  bool gf = g.fmt_of(f) == "gf";
  int n = 1 + (int)r.below(2);
  for (int k = 0; k < n; k++) {
    int c;
    Item &it = g.op(0, "cli", &c);
    it.set("file", f).set("fmt", r.pick(kWriteFormats));
    std::string fmt = it.str("fmt");
    g.fit(it, 40);
    if (r.chance(1, 4)) it.set("dpi", r.pick(std::vector<long>{72, 100, 300}));
    if (r.chance(1, 5)) it.set("progress", 1);
    if (r.chance(1, 8)) it.set("log", 1);
    if (r.chance(1, 8)) {
      it.set("dump", 1);
      if (r.chance(1, 6)) it.set("dumpdir", 1);
      else if (r.chance(1, 5)) it.set("dumpto", r.pick(std::vector<std::string>{"in", "insym", "out", "outsym"}));
    }
    if (r.chance(1, 4)) it.set("eqform", 1);
    if (r.chance(1, 4)) it.set("rbuf", r.pick(std::vector<long>{0, 16, 100, 4096}));
    if (r.chance(1, 4)) it.set("old", r.pick(std::vector<long>{0, 10, 100000}));
    if (r.chance(1, 4)) it.set("ofmt", fmt);
    if (r.chance(1, 5)) it.set("stdout", 1).set("ofmt", fmt);
    g.name(it);
    if (r.chance(1, 5)) it.set("inname", r.pick(std::vector<std::string>{"dot", "sub", "bare", "dots", "outdot"}));
    if (it.str("inname") == "bare" || r.chance(1, 10)) it.set("ifmt", "@own");
    Item base = it;
    switch (r.below(10)) {
      case 0: it.set("outname", r.pick(std::vector<std::string>{"@same", "@dot", "@link", "@sym"})).set("ofmt", "svg").set("stdout", 0L); it.kv.erase("old"); if (it.str("outname") == "@link" || it.str("outname") == "@sym") it.kv.erase("inname"); break;
      case 1: it.set("outname", r.pick(std::vector<std::string>{"@nodir", "noext", "x.xyz", "."})); it.kv.erase("ofmt"); it.set("stdout", 0L); it.kv.erase("old"); break;
      case 2:
        switch (r.below(8)) {
          case 6: it.set("inname", "bare"); it.kv.erase("ifmt"); break;
          case 7: it.set("info", r.pick(std::vector<std::string>{"help", "list-output-formats", "list-input-formats", "debug-arch"})); break;
          case 0: it.set("badopt", 1); break;
          case 5: it.set("badbg", r.pick(std::vector<std::string>{"12345", "1234567", "f", "ff00"})); break;
          case 1: it.set("noinput", 1); break;
          case 2: it.set("twoinputs", 1); break;
          case 3: it.set("ofmt", "nosuch"); break;
          default: it.set("ifmt", "nosuch"); break;
        }
        break;
      case 3: case 4: g.read_fault(c, f); break;
      case 5: g.write_fault(c); break;
      case 6: case 7: {
        Item &ft = g.fault(c, "crash");
        ft.set("frac", (long)r.below(10001)).set("part", r.pick(std::vector<long>{0, 30, 99}));
        break;
      }
      case 8: { Item &d = g.p.add("damage"); d.set("file", f).set("kind", "trunc").set("at", (long)r.below(65536)); break; }
      default: break;
    }
    if (r.chance(3, 4)) {
      // run again without faults, onto the same output name
      int c2;
      Item &again = g.op(0, "cli", &c2);
      long id2 = again.num("id");
      again.kv = base.kv;
      again.set("id", id2);
      again.kv.erase("old");
      if (!again.num("stdout")) again.set("nameof", c);
    }
    // the library's own result for the same input and options
    if (k == 0 && r.chance(1, 2)) {
      int rd, t, w;
      Item &ri = g.op(1, "read", &rd);
      ri.set("file", f).set("out", rd).set("cli_in", 1);
      if (base.has("bg")) ri.set("bg", base.str("bg"));
      Item &ti = g.op(1, "trace", &t);
      long tid = ti.num("id");
      for (const char *q : kTraceKeys) if (base.has(q)) ti.set(q, base.str(q));
      ti.set("id", tid).set("in", rd).set("out", t);
      Item &wi = g.op(1, "write", &w);
      wi.set("in", t).set("fmt", fmt).set("dpi", base.num("dpi", 72)).set("cliref", c);
      if (base.num("stdout")) wi.set("name", "");
      else wi.set("nameas", "c").set("nameof", c).set("olen", base.num("olen")).set("odots", base.num("odots")).set("oup", base.num("oup"));
    }
  }
  return g.p;
}
// the read, trace and write calls that stand for the tool run must still carry its options
bool cli_equals(const Plan &p, const Item &w, const Item &c) {
  const Item *t = p.find("op", "id", w.num("in")), *rd = t ? p.find("op", "id", t->num("in")) : nullptr;
  if (c.has("outname") || c.has("info") || !t || !rd || rd->str("bg") != c.str("bg") || rd->num("file") != c.num("file") || w.str("fmt") != c.str("fmt") || w.num("dpi") != c.num("dpi", 72)) return false;
  for (const char *q : kTraceKeys) if (t->str(q) != c.str(q)) return false;
  if (c.num("stdout") || w.has("name")) return c.num("stdout") && w.has("name");
  return w.str("nameas") == "c" && w.num("nameof") == c.num("nameof", c.num("id")) && w.num("olen") == c.num("olen") && w.num("odots") == c.num("odots") && w.num("oup") == c.num("oup");
}
bool cli_misuse(const Item &i) {
  return i.has("badopt") || i.has("badbg") || (i.num("dump") && !i.has("info") && (i.num("dumpdir") || i.str("dumpto").substr(0, 2) == "in" || (i.has("dumpto") && !i.num("stdout")))) || i.has("noinput") || i.has("twoinputs") || i.str("ofmt") == "nosuch" || i.str("ifmt") == "nosuch" || (i.str("inname") == "bare" && !i.has("ifmt") && !i.has("info")) || (i.has("outname") && (i.str("outname")[0] == '@' || i.str("outname") == "."));
}
Viol eval_c13(const Plan &p0) {
  Viol v;
  ExecOut ref = run_exec(p0, mode_clean());
  if (!ref.end_class.empty()) { count("discarded"); return v; }
  Plan p = resolve(p0, ref);
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty()) { if (discard(o)) return v; }
  std::set<long> damaged;
  for (auto &i : p.items) if (i.kind == "damage") damaged.insert(i.num("file"));
  for (auto &i : p.items) {
    if (i.kind != "op" || i.str("kind") != "cli") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id), *y = rec(ref, id);
    if (!x || !y) continue;
    evaluated();
    std::string st = x->s("st");
    bool misuse = cli_misuse(i), dmg = damaged.count(i.num("file")) != 0, f = op_faulted(p, i);
    if (st == "hang" || y->s("st") == "hang") { count("discarded"); continue; }
    if (!x->num("insame")) viol(v, "C13-input", desc(p, id) + " changed the input file");
    if (x->s("others") != "-" && !i.has("dumpto")) {
      std::string oth = x->s("others");
      bool dumpok = i.num("dump") && oth.find(".dump.") != std::string::npos && std::count(oth.begin(), oth.end(), ',') == 1;
      bool logok = i.num("log") && oth.find(".log,") != std::string::npos && std::count(oth.begin(), oth.end(), ',') == 1;
      if (!dumpok && !logok) viol(v, "C13-others", desc(p, id) + " created or changed other files: " + oth);
    }
    if (st == "crash") { count("crashes"); continue; }
    if (st != "exit") { viol(v, "C13-end", desc(p, id) + ": the tool did not exit normally: " + st + strf(" (code %ld signal %ld)", x->num("code"), x->num("sig"))); continue; }
    long code = x->num("code");
    if (code != 0 && !x->num("errlen")) viol(v, "C13-msg", desc(p, id) + strf(": exit status %ld without a message on standard error", code));
    if (i.has("info") && !misuse) {
      if (code != 0 && !f) viol(v, "C13-info", desc(p, id) + strf(": exit status %ld for -", code) + i.str("info"));
      if (code == 0 && !x->num("errlen") && !x->num("outlen")) viol(v, "C13-info", desc(p, id) + ": printed nothing for -" + i.str("info"));
      if (!i.num("stdout") && x->num("len") != i.num("old")) viol(v, "C13-info", desc(p, id) + ": wrote to the output file for -" + i.str("info"));
      continue;
    }
    if (misuse) {
      if (code == 0) viol(v, "C13-misuse", desc(p, id) + ": exit status 0 for a command line it must refuse");
      count("refused");
      continue;
    }
    if (y->num("code") != 0) { count("not_convertible"); continue; }
    if (!f && !dmg) {
      if (code != 0) viol(v, "C13-clean", desc(p, id) + strf(": exit status %ld without any fault: ", code) + x->s("err"));
      else if (x->s("doc") != y->s("doc") || x->num("lost")) viol(v, "C13-rerun", desc(p, id) + ": its output differs from that of an undisturbed run");
      else if (x->s("dump") != y->s("dump") || (x->s("dump") != "-") != (i.num("dump") != 0)) viol(v, "C13-dump", desc(p, id) + ": the bitmap dump is missing or differs from that of an undisturbed run");
      count("clean_runs");
    } else if (code == 0) {
      if (x->s("doc") != y->s("doc") || x->num("lost")) viol(v, "C13-false", desc(p, id) + ": exit status 0, but the output is not that of the whole input (" + x->s("err") + ")");
      if (x->s("dump") != y->s("dump")) viol(v, "C13-dump", desc(p, id) + ": exit status 0, but the bitmap dump it was asked for is missing or incomplete");
      count("faulted_complete");
    } else count("faulted_refused");
  }
  // fault-free tool against the library
  for (auto &i : p.items) {
    if (i.kind != "op" || !i.has("cliref")) continue;
    const OpRec *w = rec(ref, (int)i.num("id")), *c = rec(ref, (int)i.num("cliref"));
    const Item *ci = p.find("op", "id", i.num("cliref"));
    if (!w || !c || !ci || cli_misuse(*ci) || !cli_equals(p, i, *ci) || w->s("st") != "ok" || c->s("st") != "exit") continue;
    evaluated();
    if (c->num("code") == 0 && c->s("doc") != w->s("doc")) viol(v, "C13-incomplete", desc(p, (int)i.num("cliref")) + ": exit status 0, but its output is not the library's document for that input and options");
  }
  return v;
}

// ================================================================ C14
Plan gen_c14(Rng &r, long) {
  Gen g(r);
  g.p.add("limits").set("maxalloc", 64000000);
  int n = 1 + (int)r.below(2);
  bool gf = r.chance(1, 2);  // a UGS document carries the metrics of the last GF character
  for (int k = 0; k < n; k++) {
    int f = g.file(g.image(16), in_formats(gf));
    int w, w2;
    Item &it = g.op(0, "wrap", &w);
    it.set("file", f).set("fmt", r.pick(out_formats(!gf)));
    g.fit(it, 40);
    it.kv.erase("rk");
    if (r.chance(1, 3)) it.set("ibg", r.pick(std::vector<std::string>{"102030", "ff0000", "0000ff", "00ff00", "ff00ff", "000000", "fffeff"}));
    if (r.chance(1, 4)) it.set("dpi", 100);
    if (r.chance(1, 3)) it.set("rbuf", r.pick(std::vector<long>{0, 16, 100, 4096}));
    if (r.chance(1, 3)) it.set("tmpopts", 1);
    g.name(it);
    Item base = it;
    if (r.chance(1, 3)) it.set("twice", 1);
    switch (r.below(8)) {
      case 0: case 1: g.read_fault(w, f); break;
      case 2: case 3: g.write_fault(w); break;
      case 4: g.fault(w, "openfail").set("n", (long)r.below(2)).set("errno", 13); break;
      case 5: { Item &d = g.p.add("damage"); d.set("file", f).set("kind", "trunc").set("at", (long)r.below(65536)); break; }
      case 6: it.set("outname", r.pick(std::vector<std::string>{"noext", "x.xyz", "nodir/x.svg", ""})); if (r.chance(1, 3)) it.set("path", r.pick(std::vector<std::string>{"noext", "missing.bmp", "x.xyz", ""})).set("file", -1); break;
      default: if (r.chance(1, 2)) { g.damage(f); }
    }
    Item &again = g.op(0, "wrap", &w2);
    long id2 = again.num("id");
    again.kv = base.kv;
    again.set("id", id2);
    again.set("nameof", w);
    if (r.chance(1, 2)) again.set("cmp", 1);
  }
  return g.p;
}
Viol eval_c14(const Plan &p0) {
  Viol v;
  ExecMode rm = mode_clean();
  ExecOut ref = run_exec(p0, rm);
  if (!ref.end_class.empty()) {
    if (!discard(ref)) viol(v, "C14-end", "the C++ interface ended the process: " + end_text(p0, ref));
    return v;
  }
  Plan p = resolve(p0, ref);
  ExecMode m;
  m.iters = 3;
  ExecOut o = run_exec(p, m);
  if (!o.end_class.empty() && !discard(o)) viol(v, "C14-end", "the C++ interface ended the process: " + end_text(p, o));
  for (auto &i : p.items) {
    if (i.kind != "op" || i.str("kind") != "wrap") continue;
    int id = (int)i.num("id");
    bool trunc = false, othdmg = false;
    for (auto &d : p.items) if (d.kind == "damage" && d.num("file") == i.num("file")) { if (d.str("kind") == "trunc") trunc = true; else othdmg = true; }
    for (int it = 0; it < 3; it++) {
      const OpRec *x = iter_rec(o, id, it), *y = rec(ref, id);
      if (!x || !y) continue;
      evaluated();
      std::string st = x->s("st");
      bool f = op_faulted(p, i);
      if (st != "success" && st != "error") viol(v, "C14-throw", desc(p, id) + ": " + st);
      if (st == "error" && !x->num("errlen")) viol(v, "C14-text", desc(p, id) + ": error without text");
      if (st == "success" && y->s("st") == "success" && !othdmg && x->s("doc") != y->s("doc")) viol(v, "C14-false", desc(p, id) + ": success, but the output is not that of the whole input");
      if (st == "success" && y->s("st") == "error" && !othdmg) viol(v, "C14-false2", desc(p, id) + ": success under a fault where the fault-free call fails");
      if (!f && !trunc && !othdmg && st != y->s("st")) viol(v, "C14-clean", desc(p, id) + ": fails although the fault is gone: " + x->s("err"));
      std::string st2 = x->s("st2");
      if (st2 != "-") {
        count("repeated");
        if (st2 != "success" && st2 != "error") viol(v, "C14-throw", desc(p, id) + ", called again: " + st2);
        if (!othdmg && st2 == "success" && (y->s("st") != "success" || x->s("doc2") != y->s("doc"))) viol(v, "C14-again", desc(p, id) + ", called again: success, but the output is not that of the whole input");
        if (!trunc && !othdmg && st2 != y->s("st")) viol(v, "C14-clean", desc(p, id) + ": fails on the second call although the fault is gone");
      }
      if (x->num("streams")) viol(v, "C14-handles", desc(p, id) + ": left a file open");
      if (!x->num("opts", 1)) viol(v, "C14-opts", desc(p, id) + ": changed the option objects");
      if (!x->num("insame", 1)) viol(v, "C14-input", desc(p, id) + ": changed the input file");
      count(st == "success" ? "success" : "error");
    }
  }
  for (auto &i : p.items) {
    if (i.kind != "op" || !i.num("cmp")) continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(ref, id);
    if (!x || x->s("st") != "success" || i.str("fmt") == "ugs") continue;
    // the same conversion step by step through the C interface
    Plan q;
    for (auto &j : p.items) if (j.kind == "limits" || j.kind == "img" || j.kind == "file") q.items.push_back(j);
    q.add("op").set("s", 0l).set("id", 1).set("kind", "read").set("file", i.num("file")).set("out", 1).set("bg", i.str("ibg", "000000"));
    Item tr = i;
    for (const char *k : {"file", "fmt", "rbuf", "cmp", "outname", "ibg", "tmpopts", "twice", "nameof", "olen", "odots", "oup"}) tr.kv.erase(k);
    tr.set("id", 2).set("kind", "trace").set("s", 0l).set("in", 1).set("out", 2);
    if (!tr.has("bg") || tr.str("bg") == "none") tr.set("bg", "000000");
    if (!tr.has("cs")) tr.set("cs", 4);  // the two interfaces have different defaults
    if (!tr.has("fi")) tr.set("fi", 4);
    q.items.push_back(tr);
    q.add("op").set("s", 0l).set("id", 3).set("kind", "write").set("in", 2).set("fmt", i.str("fmt")).set("dpi", i.num("dpi", 72));
    if (i.has("outname")) q.items.back().set("name", i.str("outname"));
    else q.items.back().set("nameas", "w").set("nameof", i.num("nameof", id)).set("olen", i.num("olen")).set("odots", i.num("odots")).set("oup", i.num("oup"));
    ExecOut c = run_exec(q, mode_clean());
    const OpRec *y = rec(c, 3);
    if (!c.end_class.empty() || !y || y->s("st") != "ok") continue;
    evaluated();
    count("compared_with_c_interface");
    if (x->s("doc") != y->s("doc")) viol(v, "C14-options", desc(p, id) + ": the document is not that of the given file and options");
  }
  for (auto &i : p.items) {
    // without any fault an ordinary name must convert
    if (i.kind != "op" || i.str("kind") != "wrap") continue;
    const OpRec *y = rec(ref, (int)i.num("id"));
    if (!y) continue;
    std::string on = i.str("outname", "w");
    bool ordinary = i.num("file") > 0 && on != "noext" && on != "x.xyz" && on != "nodir/x.svg" && on != "";
    bool pov = i.str("fmt") == "pov" && i.num("cl");
    evaluated();
    if (ordinary && !pov && y->s("st") != "success") viol(v, "C14-refuse", desc(p, (int)i.num("id")) + ": a good conversion returns " + y->s("st") + " " + y->s("err"));
    if (!ordinary && y->s("st") != "error") viol(v, "C14-accept", desc(p, (int)i.num("id")) + ": an impossible conversion returns " + y->s("st"));
  }
  if (o.end_class.empty()) leak_check(v, "C14", p, o);
  return v;
}

// ================================================================ C15
Plan gen_c15(Rng &r, long) {
  Gen g(r);
  int img = g.image(22), m, t;
  g.op(0, "mkbmp", &m).set("img", img).set("out", m);
  Item &tr = g.op(0, "trace", &t);
  tr.set("in", m).set("out", t);
  g.fit(tr, 40);
  int nf = 2 + (int)r.below(4);
  std::vector<std::pair<int, std::string>> refs;
  for (int k = 0; k < nf; k++) {
    std::string fmt = r.pick(kWriteFormats);
    int w0, w1;
    g.op(0, "write", &w0).set("in", t).set("fmt", fmt).set("name", "doc." + fmt);
    refs.push_back({w0, fmt});
    int nv = 1 + (int)r.below(2);
    for (int i = 0; i < nv; i++) {
      Item &it = g.op(0, "write", &w1);
      it.set("in", t).set("fmt", fmt).set("name", "doc." + fmt).set("ref", w0);
      g.sink(it);
      if (r.chance(1, 5)) it.set("mode", r.pick(std::vector<std::string>{"w+b", "ab"}));
    }
  }
  if (r.chance(2, 3)) {
    // one stream, or several that are open at the same time
    std::vector<int> open;
    int ns = r.chance(1, 2) ? 1 : 2 + (int)r.below(2);
    for (int k = 0; k < ns; k++) {
      int s = g.next();
      Item &op = g.op(0, "open");
      op.set("stream", s);
      g.sink(op);
      open.push_back(s);
    }
    int nd = ns + 1 + (int)r.below(3);
    bool same = ns > 1 && r.chance(1, 2);  // documents of one format
    auto &f0 = refs[r.below(refs.size())];
    for (int i = 0; i < nd; i++) {
      auto &q = same ? f0 : refs[r.below(refs.size())];
      int s = i < ns ? open[i] : open[r.below(open.size())];
      g.op(0, "write").set("in", t).set("fmt", q.second).set("name", "doc." + q.second).set("stream", s).set("ref", q.first);
    }
    while (!open.empty()) {
      size_t k = r.below(open.size());
      g.op(0, "close").set("stream", open[k]);
      open.erase(open.begin() + k);
    }
  }
  return g.p;
}
Viol eval_c15(const Plan &p) {
  Viol v;
  ExecOut o = run_exec(p, mode_plain());
  if (!o.end_class.empty()) {
    if (!discard(o)) viol(v, "C15-end", "writing ended the process: " + end_text(p, o));
    return v;
  }
  for (auto &i : p.items) {
    if (i.kind != "op") continue;
    int id = (int)i.num("id");
    const OpRec *x = rec(o, id);
    if (!x || x->s("st") == "skip") continue;
    if (i.str("kind") == "write") {
      if (!x->num("still", 1)) viol(v, "C15-closed", desc(p, id) + " closed the stream");
      if (i.has("stream") || !i.has("ref")) continue;
      const OpRec *y = rec(o, (int)i.num("ref"));
      if (!y || y->s("st") != "ok") continue;
      evaluated();
      count("sinks");
      if (!x->num("pre")) viol(v, "C15-prefix-" + i.str("fmt"), desc(p, id) + " changed what was in the stream before the document");
      if (x->s("doc") != y->s("doc"))
        viol(v, "C15-doc-" + i.str("fmt"), desc(p, id) + strf(" to this destination differs (%ld bytes) from the one to a plain file (%ld bytes)", x->num("len"), y->num("len")));
      if (x->num("ferror") || x->num("cret")) viol(v, "C15-err-" + i.str("fmt"), desc(p, id) + " left the stream in an error state");
      if (x->s("msgs") != y->s("msgs")) viol(v, "C15-msg-" + i.str("fmt"), desc(p, id) + " reports " + x->s("msgs") + " for this destination");
    } else if (i.str("kind") == "close") {
      evaluated();
      count("multi_document_streams");
      if (!x->num("pre")) viol(v, "C15-prefix", "documents written to one stream changed what was there before");
      if (!x->num("concat", 1)) viol(v, "C15-concat", "documents written one after another to one stream are not intact");
    }
  }
  return v;
}

// ================================================================ C16
Plan gen_c16(Rng &r, long) {
  Gen g(r);
  g.p.add("limits").set("maxalloc", 64000000);
  int n = 1 + (int)r.below(3);
  if (r.chance(1, 6)) g.op(0, "bget").set("remove", 1);
  long pad = r.chance(1, 2) ? 4096 : 0;
  for (int k = 0; k < n; k++) {
    int f = g.file(g.image(16), {"png0", "png2", "png2", "png3", "png4", "png6", "png6", "bmp24", "p6"}), w;
    bool program = r.chance(1, 6);
    Item &it = g.op(0, program ? "bmain" : "brun", &w);
    it.set("file", f);
    if (!program) g.fit(it, 30);
    if (pad && !program) it.set("pad", pad);
    it.kv.erase("rk");
    if (!program && r.chance(1, 4)) it.set("ibg", r.pick(std::vector<std::string>{"00ff00", "ffffff", "102030"}));
    if (r.chance(1, 4)) it.set("dpi", 100);
    if (r.chance(1, 3)) it.set("rbuf", r.pick(std::vector<long>{0, 16, 100, 4096}));
    switch (r.below(12)) {
      case 0: g.read_fault(w, f); break;
      case 1: case 2: g.write_fault(w); break;
      case 3: case 4: g.fault(w, "openfail").set("n", (long)r.below(4)).set("errno", r.pick(std::vector<long>{13, 24, 28, 30})); break;
      case 5: { Item &d = g.p.add("damage"); d.set("file", f).set("kind", "trunc").set("at", (long)r.below(65536)); break; }
      case 6: if (program || r.chance(1, 2)) g.damage(f); else it.set("badjson", r.range(1, 6)); break;
      default: break;
    }
    int ng = (int)r.below(3);
    for (int i = 0; i < ng; i++) {
      int b;
      Item &gt = g.op(0, "bget", &b);
      gt.set("slack", r.pick(std::vector<long>{0, 0, 0, 1, 7, 1000, 100000, -1, -7, -100000}));
      if (r.chance(1, 12)) gt.set("remove", 1);
      if (r.chance(1, 4)) gt.set("nosize", 1);
      if (r.chance(1, 3)) g.storage(gt);
      if (r.chance(1, 3)) switch (r.below(4)) {
        case 0: g.fault(b, "openfail").set("n", (long)r.below(3)).set("errno", 24); break;
        case 1: g.fault(b, "seekfail").set("n", (long)r.below(5)); break;
        default: g.fault(b, "eio").set("frac", (long)r.below(10000)).set("once", (long)r.below(2));
      }
    }
  }
  return g.p;
}
Viol eval_c16(const Plan &p0) {
  Viol v;
  ExecOut all = run_exec(p0, mode_clean());
  if (!all.end_class.empty()) {
    if (!discard(all)) viol(v, "C16-end", "the buffer interface ended the process: " + end_text(p0, all));
    return v;
  }
  Plan p = resolve(p0, all);
  std::map<int, OpRec> ref;  // each conversion alone in a fresh process
  for (auto &i : p.items) if (i.kind == "op" && i.str("kind") != "bget") {
    ExecMode m = mode_clean();
    m.only_op = (int)i.num("id");
    ExecOut a = run_exec(p, m);
    const OpRec *x = rec(a, (int)i.num("id"));
    if (!a.end_class.empty() || !x) { count("discarded"); return v; }
    ref[(int)i.num("id")] = *x;
    if (i.str("kind") != "brun" || i.num("badjson") || x->s("st") != "success") continue;
    // the same conversion through the C++ interface with the options set one by one
    Plan q;
    for (auto &j : p.items) if (j.kind == "limits" || j.kind == "img" || j.kind == "file") q.items.push_back(j);
    Item tw = i;
    tw.set("kind", "wrap").set("fmt", "svg");
    q.items.push_back(tw);
    ExecOut b = run_exec(q, mode_clean());
    const OpRec *y = rec(b, (int)i.num("id"));
    if (!b.end_class.empty() || !y || y->s("st") != "success") continue;
    evaluated();
    count("compared_with_cpp_interface");
    if (y->s("doc") != x->s("doc")) viol(v, "C16-options", desc(p, (int)i.num("id")) + ": the drawing is not that of the given options");
  }
  ExecMode m;
  m.iters = 3;
  ExecOut o = run_exec(p, m);
  if (!o.end_class.empty() && !discard(o)) viol(v, "C16-end", "the buffer interface ended the process: " + end_text(p, o));
  for (int it = 0; it < 3; it++)
    for (auto &i : p.items) {
      if (i.kind != "op") continue;
      int id = (int)i.num("id");
      const OpRec *x = iter_rec(o, id, it);
      if (!x || x->s("st") == "skip") continue;
      evaluated();
      if (x->num("streams")) viol(v, "C16-handles", desc(p, id) + ": left a file open");
      if (i.str("kind") != "bget") {
        const OpRec &y = ref[id];
        std::string st = x->s("st");
        bool trunc = false, dmg = false, f = false;
        for (auto &d : p.items) {
          if (d.kind == "damage" && d.num("file") == i.num("file")) (d.str("kind") == "trunc" ? trunc : dmg) = true;
          if (d.kind == "fault" && d.num("op") == id) f = true;
        }
        const Item *file = p.find("file", "id", i.num("file"));
        bool good = file && file->str("fmt").compare(0, 3, "png") == 0 && !trunc && !dmg && !i.num("badjson");
        if (st != "success" && st != "error" && !(st == "throw" && i.num("badjson") > 3)) viol(v, "C16-throw", desc(p, id) + ": " + st);
        if (st == "error" && !x->num("errlen")) viol(v, "C16-text", desc(p, id) + ": error without text");
        if (!x->num("same")) viol(v, "C16-buffer", desc(p, id) + ": changed the caller's buffer");
        if (st == "success") {
          count("success");
          if (i.num("badjson")) viol(v, "C16-json", desc(p, id) + ": success with options that are not a JSON object");
          else if (!dmg && y.s("st") == "success" && x->s("doc") != y.s("doc")) viol(v, "C16-false", desc(p, id) + ": success, but the output is not the drawing of the given bytes");
          else if (!dmg && y.s("st") != "success") viol(v, "C16-false2", desc(p, id) + ": success under a fault where the fault-free call fails");
        } else {
          count("error");
          if (good && !f) viol(v, "C16-refuse", desc(p, id) + ": a good conversion fails: " + x->s("err"));
        }
        if (good && y.s("st") != "success") viol(v, "C16-refuse", desc(p, id) + ": a good conversion fails: " + y.s("err"));
      } else {
        bool f = op_faulted(p, i), size_ok = x->s("st") == "success", get_ok = x->s("get") == "success", fits = x->num("buf") >= x->num("flen");
        count("fetches");
        if (x->s("st") == "throw" || x->s("get") == "throw") viol(v, "C16-throw", desc(p, id) + ": an exception");
        if (!x->num("guard")) viol(v, "C16-overrun", desc(p, id) + ": wrote behind the caller's buffer");
        if (size_ok && (!x->num("exists") || x->s("value") != x->s("flen"))) viol(v, "C16-size", desc(p, id) + ": reports " + x->s("value") + " bytes of output, there are " + (x->num("exists") ? x->s("flen") : std::string("none")));
        if (get_ok && (!x->num("exists") || !fits || !x->num("match"))) viol(v, "C16-get", desc(p, id) + ": success without delivering the output");
        if ((x->s("st") == "error" && !x->num("errlen")) || (x->s("get") == "error" && !x->num("gerrlen"))) viol(v, "C16-text", desc(p, id) + ": error without text");
        if (!f && x->num("exists") && fits && (!get_ok || x->s("st") == "error")) viol(v, "C16-fetch", desc(p, id) + ": the output cannot be fetched although nothing failed");
      }
    }
  if (o.end_class.empty()) leak_check(v, "C16", p, o);
  return v;
}

// ================================================================ C17
Plan gen_c17(Rng &r, long) {
  Gen g(r);
  static const std::vector<std::string> own = {"foo", "foo2", "q", "bar", "zz9", "x-y", "fo", "pngx", "pn", "verylongsuffixname-beyond-the-short-string-buffer", "a", "sv", "svgz"};
  static const std::vector<std::string> built = {"png", "bmp", "pnm", "tga", "gf", "svg", "eps", "pdf", "dxf", "fig", "ai"};
  bool noinit = r.chance(1, 3);
  if (noinit) g.p.add("noinit");
  auto name = [&](int bw) {
    std::string n = r.below(10) < (uint64_t)bw ? r.pick(built) : r.pick(own);
    int m = (int)r.below(3);
    for (auto &c : n) if (m == 1 || (m == 2 && r.chance(1, 2))) c = (char)toupper(c);
    return n;
  };
  int t = 0;
  if (r.chance(1, 2)) {
    int m, img = g.image(8);
    g.op(0, "mkbmp", &m).set("img", img).set("out", m);
    g.op(0, "trace", &t).set("in", m).set("out", t);
  }
  int n = 4 + (int)r.below(30);
  for (int k = 0; k < n; k++) {
    int id;
    Item &it = g.op(0, "reg", &id);
    it.set("side", (long)r.below(2));
    switch (r.below(12)) {
      case 0: if (r.chance(1, 2)) it.set("what", "init"); else it.set("what", "locale").set("name", r.pick(std::vector<std::string>{"C", "de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9"})); break;
      case 1: case 2: case 3: case 4:
        it.set("what", "add").set("name", name(2)).set("fn", (long)r.below(4)).set("full", (long)r.below(2));
        if (r.chance(1, 6)) g.fault(id, "alloc").set("n", (long)r.below(6)).set("persist", (long)r.below(2));
        break;
      case 5: case 6: case 7:
        it.set("what", "find").set("name", r.chance(1, 12) ? "empty" : name(4)).set("file", (long)r.below(2));
        if (r.chance(1, 4)) it.set("dir", r.pick(std::vector<std::string>{"d.foo/", "./", "a.b.c/", "x.svg."}));
        break;
      case 8: it.set("what", "all"); break;
      case 9: it.set("what", "list"); break;
      default: it.set("what", "use").set("name", name(1)).set("in", t); if (r.chance(1, 3)) it.set("noopts", 1);
    }
  }
  for (int side = 0; side < 2; side++) { g.op(0, "reg").set("what", "all").set("side", side); g.op(0, "reg").set("what", "list").set("side", side); }
  return g.p;
}
Viol eval_c17(const Plan &p) {
  Viol v;
  ExecMode m;
  m.iters = 2;
  ExecOut o = run_exec(p, m);
  if (!o.end_class.empty()) { if (!discard(o)) viol(v, "C17-end", "the process ended: " + end_text(p, o)); return v; }
  for (int it = 0; it < 2; it++)
    for (auto &i : p.items) {
      if (i.kind != "op" || i.str("kind") != "reg") continue;
      const OpRec *x = iter_rec(o, (int)i.num("id"), it);
      if (!x) continue;
      evaluated();
      count(("reg_" + i.str("what")).c_str());
      if (x->s("bad") != "-") {
        std::string b = x->s("bad");
        viol(v, "C17-" + b.substr(0, b.find(':')), desc(p, (int)i.num("id")) + " " + i.str("what") + " " + i.str("name") + ": " + b);
      }
    }
  return v;
}

}  // namespace

const std::vector<Prop> kProps = {
  {"C01", gen_c01, eval_c01}, {"C02", gen_c02, eval_c02}, {"C03", gen_c03, eval_c03}, {"C04", gen_c04, eval_c04}, {"C05", gen_c05, eval_c05},
  {"C06", gen_c06, eval_c06}, {"C07", gen_c07, eval_c07}, {"C08", gen_c08, eval_c08}, {"C09", gen_c09, eval_c09}, {"C10", gen_c10, eval_c10},
  {"C11", gen_c11, eval_c11}, {"C12", gen_c12, eval_c12}, {"C13", gen_c13, eval_c13}, {"C14", gen_c14, eval_c14}, {"C15", gen_c15, eval_c15},
  {"C16", gen_c16, eval_c16},
  {"C17", gen_c17, eval_c17},
};
