// Image generator, file encoders (the reference model for the readers) and
// the damage a stored file can suffer.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <zlib.h>

// ---------------------------------------------------------------- images
static void put(Image &m, int x, int y, const uint8_t *c) {
  if (x < 0 || y < 0 || x >= m.w || y >= m.h) return;
  for (int k = 0; k < m.np; k++) m.px[((size_t)y * m.w + x) * m.np + k] = c[k];
}
Image make_image(const Item &it) {
  Image m;
  m.w = std::max(1l, it.num("w", 8));
  m.h = std::max(1l, it.num("h", 8));
  m.np = it.num("np", 1) == 3 ? 3 : 1;
  int nc = std::max(1l, it.num("colors", 2));
  Rng r(it.u64("seed", 1) * 77 + 5);
  std::string g = it.str("gen", "blobs");
  m.px.assign((size_t)m.w * m.h * m.np, 255);
  std::vector<std::vector<uint8_t>> pal;
  for (int i = 0; i < nc; i++) {
    std::vector<uint8_t> c(3);
    if (i == 0) c = {255, 255, 255};
    else if (i == 1) c = {0, 0, 0};
    else for (int k = 0; k < 3; k++) c[k] = (uint8_t)(r.chance(1, 3) ? 255 * r.below(2) : r.below(256));
    pal.push_back(c);
  }
  // the background is not always white
  if (r.chance(1, 4)) std::swap(pal[0], pal[r.below(pal.size())]);
  auto col = [&](int i) { return pal[i % pal.size()].data(); };
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) put(m, x, y, col(0));
  if (g == "noise") {
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) put(m, x, y, col((int)r.below(nc)));
  } else if (g == "sparse") {
    int n = 1 + (int)r.below(6);
    for (int i = 0; i < n; i++) put(m, (int)r.below(m.w), (int)r.below(m.h), col(1 + (int)r.below(std::max(1, nc - 1))));
  } else if (g == "checker") {
    int s = 1 + (int)r.below(4);
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) put(m, x, y, col((x / s + y / s) % 2 ? 1 : 0));
  } else if (g == "gradient") {
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
      uint8_t c[3] = {(uint8_t)(x * 255 / std::max(1, m.w - 1)), (uint8_t)(y * 255 / std::max(1, m.h - 1)), (uint8_t)((x * 7 + y * 13) & 255)};
      put(m, x, y, c);
    }
  } else if (g == "blobs" || g == "rings") {
    int n = 1 + (int)r.below(5);
    for (int i = 0; i < n; i++) {
      double cx = (double)r.below(m.w), cy = (double)r.below(m.h), rx = 1 + (double)r.below(m.w / 2 + 1), ry = 1 + (double)r.below(m.h / 2 + 1);
      const uint8_t *c = col(1 + (int)r.below(std::max(1, nc - 1)));
      const uint8_t *hole = g == "rings" ? col(0) : nullptr;
      for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
        double d = (x - cx) * (x - cx) / (rx * rx) + (y - cy) * (y - cy) / (ry * ry);
        if (d <= 1) put(m, x, y, hole && d < 0.35 ? hole : c);
      }
    }
  } else if (g == "rects") {
    int n = 1 + (int)r.below(5);
    for (int i = 0; i < n; i++) {
      int x0 = (int)r.below(m.w), y0 = (int)r.below(m.h), x1 = x0 + (int)r.below(m.w), y1 = y0 + (int)r.below(m.h);
      const uint8_t *c = col(1 + (int)r.below(std::max(1, nc - 1)));
      for (int y = y0; y <= y1 && y < m.h; y++) for (int x = x0; x <= x1 && x < m.w; x++) put(m, x, y, c);
    }
  } else if (g == "strokes") {
    int n = 1 + (int)r.below(5);
    for (int i = 0; i < n; i++) {
      double x = (double)r.below(m.w), y = (double)r.below(m.h), a = (double)r.below(628) / 100.0;
      const uint8_t *c = col(1 + (int)r.below(std::max(1, nc - 1)));
      int len = 3 + (int)r.below(m.w + m.h), th = 1 + (int)r.below(3);
      for (int s = 0; s < len; s++) {
        for (int dy = 0; dy < th; dy++) for (int dx = 0; dx < th; dx++) put(m, (int)x + dx, (int)y + dy, c);
        // small-angle steps without libm: rotate a direction vector
        double ca = 1 - a * a / 2 + a * a * a * a / 24 - a * a * a * a * a * a / 720, sa = a - a * a * a / 6 + a * a * a * a * a / 120 - a * a * a * a * a * a * a / 5040;
        x += ca; y += sa;
        a += ((double)r.below(41) - 20) / 60.0;
        if (a > 3.14159) a -= 6.28318;
        if (a < -3.14159) a += 6.28318;
      }
    }
  } else if (g == "frame") {
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++)
      if (x == 0 || y == 0 || x == m.w - 1 || y == m.h - 1) put(m, x, y, col(1));
  } else if (g == "manycolors") {
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
      uint32_t v = (uint32_t)(y * m.w + x) * 2654435761u;
      uint8_t c[3] = {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8)};
      put(m, x, y, c);
    }
  }  // "blank": nothing
  return m;
}

// ---------------------------------------------------------------- encoders
const std::vector<std::string> kReadFormats = {
  "p1", "p2", "p3", "p4", "p5", "p6",
  "bmp1", "bmp2", "bmp4", "bmp8", "bmp8g", "bmp16", "bmp16bf", "bmp24", "bmp32", "bmp32bf", "bmprle8", "bmprle4",
  "bmpos1", "bmpos4", "bmpos8", "bmpos24", "bmpos2x", "bmpv4", "bmpv5", "bmpenh",
  "tga1", "tga2", "tga3", "tga9", "tga10", "tga11", "tga2a", "tga10a",
  "png0", "png2", "png3", "png4", "png6", "gf"};
// good files of kinds the readers need not take: the image or a report, nothing else
const std::vector<std::string> kOddFormats = {"odd-p5", "odd-p6", "odd-tga16", "odd-tgaidx", "odd-tgapal"};
const std::vector<std::string> kWriteFormats = {
  "eps", "ai", "p2e", "sk", "svg", "ugs", "fig", "emf", "mif", "er", "dxf", "epd", "pdf", "cgm", "dr2d", "pov", "plt", "ild"};

static void le16(std::string &s, unsigned v) { s += (char)v; s += (char)(v >> 8); }
static void le32(std::string &s, uint32_t v) { le16(s, v & 0xffff); le16(s, v >> 16); }
static void be16(std::string &s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
static void be32(std::string &s, uint32_t v) { be16(s, v >> 16); be16(s, v & 0xffff); }
static const uint8_t *px(const Image &m, int x, int y) { return &m.px[((size_t)y * m.w + x) * m.np]; }
static void rgb_of(const Image &m, int x, int y, uint8_t c[3]) {
  const uint8_t *p = px(m, x, y);
  for (int k = 0; k < 3; k++) c[k] = m.np == 3 ? p[k] : p[0];
}
static uint8_t grey_of(const Image &m, int x, int y) {
  uint8_t c[3];
  rgb_of(m, x, y, c);
  return (uint8_t)((c[0] + c[1] + c[2]) / 3);
}
static Image blank_like(const Image &m, int np) {
  Image r;
  r.w = m.w; r.h = m.h; r.np = np;
  r.px.assign((size_t)m.w * m.h * np, 0);
  return r;
}
struct Indexed { std::vector<std::vector<uint8_t>> pal; std::vector<uint8_t> idx; };
static Indexed index_image(const Image &m, size_t maxcol, bool grey) {
  Indexed r;
  std::map<uint32_t, int> seen;
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
    uint8_t c[3];
    rgb_of(m, x, y, c);
    if (grey) c[0] = c[1] = c[2] = grey_of(m, x, y);
    uint32_t key = c[0] | c[1] << 8 | c[2] << 16;
    auto i = seen.find(key);
    int k;
    if (i != seen.end()) k = i->second;
    else if (r.pal.size() < maxcol) {
      k = (int)r.pal.size();
      seen[key] = k;
      r.pal.push_back({c[0], c[1], c[2]});
    } else k = (int)(key % maxcol);
    r.idx.push_back((uint8_t)k);
  }
  return r;
}
static void expect_from_pal(Encoded &e, const Image &m, const Indexed &ix, int np) {
  e.expect = blank_like(m, np);
  for (size_t i = 0; i < ix.idx.size(); i++)
    for (int k = 0; k < np; k++) e.expect.px[i * np + k] = ix.pal[ix.idx[i]][k];
}

static std::string pnm_ws(Rng &r, bool comments) {
  std::string s;
  switch (r.below(6)) {
    case 0: s = " "; break;
    case 1: s = "\n"; break;
    case 2: s = "\t "; break;
    case 3: s = "\r\n"; break;
    case 4: s = comments ? "\n# a comment 12 34\n" : "\n"; break;
    default: s = comments ? " #c\n#\n " : " "; break;
  }
  return s;
}
static Encoded enc_pnm(int t, const Image &m, Rng &r) {
  Encoded e;
  e.suffix = t == 1 || t == 4 ? "pbm" : t == 2 || t == 5 ? "pgm" : "ppm";
  if (r.chance(1, 4)) e.suffix = "pnm";
  std::string &s = e.bytes;
  bool com = r.chance(1, 2);
  s = strf("P%d", t) + pnm_ws(r, com);
  size_t d0 = s.size();
  s += strf("%d", m.w) + pnm_ws(r, com) + strf("%d", m.h);
  e.dims.push_back({d0, s.size()});
  int np = t == 3 || t == 6 ? 3 : 1;
  int maxval = 255;
  if (t == 2 || t == 3 || t == 5 || t == 6) {
    if (r.chance(1, 3)) {
      static const int mv[] = {1, 3, 15, 17, 51, 85, 100, 7, 254};
      maxval = mv[r.below(9)];
      if ((t == 2 || t == 3) && r.chance(1, 4)) maxval = r.chance(1, 2) ? 1023 : 65535;
    }
    s += pnm_ws(r, com) + strf("%d", maxval);
  }
  e.expect = blank_like(m, np);
  if (t == 1 || t == 4) {
    s += t == 1 ? pnm_ws(r, com) : "\n";
    bool tight = r.chance(1, 3);
    for (int y = 0; y < m.h; y++) {
      uint8_t cur = 0;
      for (int x = 0; x < m.w; x++) {
        int bit = grey_of(m, x, y) < 128;
        e.expect.px[(size_t)y * m.w + x] = bit ? 0 : 255;
        if (t == 1) {
          s += bit ? '1' : '0';
          if (!tight) s += x == m.w - 1 ? '\n' : ' ';
          else if ((x & 63) == 63) s += '\n';
        } else {
          cur = (uint8_t)(cur | bit << (7 - (x & 7)));
          if ((x & 7) == 7 || x == m.w - 1) { s += (char)cur; cur = 0; }
        }
      }
    }
    if (t == 1 && r.chance(1, 3)) while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
    if (t == 4 && r.chance(1, 5)) s += "trailing";
    return e;
  }
  s += t >= 4 ? "\n" : pnm_ws(r, com);
  e.tol = maxval == 255 || maxval == 1 ? 0 : 1;
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int k = 0; k < np; k++) {
    uint8_t c[3];
    rgb_of(m, x, y, c);
    int want = np == 1 ? grey_of(m, x, y) : c[k];
    int v = (int)((long)want * maxval / 255);
    e.expect.px[((size_t)y * m.w + x) * np + k] = (uint8_t)((long)v * 255 / maxval);
    e.last_token = t < 4 ? s.size() : 0;
    if (t < 4) s += strf("%d", v) + ((x == m.w - 1 && k == np - 1) ? (r.chance(1, 8) && com ? "\n# row\n" : "\n") : " ");
    else s += (char)v;
  }
  if (t < 4 && r.chance(1, 3)) while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
  if (t >= 4 && r.chance(1, 5)) s += "more\n";
  return e;
}

static Encoded enc_bmp(const std::string &fmt, const Image &m, Rng &r) {
  Encoded e;
  e.suffix = r.chance(1, 8) ? "BMP" : "bmp";
  int bpp = 24, hsize = 40, compr = 0;
  bool grey = false, bf = false;
  if (fmt == "bmp1" || fmt == "bmpos1") bpp = 1;
  else if (fmt == "bmp2") bpp = 2;
  else if (fmt == "bmpos2x") { static const int b[] = {1, 4, 8, 24}; bpp = b[r.below(4)]; }
  else if (fmt == "bmp4" || fmt == "bmpos4" || fmt == "bmprle4") bpp = 4;
  else if (fmt == "bmp8" || fmt == "bmp8g" || fmt == "bmpos8" || fmt == "bmprle8") bpp = 8;
  else if (fmt == "bmp16" || fmt == "bmp16bf") bpp = 16;
  else if (fmt == "bmp32" || fmt == "bmp32bf" || fmt == "bmpenh") bpp = 32;
  else if (fmt == "bmpv4" || fmt == "bmpv5") { static const int b[] = {24, 32, 16, 8}; bpp = b[r.below(4)]; }
  if (fmt == "bmp8g") grey = true;
  if (fmt == "bmprle8") compr = 1;
  if (fmt == "bmprle4") compr = 2;
  if (fmt == "bmp16bf" || fmt == "bmp32bf") bf = true;
  if (fmt == "bmpv4") hsize = 108;
  if (fmt == "bmpv5") hsize = 124;
  if (hsize > 40 && (bpp == 32 || bpp == 16)) bf = r.chance(1, 2);
  if (fmt == "bmpenh") { hsize = 56; bf = true; }
  bool os2 = fmt.compare(0, 5, "bmpos") == 0;
  if (os2) hsize = fmt == "bmpos2x" ? 64 : 12;
  if (bf) compr = 3;
  uint32_t mask[4] = {0, 0, 0, 0};
  int bits[3] = {8, 8, 8};
  if (bpp == 16) {
    bool six = bf && r.chance(1, 2);
    mask[0] = six ? 0xf800 : 0x7c00; mask[1] = six ? 0x07e0 : 0x03e0; mask[2] = 0x001f;
    bits[0] = 5; bits[1] = six ? 6 : 5; bits[2] = 5;
  } else if (bpp == 32) {
    mask[0] = 0xff0000; mask[1] = 0xff00; mask[2] = 0xff;
    if (bf && r.chance(1, 2)) { mask[0] = 0xff; mask[1] = 0xff00; mask[2] = 0xff0000; }
    if (bf && hsize > 40 && r.chance(1, 2)) mask[3] = 0xff000000u;
    if (bf && r.chance(1, 4)) { mask[0] = 0x3ff00000; mask[1] = 0xffc00; mask[2] = 0x3ff; mask[3] = 0; bits[0] = bits[1] = bits[2] = 10; }
  }
  Indexed ix;
  int npal = 0;
  if (bpp <= 8) {
    ix = index_image(m, (size_t)1 << bpp, grey);
    npal = 1 << bpp;
    if (hsize == 40 && r.chance(1, 3)) npal = std::max((int)ix.pal.size(), 2);
  }
  bool topdown = hsize >= 40 && !os2 && compr != 1 && compr != 2 && r.chance(1, 6);
  std::string pixels;
  int rowbytes = (m.w * bpp + 31) / 32 * 4;
  e.expect = blank_like(m, 3);
  if (bpp <= 8) expect_from_pal(e, m, ix, 3);
  auto yat = [&](int row) { return topdown ? row : m.h - 1 - row; };
  if (compr == 1 || compr == 2) {
    bool skips = r.chance(1, 3);  // leave pixels of colour 0 unset
    int x = 0;
    for (int row = 0; row < m.h; row++) {
      int y = m.h - 1 - row;
      bool line_end = true;
      while (x < m.w) {
        const uint8_t *p = &ix.idx[(size_t)y * m.w + x];
        int left = m.w - x, mode = (int)r.below(3);
        if (skips && p[0] == 0 && r.chance(2, 3)) {
          int nx = x, nrow = row;
          while (nrow < m.h && ix.idx[(size_t)(m.h - 1 - nrow) * m.w + nx] == 0)
            if (++nx == m.w) { nx = 0; nrow++; }
          if (nrow == m.h) { x = m.w; row = m.h - 1; break; }
          if (nx >= x && nx - x < 256 && nrow - row < 256) {
            pixels += '\0';
            pixels += '\2';
            pixels += (char)(nx - x);
            pixels += (char)(nrow - row);
            x = nx;
            if (nrow != row) { row = nrow - 1; line_end = false; break; }
            continue;
          }
          if (nrow != row) { x = m.w; break; }
        }
        if (mode == 0 && left >= 3) {  // absolute
          int n = std::min(left, 3 + (int)r.below(40));
          pixels += '\0';
          pixels += (char)n;
          size_t st = pixels.size();
          if (compr == 1) for (int i = 0; i < n; i++) pixels += (char)p[i];
          else for (int i = 0; i < n; i += 2) pixels += (char)(p[i] << 4 | (i + 1 < n ? p[i + 1] : 0));
          if ((pixels.size() - st) & 1) pixels += '\0';
          x += n;
        } else {
          int n = 1;
          if (compr == 1) while (n < left && n < 255 && p[n] == p[0]) n++;
          else {
            int b = left > 1 ? p[1] : 0;
            while (n < left && n < 255 && p[n] == (n & 1 ? b : p[0])) n++;
          }
          pixels += (char)n;
          pixels += compr == 1 ? (char)p[0] : (char)(p[0] << 4 | (left > 1 ? p[1] : 0));
          x += n;
        }
      }
      if (!line_end) continue;
      x = 0;
      if (row < m.h - 1) { pixels += '\0'; pixels += '\0'; }
    }
    pixels += '\0';
    pixels += '\1';
  } else {
    for (int row = 0; row < m.h; row++) {
      int y = yat(row);
      std::string line;
      uint8_t cur = 0;
      for (int x = 0; x < m.w; x++) {
        uint8_t c[3];
        rgb_of(m, x, y, c);
        uint8_t *ex = &e.expect.px[((size_t)y * m.w + x) * 3];
        if (bpp <= 8) {
          int per = 8 / bpp, pos = x % per;
          cur = (uint8_t)(cur | ix.idx[(size_t)y * m.w + x] << (8 - bpp * (pos + 1)));
          if (pos == per - 1 || x == m.w - 1) { line += (char)cur; cur = 0; }
        } else if (bpp == 24) {
          line += (char)c[2]; line += (char)c[1]; line += (char)c[0];
          memcpy(ex, c, 3);
        } else {
          uint32_t v = 0;
          for (int k = 0; k < 3; k++) {
            uint32_t mx = (1u << bits[k]) - 1, q = (uint32_t)c[k] * mx / 255;
            int sh = 0;
            while (!((mask[k] >> sh) & 1)) sh++;
            v |= q << sh;
            ex[k] = (uint8_t)((double)q * 255.0 / mx + 0.5);
          }
          if (mask[3]) v |= (uint32_t)r.below(256) << 24;
          else if (bpp == 32 && !bf && r.chance(1, 2)) v |= 0xff000000u;
          if (bpp == 16) le16(line, v); else le32(line, v);
        }
      }
      while ((int)line.size() < rowbytes) line += (char)(r.chance(1, 4) ? r.below(256) : 0);
      pixels += line;
    }
  }
  if (bpp == 16 || bits[0] == 10) e.tol = 1;
  std::string &s = e.bytes;
  int masks_after = hsize == 40 && bf ? 12 : 0;
  int entry = hsize == 12 ? 3 : 4;
  int gap = r.chance(1, 6) && bpp > 8 ? 4 * (1 + (int)r.below(20)) : 0;
  uint32_t offs = 14 + hsize + masks_after + npal * entry + gap;
  int array = os2 && r.chance(1, 3) ? 14 : 0;  // the first of the bitmaps of an OS/2 array
  bool more = array && r.chance(1, 2);
  if (array) {
    s = "BA";
    le32(s, 40);
    le32(s, more ? array + offs + (uint32_t)pixels.size() : 0);
    le16(s, r.chance(1, 2) ? 640 : 0);
    le16(s, r.chance(1, 2) ? 480 : 0);
  }
  s += "BM";
  le32(s, offs + (uint32_t)pixels.size());
  offs += array;
  le32(s, 0);
  le32(s, offs);
  le32(s, hsize);
  size_t d0 = s.size();
  if (hsize == 12) { le16(s, m.w); le16(s, m.h); }
  else { le32(s, m.w); le32(s, topdown ? (uint32_t)-m.h : (uint32_t)m.h); }
  e.dims.push_back({d0, s.size()});
  le16(s, 1);
  le16(s, bpp);
  if (hsize != 12) {
    le32(s, compr);
    le32(s, r.chance(1, 2) || compr ? (uint32_t)pixels.size() : 0);
    le32(s, 2835); le32(s, 2835);
    le32(s, bpp <= 8 && (npal != (1 << bpp) || r.chance(1, 2)) ? npal : 0);
    le32(s, 0);
    if (hsize > 40) {
      for (int k = 0; k < 4; k++) le32(s, bf ? mask[k] : 0);
      while (s.size() < (size_t)array + 14 + hsize) s += '\0';
    }
    if (masks_after) for (int k = 0; k < 3; k++) le32(s, mask[k]);
  }
  for (int i = 0; i < npal; i++) {
    uint8_t c[3] = {0, 0, 0};
    if (i < (int)ix.pal.size()) memcpy(c, ix.pal[i].data(), 3);
    s += (char)c[2]; s += (char)c[1]; s += (char)c[0];
    if (entry == 4) s += '\0';
  }
  s.append(gap, '\0');
  s += pixels;
  if (more) s += s.substr(0, array + 14 + hsize);
  else if (r.chance(1, 5)) s.append(1 + r.below(2 * rowbytes + 3), '\7');
  bool allgrey = bpp <= 8;
  for (auto &c : ix.pal) if (c[0] != c[1] || c[1] != c[2]) allgrey = false;
  e.np_any = allgrey;
  return e;
}

static Encoded enc_odd(const std::string &fmt, const Image &m, Rng &r) {
  Encoded e;
  std::string &s = e.bytes;
  if (fmt == "odd-p5" || fmt == "odd-p6") {  // samples of two bytes
    int np = fmt == "odd-p5" ? 1 : 3;
    static const int mv[] = {256, 257, 1023, 4095, 65535, 65535, 510, 32767};
    int maxval = mv[r.below(8)];
    e.suffix = np == 1 ? "pgm" : "ppm";
    s = strf("P%d\n", np == 1 ? 5 : 6);
    size_t d0 = s.size();
    s += strf("%d %d", m.w, m.h);
    e.dims.push_back({d0, s.size()});
    s += strf("\n%d\n", maxval);
    e.expect = blank_like(m, np);
    e.tol = 1;
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int k = 0; k < np; k++) {
      uint8_t c[3];
      rgb_of(m, x, y, c);
      int v = (int)((long)(np == 1 ? grey_of(m, x, y) : c[k]) * maxval / 255);
      e.expect.px[((size_t)y * m.w + x) * np + k] = (uint8_t)((long)v * 255 / maxval);
      be16(s, v);
    }
    return e;
  }
  // TGA with 16 bits for a colour, an index or a palette entry; channels are 0 or 31
  bool map = fmt != "odd-tga16", wide = fmt == "odd-tgaidx";
  e.suffix = "tga";
  s += '\0'; s += (char)map; s += (char)(map ? 1 : 2);
  le16(s, 0); le16(s, map ? 8 : 0); s += (char)(map ? (wide ? 24 : r.chance(1, 2) ? 15 : 16) : 0);
  le16(s, 0); le16(s, 0);
  size_t d0 = s.size();
  le16(s, m.w); le16(s, m.h);
  e.dims.push_back({d0, s.size()});
  s += (char)(!map ? (r.chance(1, 2) ? 15 : 16) : wide ? 16 : 8);
  s += (char)0x20;
  for (int i = 0; map && i < 8; i++) {
    if (wide) for (int k = 2; k >= 0; k--) s += (char)(i >> k & 1 ? 255 : 0);
    else le16(s, (i & 1 ? 31u << 10 : 0) | (i & 2 ? 31u << 5 : 0) | (i & 4 ? 31u : 0));
  }
  e.expect = blank_like(m, 3);
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
    uint8_t c[3];
    rgb_of(m, x, y, c);
    unsigned i = 0;
    for (int k = 0; k < 3; k++) {
      bool on = c[k] >= 128;
      if (on) i |= 1u << k;
      e.expect.px[((size_t)y * m.w + x) * 3 + k] = on ? 255 : 0;
    }
    if (!map) le16(s, (i & 1 ? 31u << 10 : 0) | (i & 2 ? 31u << 5 : 0) | (i & 4 ? 31u : 0));
    else if (wide) le16(s, i);
    else s += (char)i;
  }
  return e;
}
static Encoded enc_tga(const std::string &fmt, const Image &m, Rng &r) {
  Encoded e;
  e.suffix = "tga";
  bool alpha = fmt.back() == 'a';
  int type = atoi(fmt.c_str() + 3);
  bool rle = type >= 9;
  int base = rle ? type - 8 : type;
  int desc = 0, cmlen = 0, cmidx = 0, cmbits = 24;
  bool right = r.chance(1, 6), top = r.chance(1, 3);
  if (right) desc |= 0x10;
  if (top) desc |= 0x20;
  if (alpha) desc |= 8;
  Indexed ix;
  if (base == 1) {
    ix = index_image(m, r.chance(1, 3) ? 16 : 200, false);
    cmlen = (int)ix.pal.size();
    if (r.chance(1, 4)) cmidx = (int)r.below(30);
    if (r.chance(1, 4)) cmbits = 32;
  }
  int bpp = base == 1 ? 8 : base == 3 ? 8 : alpha ? 32 : 24;
  std::string id(r.chance(1, 3) ? r.below(40) : 0, 'i');
  std::string &s = e.bytes;
  s += (char)id.size();
  s += (char)(base == 1);
  s += (char)type;
  le16(s, cmidx); le16(s, cmlen); s += (char)(base == 1 ? cmbits : 0);
  le16(s, 0); le16(s, 0);
  size_t d0 = s.size();
  le16(s, m.w); le16(s, m.h);
  e.dims.push_back({d0, s.size()});
  s += (char)bpp;
  s += (char)desc;
  s += id;
  for (int i = 0; i < cmlen; i++) {
    s += (char)ix.pal[i][2]; s += (char)ix.pal[i][1]; s += (char)ix.pal[i][0];
    if (cmbits == 32) s += (char)255;
  }
  e.expect = blank_like(m, 3);
  std::vector<std::string> pel;
  for (int row = 0; row < m.h; row++) for (int cx = 0; cx < m.w; cx++) {
    int y = top ? row : m.h - 1 - row, x = right ? m.w - 1 - cx : cx;
    uint8_t c[3];
    rgb_of(m, x, y, c);
    uint8_t *ex = &e.expect.px[((size_t)y * m.w + x) * 3];
    std::string p;
    if (base == 1) {
      int k = ix.idx[(size_t)y * m.w + x];
      p += (char)(k + cmidx);
      memcpy(ex, ix.pal[k].data(), 3);
    } else if (base == 3) {
      uint8_t g = grey_of(m, x, y);
      p += (char)g;
      ex[0] = ex[1] = ex[2] = g;
    } else {
      p += (char)c[2]; p += (char)c[1]; p += (char)c[0];
      if (alpha) p += (char)r.below(256);
      memcpy(ex, c, 3);
    }
    pel.push_back(p);
  }
  if (!rle) for (auto &p : pel) s += p;
  else {
    bool cross = r.chance(1, 2);  // packets may run across scan lines
    size_t i = 0;
    while (i < pel.size()) {
      size_t lim = pel.size() - i;
      if (!cross) lim = std::min(lim, (size_t)m.w - i % m.w);
      if (lim > 128) lim = 128;
      size_t n = 1;
      while (n < lim && pel[i + n] == pel[i]) n++;
      if (n > 1 || r.chance(1, 6)) {
        s += (char)(0x80 | (n - 1));
        s += pel[i];
      } else {
        n = 1;
        while (n < lim && !(i + n + 1 < pel.size() && n + 1 < lim && pel[i + n] == pel[i + n + 1])) n++;
        s += (char)(n - 1);
        for (size_t k = 0; k < n; k++) s += pel[i + k];
      }
      i += n;
    }
  }
  if (r.chance(1, 2)) {
    le32(s, 0); le32(s, 0);
    s += "TRUEVISION-XFILE.";
    s += '\0';
  }
  return e;
}

static void png_chunk(std::string &s, const char *type, const std::string &data) {
  be32(s, (uint32_t)data.size());
  std::string b = std::string(type, 4) + data;
  s += b;
  be32(s, (uint32_t)crc32(0, (const Bytef *)b.data(), (uInt)b.size()));
}
static Encoded enc_png(int ct, const Image &m, Rng &r) {
  Encoded e;
  e.suffix = "png";
  static const int d0[] = {1, 2, 4, 8, 16}, d3[] = {1, 2, 4, 8};
  int depth = ct == 0 ? d0[r.below(5)] : ct == 3 ? d3[r.below(4)] : (r.chance(1, 3) ? 16 : 8);
  Indexed ix;
  if (ct == 3) ix = index_image(m, (size_t)1 << depth, false);
  int outnp = ct == 0 || ct == 4 ? 1 : 3;
  e.expect = blank_like(m, outnp);
  int chans = ct == 0 || ct == 3 ? 1 : ct == 4 ? 2 : ct == 2 ? 3 : 4;
  // samples
  std::vector<unsigned> smp((size_t)m.w * m.h * chans);
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
    uint8_t c[3];
    rgb_of(m, x, y, c);
    unsigned *o = &smp[((size_t)y * m.w + x) * chans];
    uint8_t *ex = &e.expect.px[((size_t)y * m.w + x) * outnp];
    if (ct == 3) {
      int k = ix.idx[(size_t)y * m.w + x];
      o[0] = k;
      memcpy(ex, ix.pal[k].data(), 3);
    } else if (outnp == 1) {
      unsigned g = grey_of(m, x, y), mx = (1u << depth) - 1;
      if (depth == 16) { o[0] = g << 8 | (unsigned)r.below(256); ex[0] = (uint8_t)g; }
      else { o[0] = g * mx / 255; ex[0] = (uint8_t)(o[0] * 255 / mx); }
    } else for (int k = 0; k < 3; k++) {
      o[k] = depth == 16 ? (unsigned)c[k] << 8 | (unsigned)r.below(256) : c[k];
      ex[k] = c[k];
    }
    if (ct == 4 || ct == 6) o[chans - 1] = depth == 16 ? (unsigned)r.below(65536) : (unsigned)r.below(256);
  }
  bool inter = r.chance(1, 4);
  std::string raw;
  int bpp = std::max(1, chans * depth / 8);
  auto emit = [&](int x0, int y0, int dx, int dy) {
    std::string prev;
    for (int y = y0; y < m.h; y += dy) {
      std::string line;
      uint8_t cur = 0;
      int used = 0;
      for (int x = x0; x < m.w; x += dx)
        for (int k = 0; k < chans; k++) {
          unsigned v = smp[((size_t)y * m.w + x) * chans + k];
          if (depth == 16) be16(line, v);
          else if (depth == 8) line += (char)v;
          else {
            cur = (uint8_t)(cur | v << (8 - depth - used));
            used += depth;
            if (used == 8) { line += (char)cur; cur = 0; used = 0; }
          }
        }
      if (used) line += (char)cur;
      if (line.empty()) return;
      int f = (int)r.below(5);
      raw += (char)f;
      for (size_t i = 0; i < line.size(); i++) {
        int a = i >= (size_t)bpp ? (uint8_t)line[i - bpp] : 0, b = prev.empty() ? 0 : (uint8_t)prev[i], c = i >= (size_t)bpp && !prev.empty() ? (uint8_t)prev[i - bpp] : 0;
        int pred = 0;
        if (f == 1) pred = a;
        else if (f == 2) pred = b;
        else if (f == 3) pred = (a + b) / 2;
        else if (f == 4) {
          int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c);
          pred = pa <= pb && pa <= pc ? a : pb <= pc ? b : c;
        }
        raw += (char)((uint8_t)line[i] - pred);
      }
      prev = line;
    }
  };
  if (!inter) emit(0, 0, 1, 1);
  else {
    emit(0, 0, 8, 8); emit(4, 0, 8, 8); emit(0, 4, 4, 8); emit(2, 0, 4, 4); emit(0, 2, 2, 4); emit(1, 0, 2, 2); emit(0, 1, 1, 2);
  }
  uLongf zl = compressBound((uLong)raw.size());
  std::string z(zl, 0);
  compress2((Bytef *)&z[0], &zl, (const Bytef *)raw.data(), (uLong)raw.size(), (int)r.below(10));
  z.resize(zl);
  std::string &s = e.bytes;
  s = "\x89PNG\r\n\x1a\n";
  std::string h;
  be32(h, m.w); be32(h, m.h);
  h += (char)depth; h += (char)ct; h += '\0'; h += '\0'; h += (char)inter;
  png_chunk(s, "IHDR", h);
  e.dims.push_back({16, 24});
  if (r.chance(1, 3)) png_chunk(s, "tEXt", std::string("Comment\0simulated", 17));
  if (ct == 3) {
    std::string p;
    for (auto &c : ix.pal) { p += (char)c[0]; p += (char)c[1]; p += (char)c[2]; }
    png_chunk(s, "PLTE", p);
    if (r.chance(1, 4)) png_chunk(s, "tRNS", std::string(1 + r.below(ix.pal.size()), '\x80'));
  } else if ((ct == 0 || ct == 2) && r.chance(1, 5)) {
    std::string t;
    for (int k = 0; k < (ct == 0 ? 1 : 3); k++) be16(t, smp[k]);
    png_chunk(s, "tRNS", t);
  }
  size_t at = 0, piece = r.chance(1, 3) ? 1 + r.below(64) : z.size();
  while (at < z.size()) { png_chunk(s, "IDAT", z.substr(at, piece)); at += piece; }
  png_chunk(s, "IEND", "");
  return e;
}

static Encoded enc_gf(const Image &m0, Rng &r) {
  Encoded e;
  e.suffix = "gf";
  Image m = m0;
  std::vector<uint8_t> ink((size_t)m.w * m.h);
  bool any = false;
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) any |= (ink[(size_t)y * m.w + x] = grey_of(m, x, y) < 128);
  if (!any) ink[r.below(ink.size())] = 1;
  int x0 = m.w, x1 = -1, y0 = m.h, y1 = -1;
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (ink[(size_t)y * m.w + x]) {
    x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y);
  }
  e.expect.w = x1 - x0 + 1; e.expect.h = y1 - y0 + 1; e.expect.np = 1;
  for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) e.expect.px.push_back(ink[(size_t)y * m.w + x] ? 255 : 0);
  std::string &s = e.bytes;
  s += (char)247; s += (char)131; s += (char)4; s += "sim.";
  int code = 33 + (int)r.below(90);
  e.charcode = r.chance(1, 2) ? code : 0;
  int nother = (int)r.below(3);
  struct Loc { int code; uint32_t at; };
  std::vector<Loc> locs;
  auto character = [&](int cc, const std::vector<uint8_t> &k, int w, int h) {
    auto special = [&] {
      int len = (int)r.below(5), n = r.chance(1, 4) ? 300 : (int)r.below(20);
      if (len == 4) { s += (char)243; be32(s, 12345); return; }
      if (len == 0) n = std::min(n, 255);
      s += (char)(239 + len);
      for (int k = len; k >= 0; k--) s += (char)(n >> (8 * k));
      for (int k = 0; k < n; k++) s += (char)(r.chance(1, 2) ? 69 : 'a');
    };
    if (r.chance(1, 3)) special();
    locs.push_back({cc, (uint32_t)s.size()});
    if (r.chance(1, 4)) special();
    long minc = r.range(0, 5), minr = r.range(0, 5);
    bool boc1 = w < 200 && h < 200 && r.chance(1, 2);
    if (!boc1 && r.chance(1, 2)) { minc = r.range(-9, 5); minr = r.range(-9, 5); }
    if (boc1) {
      s += (char)68; s += (char)cc; s += (char)w; s += (char)(minc + w); s += (char)(h - 1); s += (char)(minr + h - 1);
    } else {
      s += (char)67; be32(s, cc); be32(s, 0xffffffffu); be32(s, (uint32_t)minc); be32(s, (uint32_t)(minc + w));
      be32(s, (uint32_t)minr); be32(s, (uint32_t)(minr + h - 1));
    }
    auto paint = [&](int n) {
      int wide = r.chance(1, 8) ? (int)r.below(4) : 0;
      if (n < 64 && wide < 1) s += (char)n;
      else if (n < 256 && wide < 2) { s += (char)64; s += (char)n; }
      else if (wide < 3) { s += (char)65; be16(s, n); }
      else { s += (char)66; s += '\0'; be16(s, n); }
    };
    int skip = 0;
    for (int y = 0; y < h; y++) {
      const uint8_t *row = &k[(size_t)y * w];
      int last = w - 1;
      while (last >= 0 && !row[last]) last--;
      int x = 0;
      bool black = false;
      if (y > 0) {
        if (last < 0) { skip++; continue; }
        int first = 0;
        while (!row[first]) first++;
        if (skip == 0 && first <= 164 && r.chance(1, 2)) {
          s += (char)(74 + first);
          x = first;
          black = true;
        } else {
          int wide = r.chance(1, 6) ? (int)r.below(4) : 0;
          if (skip == 0 && wide < 1) s += (char)70;
          else if (skip < 256 && wide < 2) { s += (char)71; s += (char)skip; }
          else if (wide < 3) { s += (char)72; be16(s, skip); }
          else { s += (char)73; s += '\0'; be16(s, skip); }
        }
        skip = 0;
      }
      if (r.chance(1, 8)) s += (char)244;
      else if (r.chance(1, 10)) special();
      while (x <= last) {
        int n = 0;
        while (x + n <= last && (row[x + n] != 0) == black) n++;
        paint(n);
        x += n;
        black = !black;
      }
    }
    if (r.chance(1, 6)) s += (char)244;
    s += (char)69;
  };
  std::vector<uint8_t> dot(4, 1);
  // a requested character may have others around it; "first" means lowest code
  int step = e.charcode && r.chance(1, 2) ? -1 : 1;
  int before = (int)r.below(nother + 1);
  for (int i = 0; i < before; i++) character(code + step * (1 + i), dot, 2, 2);
  character(code, ink, m.w, m.h);
  for (int i = before; i < nother; i++) character(code + step * (1 + i), dot, 2, 2);
  uint32_t post = (uint32_t)s.size();
  s += (char)248;
  be32(s, post); be32(s, 10 << 20); be32(s, 0xabcd); be32(s, 5 << 16); be32(s, 5 << 16);
  be32(s, 0); be32(s, m.w); be32(s, 0); be32(s, m.h);
  for (auto &l : locs) {
    if (r.chance(1, 2)) { s += (char)246; s += (char)l.code; s += (char)m.w; }
    else { s += (char)245; s += (char)l.code; be32(s, (uint32_t)m.w << 16); be32(s, 0); }
    be32(s, 1000); be32(s, l.at);
  }
  s += (char)249;
  be32(s, post);
  s += (char)131;
  int pad = 4 + (int)(4 - (s.size() + 4) % 4) % 4;
  s.append(pad, (char)223);
  return e;
}

Encoded encode_file(const Item &f, const Image &m) {
  std::string fmt = f.str("fmt", "p5");
  Rng r(f.u64("var", 1) * 1000003 + 17);
  if (fmt[0] == 'p' && fmt.size() == 2) return enc_pnm(fmt[1] - '0', m, r);
  if (fmt.compare(0, 3, "bmp") == 0) return enc_bmp(fmt, m, r);
  if (fmt.compare(0, 4, "odd-") == 0) return enc_odd(fmt, m, r);
  if (fmt.compare(0, 3, "tga") == 0) return enc_tga(fmt, m, r);
  if (fmt.compare(0, 3, "png") == 0) return enc_png(fmt[3] - '0', m, r);
  if (fmt == "gf") return enc_gf(m, r);
  Encoded e;
  e.suffix = fmt;
  return e;
}

// ---------------------------------------------------------------- damage
bool affordable(const std::string &fmt, const std::string &b, double kMax) {
  auto u8 = [&](size_t i) { return i < b.size() ? (uint32_t)(uint8_t)b[i] : 0u; };
  auto l16 = [&](size_t i) { return u8(i) | u8(i + 1) << 8; };
  auto l32 = [&](size_t i) { return l16(i) | l16(i + 2) << 16; };
  double w = 0, h = 0;
  if (fmt[0] == 'p' && fmt.size() == 2) {
    // every number near the start counts
    double prod = 1;
    int n = 0;
    size_t i = 2;
    while (i < b.size() && n < 2) {
      if (b[i] == '#') { while (i < b.size() && b[i] != '\n') i++; continue; }
      if (isdigit((unsigned char)b[i])) {
        double v = 0;
        while (i < b.size() && isdigit((unsigned char)b[i])) v = v * 10 + (b[i++] - '0');
        // values wrap when stored in 32 bits
        if (v > 4e9) return false;
        prod *= v;
        n++;
      } else i++;
    }
    return prod <= kMax;
  }
  if (fmt.compare(0, 3, "bmp") == 0) {
    size_t o = 0;
    while (b.compare(o, 2, "BA") == 0 && o + 14 < b.size()) o += 14;
    if (l32(o + 14) == 12) { w = l16(o + 18); h = l16(o + 20); }
    else { w = (double)labs((long)(int32_t)l32(o + 18)); h = (double)labs((long)(int32_t)l32(o + 22)); }
    return w * h <= kMax;
  }
  if (fmt.compare(0, 3, "tga") == 0) return (double)l16(12) * l16(14) <= kMax;
  if (fmt.compare(0, 3, "png") == 0) {
    auto b32 = [&](size_t i) { return (double)(u8(i) << 24 | u8(i + 1) << 16 | u8(i + 2) << 8 | u8(i + 3)); };
    return b32(16) * b32(20) <= kMax;
  }
  if (fmt == "gf") {
    auto s32 = [&](size_t i) { return (double)(int32_t)(u8(i) << 24 | u8(i + 1) << 16 | u8(i + 2) << 8 | u8(i + 3)); };
    for (size_t i = 0; i < b.size(); i++) {
      if (u8(i) == 67 && fabs(s32(i + 13) - s32(i + 9) + 1) * fabs(s32(i + 21) - s32(i + 17) + 1) > kMax) return false;
      if (u8(i) == 68 && (double)(u8(i + 2) + 1) * (u8(i + 4) + 1) > kMax) return false;
    }
  }
  return true;
}
// Where the numbers a format is made of are stored in an intact file.
struct Field { size_t at; int n; char type; bool jump = false; };  // n bytes, 'b'ig or 'l'ittle endian, or decimal 't'ext; jump: says where to go on
static std::vector<Field> fields_of(const std::string &fmt, const std::string &b) {
  std::vector<Field> f;
  auto u8 = [&](size_t i) { return i < b.size() ? (uint32_t)(uint8_t)b[i] : 0u; };
  auto b32 = [&](size_t i) { return u8(i) << 24 | u8(i + 1) << 16 | u8(i + 2) << 8 | u8(i + 3); };
  auto run = [&](size_t at, std::initializer_list<int> ns, char type) { for (int n : ns) { f.push_back({at, n, type}); at += n; } };
  if (fmt[0] == 'p' && fmt.size() == 2) {
    int want = 1 + (fmt[1] == '1' || fmt[1] == '4' ? 2 : 3) + (fmt[1] < '4' ? 4 : 0);
    size_t i = 1;
    while (i < b.size() && (int)f.size() < want) {
      if (b[i] == '#') { while (i < b.size() && b[i] != '\n') i++; continue; }
      if (!isdigit(u8(i))) { i++; continue; }
      size_t e = i;
      while (e < b.size() && isdigit(u8(e))) e++;
      f.push_back({i, (int)(e - i), 't'});
      i = e;
    }
  } else if (fmt.compare(0, 3, "bmp") == 0) {
    size_t o = b.compare(0, 2, "BA") == 0 ? 14 : 0;
    if (o) run(0, {1, 1, 4, 4, 2, 2, 1, 1}, 'l');
    run(o + 2, {4, 2, 2, 4, 4}, 'l');
    if (u8(o + 14) == 12) run(o + 18, {2, 2, 2, 2}, 'l');
    else run(o + 18, {4, 4, 2, 2, 4, 4, 4, 4, 4, 4}, 'l');
    size_t at = u8(o + 10) | u8(o + 11) << 8;
    if (u8(o + 30) && u8(o + 14) != 12) for (int k = 0; k < 12; k++) f.push_back({at + k, 1, 'l'});
  } else if (fmt.compare(0, 3, "tga") == 0) {
    run(0, {1, 1, 1, 2, 2, 1, 2, 2, 2, 2, 1, 1}, 'l');
    size_t at = 18 + u8(0) + (u8(1) ? (u8(5) | u8(6) << 8) * ((u8(7) + 7) / 8) : 0);
    if (u8(2) > 8) for (int k = 0; k < 12; k++) f.push_back({at + k, 1, 'l'});
    if (b.size() > 60) run(b.size() - 26, {4, 4}, 'l');
  } else if (fmt.compare(0, 3, "png") == 0) {
    for (size_t at = 8; at + 12 <= b.size(); at += 12 + b32(at)) {
      f.push_back({at, 4, 'b', true});
      if (b.compare(at + 4, 4, "IHDR") == 0) run(at + 8, {4, 4, 1, 1, 1, 1, 1}, 'b');
      else if (b32(at) > 0) f.push_back({at + 8, 1, 'b'});
    }
  } else if (fmt == "gf") {
    size_t i = 0;
    bool post = false;
    run(0, {1, 1, 1}, 'b');
    i = 3 + u8(2);
    while (i < b.size()) {
      uint32_t c = u8(i);
      if (c == 67) { run(i, {1, 4, 4, 4, 4, 4, 4}, 'b'); i += 25; }
      else if (c == 68) { run(i, {1, 1, 1, 1, 1, 1}, 'b'); i += 6; }
      else if (c == 239) { run(i, {1, 1}, 'b'); f.back().jump = true; i += 2 + u8(i + 1); }
      else if (c == 240) { run(i, {1, 2}, 'b'); f.back().jump = true; i += 3 + (u8(i + 1) << 8 | u8(i + 2)); }
      else if (c == 241) { run(i, {1, 3}, 'b'); f.back().jump = true; i += 4 + (u8(i + 2) << 8 | u8(i + 3)); }
      else if (c == 242) { run(i, {1, 4}, 'b'); f.back().jump = true; i += 5 + (u8(i + 3) << 8 | u8(i + 4)); }
      else if (c == 243) { run(i, {1, 4}, 'b'); i += 5; }
      else if (c == 248) { post = true; run(i, {1, 4, 4, 4, 4, 4, 4, 4, 4, 4}, 'b'); f[f.size() - 9].jump = true; i += 37; }
      else if (post && c == 246) { run(i, {1, 1, 1, 4, 4}, 'b'); f.back().jump = true; i += 11; }
      else if (post && c == 245) { run(i, {1, 1, 4, 4, 4, 4}, 'b'); f.back().jump = true; i += 18; }
      else if (c == 249) { run(i, {1, 4, 1}, 'b'); f[f.size() - 2].jump = true; break; }
      else if (c == 69) { run(i, {1}, 'b'); i++; }
      else if (c == 64 || c == 71) { run(i, {1, 1}, 'b'); i += 2; }
      else if (c == 65 || c == 72) i += 3;
      else if (c == 66 || c == 73) i += 4;
      else i++;
    }
  }
  return f;
}
static void damage_field(std::string &b, const Field &f, const Item &d) {
  if (f.at + f.n > b.size()) return;
  uint64_t old = 0;
  for (int k = 0; k < f.n && f.type != 't'; k++) old |= (uint64_t)(uint8_t)b[f.at + (f.type == 'l' ? k : f.n - 1 - k)] << (8 * k);
  if (f.type == 't') old = strtoull(b.substr(f.at, f.n).c_str(), nullptr, 10);
  uint64_t v = d.has("back") ? (uint64_t)-(f.n + d.num("back")) : d.has("delta") ? old + (uint64_t)d.num("delta") : d.u64("val");
  if (f.type == 't') { b.replace(f.at, f.n, d.has("text") ? d.str("text") : std::to_string(v & 0xffffffffffull)); return; }
  for (int k = 0; k < f.n; k++) b[f.at + (f.type == 'l' ? k : f.n - 1 - k)] = (char)(v >> (8 * k));
}
// give every PNG chunk that is still whole the checksum of what it now holds
static void png_checksums(std::string &b) {
  auto b32 = [&](size_t i) { return (uint32_t)(uint8_t)b[i] << 24 | (uint32_t)(uint8_t)b[i + 1] << 16 | (uint32_t)(uint8_t)b[i + 2] << 8 | (uint8_t)b[i + 3]; };
  for (size_t at = 8; at + 12 <= b.size();) {
    uint32_t n = b32(at);
    if (n > b.size() - at - 12) break;
    uint32_t c = (uint32_t)crc32(0, (const Bytef *)b.data() + at + 4, n + 4);
    for (int k = 0; k < 4; k++) b[at + 8 + n + k] = (char)(c >> (24 - 8 * k));
    at += 12 + n;
  }
}

void apply_damage(const std::string &fmt, std::string &b, const std::vector<const Item *> &ds) {
  bool sums = false;
  std::vector<Field> fields = fields_of(fmt, b);
  for (auto *d : ds) {
    sums = sums || d->num("sums");
    if (b.empty()) return;
    std::string k = d->str("kind");
    size_t n = b.size();
    // positions are given in 1/65536 of the file, or from the start with base=head
    size_t at = d->has("off") ? (size_t)d->num("off") : (size_t)((uint64_t)d->num("at") * n / 65536);
    if (at >= n) at = n - 1;
    size_t len = std::max(1l, d->num("len", 1));
    g_sh->fired[F_DAMAGE]++;
    if (k == "field") {
      std::vector<Field> jumps;
      if (d->num("jump")) for (auto &f : fields) if (f.jump) jumps.push_back(f);
      auto &from = jumps.empty() ? fields : jumps;
      if (!from.empty()) damage_field(b, from[(size_t)d->num("idx") % from.size()], *d);
    }
    else if (k == "flip") b[at] = (char)(b[at] ^ (1 << (d->num("bit") & 7)));
    else if (k == "set") b[at] = (char)d->num("val");
    else if (k == "set4") for (int i = 0; i < 4 && at + i < n; i++) b[at + i] = (char)(d->u64("val") >> (8 * i));
    else if (k == "zero") for (size_t i = at; i < n && i < at + len; i++) b[i] = 0;
    else if (k == "ones") for (size_t i = at; i < n && i < at + len; i++) b[i] = (char)0xff;
    else if (k == "rand") { Rng r(d->u64("val")); for (size_t i = at; i < n && i < at + len; i++) b[i] = (char)r.next(); }
    else if (k == "trunc") { b.resize(at); g_sh->fired[F_TRUNC]++; }
    else if (k == "dup") { std::string p = b.substr(at, len); b.insert(at, p); }
    else if (k == "drop") b.erase(at, len);
    else if (k == "swap") {
      size_t bt = (size_t)((uint64_t)d->num("at2") * n / 65536);
      for (size_t i = 0; i < len && at + i < n && bt + i < n; i++) std::swap(b[at + i], b[bt + i]);
    } else if (k == "append") { Rng r(d->u64("val")); for (size_t i = 0; i < len; i++) b += (char)r.next(); }
    else if (k == "long") b.insert(at, std::string(len, (char)d->num("val", 'x')));
  }
  if (sums && fmt.compare(0, 3, "png") == 0) png_checksums(b);
}
