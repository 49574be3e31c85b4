// C10 pixel addressing, C11 copies, comparison and transformation: executable specification against the real classes
#include "h.h"
#include <vital/types/image.h>
#include <vital/types/image_container.h>
#include <stdexcept>
using namespace kwiver::vital;
typedef image::byte byte;

struct L { size_t w, h, d; ptrdiff_t ws, hs, ds; ptrdiff_t off; size_t bytes; };   // layout inside a buffer of that many bytes
static std::string show(const L &l) { std::ostringstream o; o << l.w << "x" << l.h << "x" << l.d << " steps " << l.ws << "," << l.hs << "," << l.ds << " first " << l.off << " of " << l.bytes; return o.str(); }
// random layout: any order of the dimensions, gaps, flips, window offset
static L rlayout(size_t w, size_t h, size_t d) {
  L l; l.w = w; l.h = h; l.d = d;
  int perm[3] = { 0, 1, 2 }; for (int i = 2; i > 0; --i) std::swap(perm[i], perm[vh::ri(0, i)]);
  size_t n[3] = { w, h, d }; ptrdiff_t st[3], lo = 0, hi = 0, cur = 1;
  if (vh::ri(0, 3) == 0) cur = vh::ri(1, 3);
  for (int q = 0; q < 3; ++q) { int p = perm[q]; bool flip = vh::ri(0, 3) == 0; st[p] = flip ? -cur : cur; if (n[p]) { if (flip) lo -= cur * (ptrdiff_t)(n[p] - 1); else hi += cur * (ptrdiff_t)(n[p] - 1); } cur *= (ptrdiff_t)(n[p] ? n[p] : 1); if (vh::ri(0, 2) == 0) cur += vh::ri(0, 3); }
  ptrdiff_t pre = vh::ri(0, 3), post = vh::ri(0, 3);
  l.ws = st[0]; l.hs = st[1]; l.ds = st[2]; l.off = pre - lo; l.bytes = (size_t)(pre - lo + hi + 1 + post);
  return l;
}
static size_t rdim() { return vh::ri(0, 9) == 0 ? 0 : (size_t)vh::ri(1, vh::ri(0, 2) ? 5 : 9); }
static void rsize(size_t &w, size_t &h, size_t &d) { w = rdim(); h = rdim(); d = vh::ri(0, 2) == 0 ? 1 : vh::ri(0, 12) == 0 ? 0 : (size_t)vh::ri(1, 5); }
static size_t at(const L &l, size_t i, size_t j, size_t k) { return (size_t)(l.off + l.ws * (ptrdiff_t)i + l.hs * (ptrdiff_t)j + l.ds * (ptrdiff_t)k); }
static void fill(std::vector<byte> &b) { for (size_t i = 0; i < b.size(); ++i) b[i] = (byte)vh::rnd(); }

static void dims(const image &m, const L &l) {
  EXPECT(m.width() == l.w && m.height() == l.h && m.depth() == l.d, "dimensions " << m.width() << "x" << m.height() << "x" << m.depth());
  EXPECT(m.w_step() == l.ws && m.h_step() == l.hs && m.d_step() == l.ds, "steps " << m.w_step() << "," << m.h_step() << "," << m.d_step());
}
// every in-range access denotes the element of the layout; base = address of the first byte of the memory
static void access(image &m, const L &l, byte *base) {
  image const &c = m;
  EXPECT(m.first_pixel() == base + l.off && c.first_pixel() == base + l.off, "first pixel");
  for (size_t k = 0; k < l.d; ++k) for (size_t j = 0; j < l.h; ++j) for (size_t i = 0; i < l.w; ++i) {
    byte *want = base + at(l, i, j, k);
    EXPECT(&m(i, j, k) == want && &c(i, j, k) == want, "(" << i << "," << j << "," << k << ") is not the element of the layout");
    if (k == 0) {
      EXPECT(&m(i, j) == want && &c(i, j) == want, "(" << i << "," << j << ") is not the element of the layout");
      rgb_color r = c.at(i, j);
      byte g = l.d < 3 ? *want : base[at(l, i, j, 1)], b = l.d < 3 ? *want : base[at(l, i, j, 2)];
      EXPECT(r.r == *want && r.g == g && r.b == b, "at(" << i << "," << j << ") is " << (int)r.r << "," << (int)r.g << "," << (int)r.b);
    }
  }
}
static void refused(image &m, unsigned i, unsigned j, unsigned k) {
  image const &c = m; int n = 0; bool in = i < m.width() && j < m.height();
  try { m(i, j, k); } catch (std::out_of_range const &) { ++n; }
  try { c(i, j, k); } catch (std::out_of_range const &) { ++n; }
  EXPECT(n == (in && k < m.depth() ? 0 : 2), "access (" << i << "," << j << "," << k << ") of " << m.width() << "x" << m.height() << "x" << m.depth() << " raised " << n << " of 2 times");
  if (m.depth() == 0) return;
  n = 0;
  try { m(i, j); } catch (std::out_of_range const &) { ++n; }
  try { c(i, j); } catch (std::out_of_range const &) { ++n; }
  try { c.at(i, j); } catch (std::out_of_range const &) { ++n; }
  EXPECT(n == (in ? 0 : 3), "access (" << i << "," << j << ") of " << m.width() << "x" << m.height() << " raised " << n << " of 3 times");
}
static void borders(image &m) {
  unsigned xs[] = { 0, 1, (unsigned)m.width() - 1, (unsigned)m.width(), (unsigned)m.width() + 1, 0xffffffffu, 0x80000000u, (unsigned)vh::ri(0, 9) };
  for (int n = 0; n < 40; ++n) refused(m, xs[vh::ri(0, 7)], vh::coin() ? xs[vh::ri(3, 7)] : (unsigned)m.height() + (unsigned)vh::ri(-1, 1), vh::coin() ? (unsigned)vh::ri(0, 2) : (unsigned)m.depth() + (unsigned)vh::ri(-1, 1));
  for (unsigned i = 0; i <= m.width() + 1; ++i) for (unsigned j = 0; j <= m.height() + 1; ++j) for (unsigned k = 0; k <= m.depth() + 1; ++k) refused(m, i, j, k);
}
// an image that owns its memory: all elements distinct and inside
static void owned(image &m) {
  size_t n = m.width() * m.height() * m.depth();
  EXPECT(m.size() == n, "size() is " << m.size() << " expected " << n);
  EXPECT(m.memory() && m.memory()->size() == n && m.memory()->data() == (void *)m.first_pixel(), "memory");
  std::set<byte *> seen; byte *b = m.first_pixel();
  for (size_t k = 0; k < m.depth(); ++k) for (size_t j = 0; j < m.height(); ++j) for (size_t i = 0; i < m.width(); ++i) {
    byte *p = &m(i, j, k); EXPECT(p >= b && p < b + n, "(" << i << "," << j << "," << k << ") outside the memory");
    EXPECT(seen.insert(p).second, "(" << i << "," << j << "," << k << ") shares its element with another pixel"); *p = (byte)vh::rnd(); }
}

static void memory() {
    // image memory
    size_t a = (size_t)vh::ri(0, 9), c = vh::coin() ? a : (size_t)vh::ri(0, 9); CASE("image_memory of " << a << " assigned to one of " << c);
    a += !a; image_memory ma(a), mc(c); EXPECT(ma.size() == a && ma.data(), "image_memory size"); memset(ma.data(), 7, a); memset(mc.data(), 9, c);
    image_memory cp(ma); EXPECT(cp.size() == a && cp.data() != ma.data() && memcmp(cp.data(), ma.data(), a) == 0, "copied memory");
    mc = ma; EXPECT(mc.size() == a && (a == 0 || (mc.data() != ma.data() && memcmp(mc.data(), ma.data(), a) == 0)), "assigned memory"); mc = *&mc; EXPECT(mc.size() == a, "self assignment");
    image_memory z; EXPECT(z.size() == 0 && z.data() == 0, "default memory");
}

static void c10() {
  int N = vh::g_thorough ? 40000 : 1200;
  for (int n = 0; n < N; ++n) {
    size_t w, h, d; rsize(w, h, d);
    { bool il = vh::coin(); CASE("image(" << w << "," << h << "," << d << "," << il << ")");
      image m(w, h, d, il); L l = { w, h, d, (ptrdiff_t)(il ? d : 1), (ptrdiff_t)(il ? w * d : w), (ptrdiff_t)(il ? 1 : w * h), 0, w * h * d };
      dims(m, l); owned(m); access(m, l, m.first_pixel()); if (n % 4 == 0) borders(m);
      if (n % 5 == 0) { image g(w, h); L l2 = { w, h, 1, 1, (ptrdiff_t)w, (ptrdiff_t)(w * h), 0, w * h }; dims(g, l2); owned(g); }
      for (int r = 0; r < 3; ++r) {      // resize, also of shared memory
        size_t w2, h2, d2; rsize(w2, h2, d2); bool same = vh::ri(0, 3) == 0; if (same) { w2 = m.width(); h2 = m.height(); d2 = m.depth(); }
        CASE("image " << m.width() << "x" << m.height() << "x" << m.depth() << " steps " << m.w_step() << "," << m.h_step() << "," << m.d_step() << " set_size " << w2 << "," << h2 << "," << d2);
        image keep(m); image_memory_sptr old = m.memory(); std::vector<byte> before(keep.size()); if (!before.empty()) memcpy(&before[0], old->data(), before.size());
        L lk = { keep.width(), keep.height(), keep.depth(), keep.w_step(), keep.h_step(), keep.d_step(), 0, keep.size() };
        m.set_size(w2, h2, d2);
        EXPECT(m.width() == w2 && m.height() == h2 && m.depth() == d2, "size after set_size");
        bool un = w2 == keep.width() && h2 == keep.height() && d2 == keep.depth();
        EXPECT((m.memory() == old) == un, "set_size " << (un ? "reallocated" : "kept") << " the memory");
        dims(keep, lk); EXPECT(before.empty() || memcmp(&before[0], old->data(), before.size()) == 0, "set_size touched the memory of another image");
        owned(m);
      } }
    L l = rlayout(w, h, d); CASE("view " << show(l));
    std::vector<byte> buf(l.bytes), b0; fill(buf); b0 = buf; byte *p = &buf[0];
    image v(p + l.off, w, h, d, l.ws, l.hs, l.ds);
    dims(v, l); EXPECT(v.size() == 0 && !v.memory(), "a view without memory has a size"); access(v, l, p); if (n % 4 == 0) borders(v);
    if (w && h && d) { size_t i = vh::rnd() % w, j = vh::rnd() % h, k = vh::rnd() % d; byte x = (byte)vh::rnd(); v(i, j, k) = x; b0[at(l, i, j, k)] = x; if (vh::coin()) { v(i, j) = x; b0[at(l, i, j, 0)] = x; } }
    EXPECT(buf == b0, "a pixel access changed other memory");
    image_memory_sptr mem(new image_memory(l.bytes)); byte *mp = (byte *)mem->data(); memcpy(mp, p, l.bytes);
    image s(mem, mp + l.off, w, h, d, l.ws, l.hs, l.ds);
    dims(s, l); EXPECT(s.size() == l.bytes && s.memory() == mem, "view on memory"); access(s, l, mp);
    if (n % 3 == 0) { size_t w2, h2, d2; rsize(w2, h2, d2); s.set_size(w2, h2, d2); if (w2 != w || h2 != h || d2 != d) owned(s); else dims(s, l); v.set_size(w2, h2, d2); if (w2 != w || h2 != h || d2 != d) owned(v); else dims(v, l); }
    image e; EXPECT(e.width() == 0 && e.height() == 0 && e.depth() == 0 && e.size() == 0 && !e.memory() && e.first_pixel() == 0 && e.w_step() == 0 && e.h_step() == 0 && e.d_step() == 0, "default image"); refused(e, 0, 0, 0);
    memory();
  }
}

static byte inv(byte const &b) { return (byte)~b; }
static byte twice(byte const &b) { return (byte)(b * 3 + 1); }
static unsigned long g_n; static byte count(byte const &b) { ++g_n; return (byte)(b ^ 0x55); }

static void c11() {
  int N = vh::g_thorough ? 200000 : 20000;
  for (int n = 0; n < N; ++n) {
    size_t w, h, d; rsize(w, h, d);
    L a = rlayout(w, h, d); std::vector<byte> ab(a.bytes); fill(ab); image src(&ab[0] + a.off, w, h, d, a.ws, a.hs, a.ds);
    std::vector<byte> ab0 = ab;
    // destination: a view of the same size, an owned image of any size, or an image that shares its memory
    int kind = (int)vh::ri(0, 3);
    L b = rlayout(w, h, d); std::vector<byte> bb(b.bytes); fill(bb); std::vector<byte> bb0 = bb;
    size_t w2, h2, d2; rsize(w2, h2, d2);
    CASE("copy of " << show(a) << " into " << (kind == 0 ? "view " + show(b) : kind == 1 ? "owned planar" : kind == 2 ? "owned interleaved" : "empty image") << (kind == 1 || kind == 2 ? " of other size" : ""));
    image dst = kind == 0 ? image(&bb[0] + b.off, w, h, d, b.ws, b.hs, b.ds) : kind == 1 ? image(w2, h2, d2) : kind == 2 ? image(w2, h2, d2, true) : image();
    image other(dst); std::vector<byte> ob(other.size()); if (!ob.empty()) { fill(ob); memcpy(other.memory()->data(), &ob[0], ob.size()); }
    EXPECT(other.memory() == dst.memory() && other.first_pixel() == dst.first_pixel(), "a constructed image shares the memory");
    dst.copy_from(src);
    EXPECT(ab == ab0, "copying changed the source");
    EXPECT(dst.width() == w && dst.height() == h && dst.depth() == d, "size of the copy " << dst.width() << "x" << dst.height() << "x" << dst.depth());
    for (size_t k = 0; k < d; ++k) for (size_t j = 0; j < h; ++j) for (size_t i = 0; i < w; ++i) EXPECT(dst(i, j, k) == ab[at(a, i, j, k)], "pixel (" << i << "," << j << "," << k << ") of the copy differs");
    if (kind == 0) { for (size_t k = 0; k < d; ++k) for (size_t j = 0; j < h; ++j) for (size_t i = 0; i < w; ++i) bb0[at(b, i, j, k)] = ab[at(a, i, j, k)]; EXPECT(bb == bb0, "the copy is not stored in the memory of the view or touched memory outside of it"); }
    else if (w2 != w || h2 != h || d2 != d) EXPECT(ob.empty() || kind == 3 || memcmp(other.memory()->data(), &ob[0], ob.size()) == 0, "copying changed the memory of an image of another size");
    EXPECT(equal_content(dst, src) && equal_content(src, dst), "copy and source are not equal");
    // one different pixel
    if (w && h && d) {
      size_t i = vh::rnd() % w, j = vh::rnd() % h, k = vh::rnd() % d; if (vh::coin()) { i = vh::coin() ? w - 1 : 0; j = vh::coin() ? h - 1 : 0; k = vh::coin() ? d - 1 : 0; }
      byte old = dst(i, j, k); dst(i, j, k) = (byte)(old + vh::ri(1, 255));
      EXPECT(!equal_content(dst, src) && !equal_content(src, dst), "images that differ at (" << i << "," << j << "," << k << ") are equal");
      EXPECT(src(i, j, k) == old && ab == ab0, "the copy shares memory with its source");
      dst(i, j, k) = old; EXPECT(equal_content(dst, src), "images with the same pixels differ");
    }
    memory();
    { // two views of one memory, from the same first pixel as often as not
      L x = rlayout(w, h, d); const size_t o = std::max(a.off, x.off), o2 = vh::ri(0, 2) ? o : o + 1, nb = o2 + std::max(a.bytes, x.bytes) + 1;
      std::vector<byte> mb(nb); if (vh::ri(0, 3)) for (size_t i = 0; i < nb; ++i) mb[i] = (byte)vh::ri(0, 1) * (byte)!vh::ri(0, 3);
      image v1(&mb[0] + o, w, h, d, a.ws, a.hs, a.ds), v2(&mb[0] + o2, w, h, d, x.ws, x.hs, x.ds); bool eq = true;
      for (size_t k = 0; k < d; ++k) for (size_t j = 0; j < h; ++j) for (size_t i = 0; i < w; ++i) eq = eq && v1.first_pixel()[(ptrdiff_t)i * a.ws + (ptrdiff_t)j * a.hs + (ptrdiff_t)k * a.ds] == v2.first_pixel()[(ptrdiff_t)i * x.ws + (ptrdiff_t)j * x.hs + (ptrdiff_t)k * x.ds];
      EXPECT(equal_content(v1, v2) == eq && equal_content(v2, v1) == eq, "views " << show(a) << " and " << show(x) << " of one memory, first pixels " << o2 - o << " apart, are " << (eq ? "equal" : "different")); }
    image os(w2, h2, d2); { size_t m = os.size(); for (size_t i = 0; i < m; ++i) os.first_pixel()[i] = 0; }
    if (w2 != w || h2 != h || d2 != d) EXPECT(!equal_content(os, src) && !equal_content(src, os), "images of different size are equal");
    { image t(w, d, h); if (d != h) EXPECT(!equal_content(t, src), "images of transposed size are equal"); }
    // sharing
    image sh; sh = src; EXPECT(sh.first_pixel() == src.first_pixel() && sh.width() == w && sh.height() == h && sh.depth() == d && sh.w_step() == a.ws && sh.h_step() == a.hs && sh.d_step() == a.ds && sh.memory() == src.memory(), "assignment shares the pixels");
    sh = *&sh; EXPECT(sh.first_pixel() == src.first_pixel(), "self assignment");
    simple_image_container ic(dst); EXPECT(ic.width() == dst.width() && ic.height() == dst.height() && ic.depth() == dst.depth() && ic.size() == dst.size() && ic.get_image().first_pixel() == dst.first_pixel() && ic.get_image().memory() == dst.memory() && equal_content(ic.get_image(), dst), "image container");
    // transformation
    CASE("transform of " << show(a));
    for (int f = 0; f < 3; ++f) {
      byte (*op)(byte const &) = f == 0 ? inv : f == 1 ? twice : count; g_n = 0;
      std::vector<byte> want = ab; for (size_t k = 0; k < d; ++k) for (size_t j = 0; j < h; ++j) for (size_t i = 0; i < w; ++i) want[at(a, i, j, k)] = op(ab[at(a, i, j, k)]);
      unsigned long wn = g_n; g_n = 0;
      transform_image(src, op);
      EXPECT(ab == want && g_n == wn, "transform_image did not apply the function to every pixel exactly once (called " << g_n << " times, " << wn << " pixels)");
    }
  }
}
static void body(const std::string &p) { if (p == "C10") c10(); else c11(); }
HARNESS_MAIN(body)
