// C08: every image view against its pixelwise definition, over random compositions, rectangles and access hints.
#include "vh.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/ImageChunk.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
#include "SEFramework/Image/MaskedImage.h"
#include "SEFramework/Image/MirrorImage.h"
#include "SEFramework/Image/PaddedImage.h"
#include "SEFramework/Image/ProcessedImage.h"
#include "SEFramework/Image/RecenterImage.h"
#include "SEFramework/Image/ScaledImageSource.h"
#include "SEFramework/Image/SubImage.h"
#include "SEFramework/Image/ThresholdedImage.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEUtils/PixelRectangle.h"

using namespace SourceXtractor;

static vh::Ctx* g_ctx = nullptr;

// leaf that watches the requests it gets
template <typename T>
struct SpyImage : Image<T> {
  int w, h; std::shared_ptr<std::vector<T>> data; bool universal; mutable uint64_t requests = 0;
  SpyImage(int w_, int h_, std::vector<T> d, bool u) : w(w_), h(h_), data(std::make_shared<std::vector<T>>(std::move(d))), universal(u) {}
  std::string getRepr() const override { return "Spy"; }
  int getWidth() const override { return w; }
  int getHeight() const override { return h; }
  std::shared_ptr<ImageChunk<T>> getChunk(int x, int y, int cw, int ch) const override {
    ++requests;
    bool ok = x >= 0 && y >= 0 && cw > 0 && ch > 0 && x + cw <= w && y + ch <= h;
    g_ctx->checkf(ok, "request-outside-image", [&] { return vh::fmt("view asked its %dx%d image for (%d,%d)+%dx%d", w, h, x, y, cw, ch); });
    if (!ok) throw std::runtime_error("request outside of the image");
    if (!universal) return ImageChunk<T>::create(data, x + y * w, cw, ch, w);
    std::vector<T> d(static_cast<size_t>(cw) * ch);
    for (int j = 0; j < ch; ++j) for (int i = 0; i < cw; ++i) d[i + j * cw] = (*data)[x + i + (y + j) * w];
    return UniversalImageChunk<T>::create(std::move(d), cw, ch);
  }
};

struct Node {
  std::shared_ptr<Image<float>> img;
  std::function<double(int, int)> ref;
  int w, h;
  double mag;
  std::string desc;
};
struct Base { std::function<bool()> intact; };
static std::vector<Base> bases;
static std::vector<std::function<uint64_t()>> spies;

static int dim(vh::Ctx& c) { return c.rng.p(0.15) ? 1 : c.rng.p(0.2) ? c.rng.i(1, 3) : c.rng.p(0.15) ? c.rng.i(60, 90) : c.rng.i(2, 14); }

template <typename T>
static std::shared_ptr<Image<T>> leafImage(vh::Ctx& c, int w, int h, const std::vector<T>& v) {
  int kind = c.rng.i(0, 2);
  if (kind == 0) {
    auto im = VectorImage<T>::create(w, h, v);
    bases.push_back({[im, v] { return im->getData() == v; }});
    return im;
  }
  auto im = std::make_shared<SpyImage<T>>(w, h, v, kind == 2);
  bases.push_back({[im, v] { return *im->data == v; }});
  spies.push_back([im] { return im->requests; });
  return im;
}

static Node leaf(vh::Ctx& c, int w, int h) {
  std::vector<float> v(static_cast<size_t>(w) * h);
  for (auto& x : v) x = static_cast<float>(c.rng.d(-1000, 1000));
  Node n; n.w = w; n.h = h; n.mag = 1000; n.desc = vh::fmt("L%dx%d", w, h);
  n.ref = [v, w](int x, int y) { return static_cast<double>(v.at(x + static_cast<size_t>(y) * w)); };
  n.img = leafImage<float>(c, w, h, v);
  return n;
}

template <typename T> struct RefOp;
template <> struct RefOp<std::bit_and<int>> { static bool f(int m, int flag) { return (m & flag) != 0; } };
template <> struct RefOp<std::less<int>> { static bool f(int m, int flag) { return m < flag; } };
template <> struct RefOp<std::equal_to<int>> { static bool f(int m, int flag) { return m == flag; } };

static Node make(vh::Ctx& c, int depth, int w, int h);

template <template <typename> class Op>
static Node masked(vh::Ctx& c, Node a) {
  std::vector<int> m(static_cast<size_t>(a.w) * a.h); for (auto& x : m) x = c.rng.i(0, 9);
  int flag = c.rng.i(1, 8); float repl = static_cast<float>(c.rng.d(2000, 3000));
  auto mask = leafImage<int>(c, a.w, a.h, m);
  Node n = a; n.img = MaskedImage<float, int, Op>::create(a.img, mask, repl, flag);
  n.mag = std::max(a.mag, 3000.); n.desc = "Masked(" + a.desc + ")"; int w = a.w;
  n.ref = [=](int x, int y) { return RefOp<Op<int>>::f(m[x + static_cast<size_t>(y) * w], flag) ? repl : a.ref(x, y); };
  return n;
}

static int refReflect(int N, int v) { while (v < 0 || v >= N) v = v < 0 ? -v - 1 : 2 * N - 1 - v; return v; }
static int refReflect101(int N, int v) { if (N == 1) return 0; while (v < 0 || v >= N) v = v < 0 ? -v : 2 * (N - 1) - v; return v; }
static int refReplicate(int N, int v) { return std::min(std::max(v, 0), N - 1); }
static int refWrap(int N, int v) { while (v < 0) v += N; while (v >= N) v -= N; return v; }

static Node padded(vh::Ctx& c, int depth, int w, int h) {
  int iw = std::max(1, w - c.rng.i(0, c.rng.p(0.3) ? 30 : 6)), ih = std::max(1, h - c.rng.i(0, 6));
  Node a = make(c, depth - 1, iw, ih); Node n; n.w = w; n.h = h; n.mag = a.mag;
  int lp = (w - iw) / 2, tp = (h - ih) / 2, mode = c.rng.i(0, 4);
  std::function<int(int, int)> f;
  switch (mode) {
  case 0: f = refReplicate; n.img = PaddedImage<float, ReplicateCoordinates>::create(a.img, w, h); break;
  case 1: f = refReflect; n.img = PaddedImage<float, ReflectCoordinates>::create(a.img, w, h); break;
  case 2: f = refReflect101; n.img = PaddedImage<float, Reflect101Coordinates>::create(a.img, w, h); break;
  case 3: f = refWrap; n.img = PaddedImage<float, WrapCoordinates>::create(a.img, w, h); break;
  default: {
    float dv = c.rng.p(0.4) ? 0.f : static_cast<float>(c.rng.d(-5000, 5000));
    if (dv == 0) n.img = PaddedImage<float>::create(a.img, w, h); else n.img = PaddedImage<float>::create(a.img, w, h, dv);
    n.mag = std::max(n.mag, 5000.);
    n.ref = [=](int x, int y) { x -= lp; y -= tp; return x < 0 || y < 0 || x >= iw || y >= ih ? static_cast<double>(dv) : a.ref(x, y); };
  }
  }
  if (!n.ref) n.ref = [=](int x, int y) { return a.ref(f(iw, x - lp), f(ih, y - tp)); };
  n.desc = vh::fmt("Pad%d[%dx%d](", mode, w, h) + a.desc + ")";
  return n;
}

// a view with the given dimensions
static Node make(vh::Ctx& c, int depth, int w, int h) {
  if (depth <= 0) return leaf(c, w, h);
  switch (c.rng.i(0, 10)) {
  case 0: {
    int x = c.rng.i(0, 5), y = c.rng.i(0, 5); Node a = make(c, depth - 1, w + x + c.rng.i(0, 5), h + y + c.rng.i(0, 5));
    Node n = a; n.w = w; n.h = h; n.desc = vh::fmt("Sub[%d,%d](", x, y) + a.desc + ")";
    if (c.rng.p(0.5)) n.img = SubImage<float>::create(a.img, x, y, w, h); else n.img = SubImage<float>::create(a.img, PixelCoordinate(x, y), w, h);
    n.ref = [=](int i, int j) { return a.ref(i + x, j + y); };
    return n;
  }
  case 1: {
    Node a = make(c, depth - 1, w, h), n = a; n.desc = "Mirror(" + a.desc + ")"; n.img = MirrorImage<float>::create(a.img);
    n.ref = [=](int i, int j) { return a.ref(w - 1 - i, h - 1 - j); };
    return n;
  }
  case 2: case 3: return padded(c, depth, w, h);
  case 4: {
    int cx = c.rng.i(0, w), cy = c.rng.i(0, 2 * h); Node a = make(c, depth - 1, w, h), n = a; n.desc = vh::fmt("Recenter[%d,%d](", cx, cy) + a.desc + ")";
    n.img = RecenterImage<float>::create(a.img, PixelCoordinate(cx, cy));
    n.ref = [=](int i, int j) { return a.ref((i + cx) % w, (j + cy) % h); };
    return n;
  }
  case 5: { Node a = make(c, depth - 1, w, h); int k = c.rng.i(0, 2); return k == 0 ? masked<std::bit_and>(c, a) : k == 1 ? masked<std::less>(c, a) : masked<std::equal_to>(c, a); }
  case 6: {
    Node a = make(c, depth - 1, w, h), n = a; double k = c.rng.d(0.5, 2); n.desc = "Func(" + a.desc + ")"; n.mag = 2 * a.mag + 3 * (w + h);
    n.img = FunctionalImage<float>::create(a.img, [k](int x, int y, float v) { return static_cast<float>(v * k + x - 2 * y); });
    n.ref = [=](int x, int y) { return a.ref(x, y) * k + x - 2 * y; };
    return n;
  }
  case 7: case 8: {
    int op = c.rng.i(0, 2); Node a = make(c, depth - 1, w, h), n = a;
    if (op == 2) {
      std::vector<float> sq(static_cast<size_t>(w) * h); for (auto& v : sq) v = static_cast<float>(c.rng.i(1, 90));
      auto var = leafImage<float>(c, w, h, sq);
      n.img = SnrImage<float>::create(a.img, var); n.desc = "Snr(" + a.desc + ")";
      n.ref = [=](int x, int y) { return a.ref(x, y) / std::sqrt(static_cast<double>(sq[x + static_cast<size_t>(y) * w])); };
      return n;
    }
    if (c.rng.p(0.3)) {
      float k = static_cast<float>(c.rng.d(-30, 30)); n.mag = op ? 30 * a.mag : a.mag + 30; n.desc = vh::fmt("Op%dk(", op) + a.desc + ")";
      n.img = op ? std::static_pointer_cast<Image<float>>(MultiplyImage<float>::create(a.img, k)) : SubtractImage<float>::create(a.img, k);
      n.ref = [=](int x, int y) { return op ? a.ref(x, y) * k : a.ref(x, y) - k; };
      return n;
    }
    Node b = make(c, depth - 1, w, h); n.mag = op ? a.mag * b.mag : a.mag + b.mag; n.desc = vh::fmt("Op%d(", op) + a.desc + "," + b.desc + ")";
    n.img = op ? std::static_pointer_cast<Image<float>>(MultiplyImage<float>::create(a.img, b.img)) : SubtractImage<float>::create(a.img, b.img);
    n.ref = [=](int x, int y) { return op ? a.ref(x, y) * b.ref(x, y) : a.ref(x, y) - b.ref(x, y); };
    return n;
  }
  case 9: {
    Node a = make(c, depth - 1, w, h), n = a; std::vector<float> sq(static_cast<size_t>(w) * h); for (auto& v : sq) v = static_cast<float>(c.rng.i(0, 400));
    auto var = leafImage<float>(c, w, h, sq); float m = static_cast<float>(c.rng.d(0, 5)); n.mag = a.mag + 100; n.desc = "Thr(" + a.desc + ")";
    n.img = ThresholdedImage<float>::create(a.img, var, m);
    n.ref = [=](int x, int y) { return a.ref(x, y) - std::sqrt(static_cast<double>(sq[x + static_cast<size_t>(y) * w])) * m; };
    return n;
  }
  default: {
    if (c.rng.p(0.3)) { float k = static_cast<float>(c.rng.d(-100, 100)); Node n; n.w = w; n.h = h; n.mag = 100; n.desc = "Const"; n.img = ConstantImage<float>::create(w, h, k); n.ref = [k](int, int) { return static_cast<double>(k); }; return n; }
    Node a = make(c, depth - 1, w, h), n = a; n.img = VectorImage<float>::create(a.img); n.desc = "Copy(" + a.desc + ")";
    return n;
  }
  }
}

static void readAll(vh::Ctx& c, const Node& n) {
  double tol = 3e-6 * n.mag + 1e-6;
  auto bad = [&](const char* how, int x, int y, double got) {
    return vh::fmt("%s of %s (%dx%d) at (%d,%d): %.9g, definition gives %.9g", how, n.desc.c_str(), n.w, n.h, x, y, got, n.ref(x, y));
  };
  c.check(n.img->getWidth() == n.w && n.img->getHeight() == n.h, "size", n.desc);
  for (int k = 0; k < 6; ++k) {
    int w = k == 0 ? n.w : c.rng.p(0.3) ? 1 : c.rng.i(1, n.w), h = k == 0 ? n.h : c.rng.p(0.3) ? 1 : c.rng.i(1, n.h), x = c.rng.i(0, n.w - w), y = c.rng.i(0, n.h - h);
    auto ch = n.img->getChunk(x, y, w, h);
    if (!c.check(ch->getWidth() == w && ch->getHeight() == h, "chunk-size", n.desc)) continue;
    bool ok = true;
    for (int j = 0; j < h && ok; ++j) for (int i = 0; i < w && ok; ++i) {
      double g = ch->getValue(i, j);
      ok = c.checkf(vh::near(g, n.ref(x + i, y + j), 1e-5, tol), "chunk-value", [&] { return bad("chunk", x + i, y + j, g); });
    }
    // a chunk of the chunk, and the corner form of the request
    int sw = c.rng.i(1, w), sh = c.rng.i(1, h), sx = c.rng.i(0, w - sw), sy = c.rng.i(0, h - sh);
    auto sub = ch->getChunk(sx, sy, sw, sh);
    auto alt = n.img->getChunk(PixelCoordinate(x, y), PixelCoordinate(x + w - 1, y + h - 1));
    c.check(alt->getWidth() == w && alt->getHeight() == h, "corner-chunk-size", n.desc);
    for (int t = 0; t < 8; ++t) {
      int i = c.rng.i(0, sw - 1), j = c.rng.i(0, sh - 1);
      double g = sub->getValue(PixelCoordinate(i, j));
      c.checkf(vh::near(g, n.ref(x + sx + i, y + sy + j), 1e-5, tol), "subchunk-value", [&] { return bad("chunk of a chunk", x + sx + i, y + sy + j, g); });
      i = c.rng.i(0, w - 1); j = c.rng.i(0, h - 1); g = alt->getValue(i, j);
      c.checkf(vh::near(g, n.ref(x + i, y + j), 1e-5, tol), "corner-chunk-value", [&] { return bad("corner chunk", x + i, y + j, g); });
    }
  }
  using A = ImageAccessor<float>;
  for (auto hint : {A::TOP_LEFT, A::CENTERED, A::BOTTOM_RIGHT}) {
    A byptr(n.img, hint, c.rng.i(1, 40), c.rng.i(1, 10));
    A byref(*n.img, hint);
    for (int t = 0; t < 25; ++t) {
      int x = c.rng.i(0, n.w - 1), y = c.rng.i(0, n.h - 1); double g = t % 2 ? byptr.getValue(x, y) : byptr.getValue(PixelCoordinate(x, y));
      c.checkf(vh::near(g, n.ref(x, y), 1e-5, tol), "accessor-value", [&] { return bad("accessor", x, y, g); });
      g = byref.getValue(x, y);
      c.checkf(vh::near(g, n.ref(x, y), 1e-5, tol), "accessor-value", [&] { return bad("accessor", x, y, g); });
    }
  }
}

static void begin(vh::Ctx& c) { g_ctx = &c; bases.clear(); spies.clear(); }
static void finish(vh::Ctx& c) {
  for (auto& b : bases) c.check(b.intact(), "source-changed", "reading a view changed the image underneath");
  for (auto& s : spies) c.counter("requests_watched", s());
  bases.clear(); spies.clear();
}

SECTION(compositions, 1500, 60000) {
  begin(c);
  Node n = make(c, c.rng.i(1, 4), dim(c), dim(c));
  readAll(c, n);
  c.sig(n.desc); c.sample(n.desc);
  finish(c);
}

// every view once on its own, all rectangles of small images
SECTION(exhaustive_small, 300, 6000) {
  begin(c);
  int w = 1 + c.kase % 5, h = 1 + (c.kase / 5) % 5;
  Node n = make(c, 1, w, h); double tol = 3e-6 * n.mag + 1e-6;
  for (int y = 0; y < n.h; ++y) for (int x = 0; x < n.w; ++x) for (int hh = 1; y + hh <= n.h; ++hh) for (int ww = 1; x + ww <= n.w; ++ww) {
    auto ch = n.img->getChunk(x, y, ww, hh);
    for (int j = 0; j < hh; ++j) for (int i = 0; i < ww; ++i) {
      double g = ch->getValue(i, j);
      c.checkf(vh::near(g, n.ref(x + i, y + j), 1e-5, tol), "chunk-value", [&] { return vh::fmt("%s (%dx%d): pixel (%d,%d) of chunk (%d,%d)+%dx%d is %.9g, definition gives %.9g", n.desc.c_str(), n.w, n.h, x + i, y + j, x, y, ww, hh, g, n.ref(x + i, y + j)); });
    }
  }
  c.sig(n.desc);
  finish(c);
}

SECTION(interpolation, 300, 8000) {
  begin(c);
  int w = dim(c), h = dim(c), gap = c.rng.i(0, 6); float thr = 10;
  Node a = make(c, c.rng.i(0, 2), w, h);
  double badp = c.rng.d(0, 0.9);
  std::vector<float> var(static_cast<size_t>(w) * h); for (auto& v : var) v = c.rng.p(badp) ? (c.rng.p(0.2) ? 10.f : static_cast<float>(c.rng.d(10, 100))) : static_cast<float>(c.rng.d(0, 9.9));
  auto vi = leafImage<float>(c, w, h, var);
  auto src = std::make_shared<InterpolatedImageSource<float>>(a.img, vi, thr, gap);
  auto good = [&](int x, int y) { return x >= 0 && y >= 0 && var[x + static_cast<size_t>(y) * w] < thr; };
  auto ref = [&](int x, int y) {
    if (good(x, y)) return a.ref(x, y);
    for (int i = 1; i <= gap; ++i) { if (good(x - i, y)) return a.ref(x - i, y); if (good(x, y - i)) return a.ref(x, y - i); }
    return a.ref(x, y);
  };
  int filled = 0;
  for (int k = 0; k < 6; ++k) {
    int tw = k == 0 ? w : c.rng.i(1, w), th = k == 0 ? h : c.rng.i(1, h), x = c.rng.i(0, w - tw), y = c.rng.i(0, h - th);
    auto tile = src->getImageTile(x, y, tw, th);
    for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) {
      float g = tile->getValue<float>(x + i, y + j); double r = ref(x + i, y + j); filled += !good(x + i, y + j);
      c.checkf(vh::near(g, r, 1e-5, 3e-6 * a.mag), "interpolated-value", [&] { return vh::fmt("tile (%d,%d)+%dx%d of %dx%d, gap %d: pixel (%d,%d) %.9g, nearest good neighbour gives %.9g", x, y, tw, th, w, h, gap, x + i, y + j, g, r); });
    }
  }
  c.counter("bad_pixels", filled);
  c.sig(vh::fmt("%d %d %d %d", w, h, gap, filled));
  finish(c);
}

// magnification: bilinear between nodes, exact at the nodes, independent of the rectangle
SECTION(scaling, 150, 4000) {
  begin(c);
  int iw = c.rng.i(1, 9), ih = c.rng.i(1, 9), w = iw * c.rng.i(1, 8) - c.rng.i(0, iw > 1 ? 1 : 0), h = ih * c.rng.i(1, 8);
  if (iw < 2) iw = 2; if (ih < 2) ih = 2; w = std::max(w, iw); h = std::max(h, ih);
  bool bil = c.rng.p(0.6) || iw < 3 || ih < 3;
  Node a = leaf(c, iw, ih);
  using S = ScaledImageSource<float>;
  S src(a.img, w, h, bil ? S::InterpolationType::BILINEAR : S::InterpolationType::BICUBIC);
  int sw = (w + iw - 1) / iw, sh = (h + ih - 1) / ih;
  c.check(src.getWidth() == w && src.getHeight() == h, "size", "scaled image size");
  auto full = src.getImageTile(0, 0, w, h);
  auto node = [](int i, int s) { return std::floor((i + 0.5) * s); };
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    float g = full->getValue<float>(x, y);
    if (bil) {
      auto seg = [&](int v, int n, int s) { int i = 0; while (i + 2 < n && v > node(i + 1, s)) ++i; return i; };
      int i = seg(x, iw, sw), j = seg(y, ih, sh);
      double fx = (x - node(i, sw)) / (node(i + 1, sw) - node(i, sw)), fy = (y - node(j, sh)) / (node(j + 1, sh) - node(j, sh));
      double r = (1 - fx) * (1 - fy) * a.ref(i, j) + fx * (1 - fy) * a.ref(i + 1, j) + (1 - fx) * fy * a.ref(i, j + 1) + fx * fy * a.ref(i + 1, j + 1);
      double t = 1e-4 * 1000 * (1 + std::fabs(fx)) * (1 + std::fabs(fy));
      c.checkf(vh::near(g, r, 1e-5, t), "scaled-value", [&] { return vh::fmt("%dx%d to %dx%d at (%d,%d): %.9g expected %.9g", iw, ih, w, h, x, y, g, r); });
    } else {
      for (int i = 0; i < iw; ++i) if (node(i, sw) == x) for (int j = 0; j < ih; ++j) if (node(j, sh) == y)
        c.checkf(vh::near(g, a.ref(i, j), 1e-4, 1e-2), "scaled-node", [&] { return vh::fmt("bicubic %dx%d to %dx%d: node (%d,%d) %.9g expected %.9g", iw, ih, w, h, i, j, g, a.ref(i, j)); });
    }
  }
  for (int k = 0; k < 3; ++k) {
    int tw = c.rng.i(1, w), th = c.rng.i(1, h), x = c.rng.i(0, w - tw), y = c.rng.i(0, h - th);
    auto t = src.getImageTile(x, y, tw, th);
    for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) { float g = t->getValue<float>(x + i, y + j), f = full->getValue<float>(x + i, y + j); c.checkf(vh::near(g, f, 1e-5, 1e-3), "scaled-tile", [&] { return vh::fmt("tile (%d,%d)+%dx%d disagrees with the whole at (%d,%d): %g %g", x, y, tw, th, x + i, y + j, g, f); }); }
  }
  c.sig(vh::fmt("%d %d %d %d %d", iw, ih, w, h, bil));
  finish(c);
}

// containers under the views: copies are deep, writes land where asked, rectangles count inclusively
SECTION(containers, 200, 4000) {
  begin(c);
  int w = dim(c), h = dim(c); size_t n = static_cast<size_t>(w) * h;
  std::vector<double> v(n); for (auto& x : v) x = c.rng.d(-9, 9);
  auto im = VectorImage<double>::create(w, h, v); auto copy = VectorImage<double>::create(*im); auto iter = VectorImage<double>::create(w, h, v.begin(), v.end());
  auto before = im->getChunk(0, 0, w, h); auto uni = UniversalImageChunk<double>::create(std::move(*im->getChunk(0, 0, w, h)));
  auto model = v;
  for (int k = 0; k < 30; ++k) {
    int x = c.rng.i(0, w - 1), y = c.rng.i(0, h - 1); double val = c.rng.d(-9, 9); model[x + static_cast<size_t>(y) * w] = val;
    if (k % 3 == 0) im->setValue(x, y, val); else if (k % 3 == 1) im->setValue(PixelCoordinate(x, y), val); else im->at(x, y) = val;
  }
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    size_t i = x + static_cast<size_t>(y) * w;
    c.check(im->getValue(x, y) == model[i] && im->getValue(PixelCoordinate(x, y)) == model[i] && im->getData()[i] == model[i], "write-lands", vh::fmt("(%d,%d) of %dx%d", x, y, w, h));
    c.check(copy->getValue(x, y) == v[i] && iter->getValue(x, y) == v[i] && uni->getValue(x, y) == v[i], "copy-is-deep", vh::fmt("(%d,%d) of %dx%d", x, y, w, h));
  }
  uni->setValue(w - 1, h - 1, 77); c.check(uni->at(w - 1, h - 1) == 77 && im->getValue(w - 1, h - 1) == model[n - 1], "copy-is-deep", "writing a private chunk reached the image");
  im->fillValue(3); c.check(im->getValue(0, 0) == 3 && im->getValue(w - 1, h - 1) == 3 && copy->getValue(0, 0) == v[0], "fill", "fillValue");
  int ax = c.rng.i(0, 50), ay = c.rng.i(0, 50), rw = c.rng.i(1, 60), rh = c.rng.i(1, 60);
  PixelRectangle r(PixelCoordinate(ax, ay), PixelCoordinate(ax + rw - 1, ay + rh - 1)), rc(r), e;
  c.check(r.getWidth() == rw && r.getHeight() == rh && rc.getTopLeft() == PixelCoordinate(ax, ay) && rc.getBottomRight() == PixelCoordinate(ax + rw - 1, ay + rh - 1) && e.getWidth() == 0 && e.getHeight() == 0, "rectangle", vh::fmt("(%d,%d) %dx%d", ax, ay, rw, rh));
  PixelCoordinate p(c.rng.i(-80, 120), c.rng.i(-80, 120)), q = p; bool out = p.m_x < 0 || p.m_y < 0 || p.m_x >= rw || p.m_y >= rh; bool cl = q.clip(rw, rh);
  c.check(cl == out && q.m_x == std::min(std::max(p.m_x, 0), rw - 1) && q.m_y == std::min(std::max(p.m_y, 0), rh - 1), "clip", "PixelCoordinate::clip");
  c.sig(vh::fmt("%d %d", w, h));
  finish(c);
}

VH_MAIN
