// C09: Fourier transforms, FFT and direct convolution, and the detection filter, against direct sums in double precision.
#include "vh.h"
#include <atomic>
#include <thread>
#include "SEFramework/Convolution/DFT.h"
#include "SEFramework/Convolution/DirectConvolution.h"
#include "SEFramework/FFT/FFT.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEImplementation/Segmentation/BackgroundConvolution.h"
#include "SEImplementation/Segmentation/BgConvolutionImageSource.h"
#include "SEImplementation/Segmentation/BgDFTConvolutionImageSource.h"

using namespace SourceXtractor;
using Img = VectorImage<SeFloat>;

SECTION(round_dimension, 1, 1) {
  int prev = 0;
  for (int s = 1; s < 6000; ++s) { int r = fftRoundDimension(s); c.checkf(r >= s && r >= prev, "round-dimension", [&] { return vh::fmt("fftRoundDimension(%d) = %d", s, r); }); prev = r; }
  c.sig("all");
}

template <typename T> static void roundtrip(vh::Ctx& c) {
  int w = c.rng.i(1, c.rng.p(0.2) ? 130 : 24), h = c.rng.i(1, 24), pw = 2 * (w / 2 + 1);
  std::vector<T> buf(c.rng.p(0.5) ? 0 : static_cast<size_t>(pw) * h);
  auto f = FFT<T>::createForwardPlan(w, h, buf), b = FFT<T>::createInversePlan(w, h, buf);
  if (!c.check(buf.size() >= static_cast<size_t>(pw) * h, "fft-buffer", vh::fmt("%dx%d buffer has %zu cells", w, h, buf.size()))) return;
  std::vector<double> in(static_cast<size_t>(w) * h); double mag = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { in[x + static_cast<size_t>(y) * w] = c.rng.d(-100, 100); buf[x + static_cast<size_t>(y) * pw] = static_cast<T>(in[x + static_cast<size_t>(y) * w]); mag += 100; }
  FFT<T>::executeForward(f, buf);
  double eps = sizeof(T) == 4 ? 2e-5 : 1e-11;
  // the transform itself, at a few frequencies
  for (int k = 0; k < 4; ++k) {
    int u = k == 0 ? 0 : c.rng.i(0, w / 2), v = k == 0 ? 0 : c.rng.i(0, h - 1); double re = 0, im = 0;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = -2 * M_PI * (double(u) * x / w + double(v) * y / h); re += in[x + static_cast<size_t>(y) * w] * std::cos(a); im += in[x + static_cast<size_t>(y) * w] * std::sin(a); }
    double gr = buf[2 * u + static_cast<size_t>(v) * pw], gi = buf[2 * u + 1 + static_cast<size_t>(v) * pw];
    c.checkf(vh::near(gr, re, 0, eps * mag) && vh::near(gi, im, 0, eps * mag), "fft-value", [&] { return vh::fmt("%dx%d coefficient (%d,%d) is %g%+gi, sum gives %g%+gi", w, h, u, v, gr, gi, re, im); });
  }
  FFT<T>::executeInverse(b, buf);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double g = buf[x + static_cast<size_t>(y) * pw] / (double(w) * h), r = in[x + static_cast<size_t>(y) * w]; c.checkf(vh::near(g, r, 0, eps * 100 * 3), "fft-roundtrip", [&] { return vh::fmt("%dx%d pixel (%d,%d): %g after forward and inverse, %g before", w, h, x, y, g, r); }); }
  c.sig(vh::fmt("%zu %d %d", sizeof(T), w, h));
}
SECTION(fft, 300, 8000) { if (c.kase % 2) roundtrip<float>(c); else roundtrip<double>(c); }

static int refl101(int N, int v) { if (N == 1) return 0; while (v < 0 || v >= N) v = v < 0 ? -v : 2 * (N - 1) - v; return v; }
static int refl(int N, int v) { while (v < 0 || v >= N) v = v < 0 ? -v - 1 : 2 * N - 1 - v; return v; }
static int repl(int N, int v) { return std::min(std::max(v, 0), N - 1); }

template <typename T>
static std::vector<double> reference(const std::vector<T>& im, int w, int h, const std::vector<T>& k, int kw, int kh, int (*pad)(int, int), double dv, double* mag) {
  std::vector<double> out(im.size()); *mag = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    double s = 0, a = 0;
    for (int j = 0; j < kh; ++j) for (int i = 0; i < kw; ++i) {
      int px = x + kw / 2 - i, py = y + kh / 2 - j; double v;
      if (pad) v = im[pad(w, px) + static_cast<size_t>(pad(h, py)) * w]; else v = px < 0 || py < 0 || px >= w || py >= h ? dv : static_cast<double>(im[px + static_cast<size_t>(py) * w]);
      s += v * k[i + static_cast<size_t>(j) * kw]; a += std::fabs(v * k[i + static_cast<size_t>(j) * kw]);
    }
    out[x + static_cast<size_t>(y) * w] = s; *mag = std::max(*mag, a);
  }
  return out;
}

template <typename T, class P, bool DEF>
static void convPad(vh::Ctx& c, const char* name, int (*pad)(int, int)) {
  int w = c.rng.i(1, c.rng.p(0.15) ? 70 : 16), h = c.rng.i(1, 16), kw = c.rng.i(1, 9), kh = c.rng.i(1, 9);
  if (c.rng.p(0.6)) { kw |= 1; kh |= 1; } if (c.rng.p(0.1)) kw = w + c.rng.i(0, 12);
  std::vector<T> im(static_cast<size_t>(w) * h), k(static_cast<size_t>(kw) * kh);
  for (auto& v : im) v = static_cast<T>(c.rng.d(-100, 100)); for (auto& v : k) v = static_cast<T>(c.rng.d(-1, 1));
  T dv = DEF ? static_cast<T>(c.rng.p(0.5) ? 0 : c.rng.d(-50, 50)) : T(0);
  double mag; auto ref = reference(im, w, h, k, kw, kh, pad, dv, &mag);
  double tot = 0; for (auto& v : k) tot += std::fabs(v); mag = std::max(mag, tot * 100);
  auto kern = VectorImage<T>::create(kw, kh, k); auto kcopy = k;
  auto cmp = [&](const VectorImage<T>& o, const char* how) {
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double g = o.getValue(x, y), r = ref[x + static_cast<size_t>(y) * w]; if (!c.checkf(vh::near(g, r, 0, 1e-5 * mag), how, [&] { return vh::fmt("%s padding, image %dx%d, kernel %dx%d: pixel (%d,%d) is %g, sum gives %g", name, w, h, kw, kh, x, y, g, r); })) return; }
  };
  DirectConvolution<T, P> direct(kern); DFTConvolution<T, P> dft(kern);
  c.check(dft.getWidth() == size_t(kw) && dft.getHeight() == size_t(kh) && direct.getWidth() == size_t(kw) && direct.getHeight() == size_t(kh), "kernel-size", name);
  auto a = VectorImage<T>::create(w, h, im), b = VectorImage<T>::create(w, h, im), b2 = VectorImage<T>::create(w, h, im);
  auto ctx = dft.prepare(b);
  if constexpr (DEF) { direct.convolve(a, dv); dft.convolve(b, ctx, dv); dft.convolve(b2, ctx, dv); } else { direct.convolve(a); dft.convolve(b, ctx); dft.convolve(b2, ctx); }
  cmp(*a, "direct-convolution"); cmp(*b, "dft-convolution"); cmp(*b2, "dft-context-reuse");
  if (!DEF || dv == 0) { auto b3 = VectorImage<T>::create(w, h, im); dft.convolve(b3); cmp(*b3, "dft-convolution"); }
  c.check(kern->getData() == kcopy, "kernel-changed", name);
  c.sig(vh::fmt("%s %d %d %d %d", name, w, h, kw, kh)); c.sample(vh::fmt("%s image %dx%d kernel %dx%d", name, w, h, kw, kh));
}
SECTION(convolution, 600, 20000) {
  switch (c.kase % 6) {
  case 0: convPad<float, PaddedImage<float, Reflect101Coordinates>, false>(c, "reflect101", refl101); break;
  case 1: convPad<float, PaddedImage<float>, true>(c, "constant", nullptr); break;
  case 2: convPad<float, PaddedImage<float, ReflectCoordinates>, false>(c, "reflect", refl); break;
  case 3: convPad<float, PaddedImage<float, ReplicateCoordinates>, false>(c, "replicate", repl); break;
  case 4: convPad<double, PaddedImage<double, Reflect101Coordinates>, false>(c, "reflect101 double", refl101); break;
  default: convPad<double, PaddedImage<double>, true>(c, "constant double", nullptr); break;
  }
}

// the detection filter: weighted mean over usable pixels, zero at unusable ones, the same for every tile
SECTION(filter, 500, 15000) {
  int w = c.rng.i(1, c.rng.p(0.3) ? 60 : 20), h = c.rng.i(1, c.rng.p(0.3) ? 60 : 20), kw = c.rng.i(1, 9), kh = c.rng.i(1, 9);
  if (c.rng.p(0.75)) { kw |= 1; kh |= 1; }
  double badp = c.rng.p(0.2) ? 0 : c.rng.d(0, 0.7); SeFloat thr = static_cast<SeFloat>(c.rng.d(1, 100));
  std::vector<SeFloat> im(static_cast<size_t>(w) * h), var(im.size()), k(static_cast<size_t>(kw) * kh);
  for (auto& v : im) v = static_cast<SeFloat>(c.rng.d(-100, 100)); for (auto& v : var) v = c.rng.p(badp) ? (c.rng.p(0.3) ? thr : thr * static_cast<SeFloat>(c.rng.d(1.01, 50))) : thr * static_cast<SeFloat>(c.rng.d(0, 0.99));
  for (auto& v : k) v = static_cast<SeFloat>(c.rng.d(0.05, 1));
  if (c.rng.p(0.3)) for (size_t i = 0; i < im.size(); ++i) if (var[i] >= thr && c.rng.p(0.7)) im[i] = 1e6f;  // unusable pixels must not leak
  bool viaClass = c.rng.p(0.5);
  auto img = Img::create(w, h, im), vi = Img::create(w, h, var), kern = Img::create(kw, kh, k);
  TileManager::getInstance()->setOptions(c.rng.i(1, 40), c.rng.i(1, 40), 50);
  std::shared_ptr<Image<SeFloat>> out; bool dft;
  std::shared_ptr<ImageSource> src;
  bool norm = c.rng.p(0.5); double tot = 0; for (auto v : k) tot += v;
  if (viaClass) { BackgroundConvolution bc(kern, norm); out = bc.processImage(img, vi, thr); dft = kw > 5; c.check(kern->getData() == k, "kernel-changed", "the caller's filter was changed"); }
  else if ((dft = c.rng.p(0.5))) { src = std::make_shared<BgDFTConvolutionImageSource>(img, vi, thr, kern); out = BufferedImage<SeFloat>::create(src); }
  else { src = std::make_shared<BgConvolutionImageSource>(img, vi, thr, kern); out = BufferedImage<SeFloat>::create(src); }
  auto full = out->getChunk(0, 0, w, h);
  // an even kernel has its origin at one of its two middle pixels, the same for the whole image
  std::vector<std::pair<int, int>> centres{{(kw - 1) / 2, (kh - 1) / 2}}; if (kw % 2 == 0 || kh % 2 == 0) centres.emplace_back(kw / 2, kh / 2);
  double leak = 0; for (size_t i = 0; i < im.size(); ++i) if (var[i] < thr) leak = std::max(leak, std::fabs(double(im[i])));
  std::string err; int used = 0;
  for (auto ct : centres) {
    err.clear();
    for (int y = 0; y < h && err.empty(); ++y) for (int x = 0; x < w; ++x) {
      double s = 0, n = 0;
      for (int j = 0; j < kh; ++j) for (int i = 0; i < kw; ++i) { int px = x + ct.first - i, py = y + ct.second - j; if (px < 0 || py < 0 || px >= w || py >= h) continue; size_t q = px + static_cast<size_t>(py) * w; if (!(var[q] < thr)) continue; s += double(im[q]) * k[i + static_cast<size_t>(j) * kw]; n += k[i + static_cast<size_t>(j) * kw]; }
      bool ok = var[x + static_cast<size_t>(y) * w] < thr; double r = ok ? s / n : 0, g = full->getValue(x, y), t = (dft ? 1e-5 * leak * tot / (ok ? n : 1) : 1e-5 * leak) + 1e-6; used += ok;
      if (ok ? !vh::near(g, r, 0, t) : g != 0) { err = vh::fmt("%s %dx%d, kernel %dx%d, tiles %dx%d: pixel (%d,%d) is %g, weighted mean of usable pixels is %g (tolerance %g)", dft ? "DFT" : "direct", w, h, kw, kh, TileManager::getInstance()->getTileWidth(), TileManager::getInstance()->getTileHeight(), x, y, g, r, t); break; }
    }
    if (err.empty()) break;
  }
  c.count(static_cast<uint64_t>(w) * h); if (!err.empty()) c.fail(dft ? "filter-dft" : "filter-direct", err);
  if (src) for (int q = 0; q < 3; ++q) {
    int tw = c.rng.i(1, w), th = c.rng.i(1, h), x = c.rng.i(0, w - tw), y = c.rng.i(0, h - th); auto t = src->getImageTile(x, y, tw, th);
    for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) { double g = t->getValue<float>(x + i, y + j), r = full->getValue(x + i, y + j), tl = 2e-5 * leak * tot / 0.05 * (dft ? 1 : 0.1) + 1e-5; c.checkf(vh::near(g, r, 0, tl), "filter-tile", [&] { return vh::fmt("%s %dx%d, kernel %dx%d: tile (%d,%d)+%dx%d has %g at (%d,%d), the whole image %g", dft ? "DFT" : "direct", w, h, kw, kh, x, y, tw, th, g, x + i, y + j, r); }); }
  }
  TileManager::getInstance()->flush();
  c.counter("usable_pixels", used);
  c.sig(vh::fmt("%d %d %d %d %d %d", w, h, kw, kh, dft, int(badp * 10)));
}

// the same results from many threads at once, with plans being created underneath
SECTION(concurrent, 16, 400) {
  int threads = 6, n = 14; std::atomic<int> bad{0}; std::mutex m; std::string first; std::vector<std::thread> ts; int base = c.rng.i(3, 60);
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, seed = c.rng.u64()] {
    vh::Rng r(seed);
    for (int q = 0; q < n; ++q) {
      int w = base + r.i(0, 4), h = base + r.i(0, 4), kw = 3 + 2 * r.i(0, 3); std::vector<float> im(static_cast<size_t>(w) * h), k(static_cast<size_t>(kw) * kw);
      for (auto& v : im) v = static_cast<float>(r.d(-100, 100)); for (auto& v : k) v = static_cast<float>(r.d(0, 1)); double mag;
      auto ref = reference(im, w, h, k, kw, kw, refl101, 0, &mag); DFTConvolution<float> d(VectorImage<float>::create(kw, kw, k)); auto o = VectorImage<float>::create(w, h, im); d.convolve(o);
      for (size_t i = 0; i < ref.size(); ++i) if (!vh::near(o->getData()[i], ref[i], 0, 2e-5 * mag)) { ++bad; std::lock_guard<std::mutex> l(m); first = vh::fmt("%dx%d kernel %d: pixel %zu is %g, sum gives %g", w, h, kw, i, o->getData()[i], ref[i]); break; }
    }
  });
  for (auto& t : ts) t.join();
  c.checkf(bad == 0, "concurrent-convolution", [&] { return first; }); c.count(threads * n); c.sig(std::to_string(base));
}
VH_MAIN
