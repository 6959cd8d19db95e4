// C10: background modelling against its definition, brute-force cell operations and metamorphic relations.
#include "vh.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/ScaledImageSource.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEImplementation/Background/SE/ImageMode.h"
#include "SEImplementation/Background/SE/MedianFilter.h"
#include "SEImplementation/Background/SE/ReplaceUndefImage.h"
#include "SEImplementation/Background/SE/SEBackgroundLevelAnalyzer.h"
#include "SEImplementation/Background/SimpleBackgroundAnalyzer.h"
#include <algorithm>

using namespace SourceXtractor;
using Img = std::vector<float>;
static const float INVALID = std::numeric_limits<float>::lowest();
static std::shared_ptr<VectorImage<SeFloat>> vi(int w, int h, const Img& v) { return VectorImage<SeFloat>::create(w, h, v); }
static float med(std::vector<float> v) { std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2; }

SECTION(replace_undef, 400, 20000) {
  auto& r = c.rng; int w = r.i(1, 12), h = r.i(1, 12); Img v(w * h); float inv = r.p(.7) ? INVALID : r.p(.5) ? 0.f : -1.f; double p = r.p(.1) ? 1 : r.p(.1) ? 0 : r.d();
  for (auto& x : v) x = r.p(p) ? inv : r.i(1, 1000) * .25f;
  auto out = ReplaceUndef<SeFloat>(*vi(w, h, v), inv);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    double want = v[x + y * w]; bool undef = v[x + y * w] == inv;
    if (undef) {
      long best = -1; double sum = 0; int n = 0;
      for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) if (v[i + j * w] != inv) { long d = (i - x) * (i - x) + (j - y) * (j - y); if (best < 0 || d < best) { best = d; sum = 0; n = 0; } if (d == best) { sum += v[i + j * w]; ++n; } }
      want = n ? sum / n : 0;
    }
    if (!c.checkf(vh::near(out->getValue(x, y), want, undef ? 1e-6 : 0, 0), "replace-undef", [&] { return vh::fmt("cell %d,%d of %dx%d is %g, the mean of the closest usable ones is %g", x, y, w, h, out->getValue(x, y), want); })) return;
  }
  c.sig(vh::fmt("%d %d %.2f", w, h, p));
}

SECTION(median_filter, 400, 20000) {
  auto& r = c.rng; int w = r.i(1, 14), h = r.i(1, 14), bw = r.i(0, 11), bh = r.p(.5) ? bw : r.i(0, 11); Img v(w * h), s(w * h); float thr = r.p(.5) ? 0 : r.i(0, 40);
  for (auto& x : v) x = r.i(-100, 100); for (auto& x : s) x = r.i(0, 1000);
  auto out = MedianFilter<SeFloat>(bw, bh)(*vi(w, h, v), *vi(w, h, s), thr);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    int hw = std::min({bw / 2, x, w - 1 - x}), hh = std::min({bh / 2, y, h - 1 - y}); std::vector<float> a, b;
    for (int j = y - hh; j <= y + hh; ++j) for (int i = x - hw; i <= x + hw; ++i) { a.push_back(v[i + j * w]); b.push_back(s[i + j * w]); }
    float m = med(a), m2 = med(b); bool rep = std::abs(m - v[x + y * w]) >= thr; float wv = rep ? m : v[x + y * w], ws = rep ? m2 : s[x + y * w];
    if (!c.checkf(out.first->getValue(x, y) == wv && out.second->getValue(x, y) == ws, "median", [&] { return vh::fmt("cell %d,%d of %dx%d box %dx%d threshold %g: %g/%g instead of %g/%g", x, y, w, h, bw, bh, thr, out.first->getValue(x, y), out.second->getValue(x, y), wv, ws); })) return;
  }
  c.sig(vh::fmt("%d %d %d %d %g", w, h, bw, bh, thr));
}

struct Model { Img level, variance; float scaling, rms; };
static Model grab(const BackgroundModel& m) {
  Model o; auto l = m.getLevelMap(), v = m.getVarianceMap(); int w = l->getWidth(), h = l->getHeight();
  auto cl = l->getChunk(0, 0, w, h); auto cv = v->getChunk(0, 0, w, h);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { o.level.push_back(cl->getValue(x, y)); o.variance.push_back(cv->getValue(x, y)); }
  o.scaling = m.getScalingFactor(); o.rms = m.getMedianRms(); TileManager::getInstance()->flush(); return o;
}
struct Setup { int w, h, cw, ch, sw, sh; bool hasMask = false, hasVar = false; std::vector<unsigned char> mask; Img var; float thr = 1e30f; };
static std::string desc(const Setup& s) { return vh::fmt("%dx%d cell %dx%d smooth %dx%d mask %d var %d", s.w, s.h, s.cw, s.ch, s.sw, s.sh, s.hasMask, s.hasVar); }
static Model run(const Setup& s, const Img& img, bool one = false) {
  std::shared_ptr<WeightImage> var; if (s.hasVar) var = vi(s.w, s.h, s.var);
  std::shared_ptr<Image<unsigned char>> mask; if (s.hasMask) mask = VectorImage<unsigned char>::create(s.w, s.h, s.mask);
  std::vector<int> cs{s.cw, s.ch}, ss{s.sw, s.sh}; if (one && s.cw == s.ch) cs.resize(1); if (one && s.sw == s.sh) ss.resize(1);
  SEBackgroundLevelAnalyzer a(cs, ss, WeightImageConfig::WeightType::WEIGHT_TYPE_FROM_BACKGROUND);
  return grab(a.analyzeBackground(vi(s.w, s.h, img), var, mask, s.thr));
}
static Setup setup(vh::Rng& r, bool masks) {
  Setup s; s.w = r.i(1, 70); s.h = r.i(1, 70); s.cw = r.i(1, 40); s.ch = r.p(.5) ? s.cw : r.i(1, 40); s.sw = r.i(0, 5); s.sh = r.p(.5) ? s.sw : r.i(0, 5);
  if (s.cw < 4 && s.ch < 4) { s.w = std::min(s.w, 30); s.h = std::min(s.h, 30); }
  TileManager::getInstance()->setOptions(r.i(3, 80), r.i(3, 80), 100);
  s.hasMask = masks && r.p(.5); s.hasVar = masks && r.p(.6);
  double p = r.p(.1) ? 1 : r.d(0, .7);
  if (s.hasMask) for (int k = 0; k < s.w * s.h; ++k) s.mask.push_back(r.p(p) ? (r.p(.8) ? 1 : 255) : (r.p(.8) ? 0 : 2));  // only bit 0 masks
  if (s.hasVar) { s.thr = r.p(.3) ? 1e30f : 10; double q = r.d(0, .5); for (int k = 0; k < s.w * s.h; ++k) s.var.push_back(r.p(q) ? (r.p(.5) ? 10.f : 1e30f) : r.i(1, 36) * .25f); }
  return s;
}
static bool excluded(const Setup& s, int k) { return (s.hasMask && (s.mask[k] & 1)) || (s.hasVar && s.var[k] >= s.thr); }

SECTION(constant, 300, 8000) {
  auto& r = c.rng; auto s = setup(r, true); float sky = r.p(.2) ? 0.f : static_cast<float>((r.p(.5) ? -1 : 1) * std::pow(10., r.d(-12, 6)));
  Img img(s.w * s.h, sky); int usable = 0; bool half = false;
  for (int k = 0; k < s.w * s.h; ++k) if (excluded(s, k)) img[k] = r.p(.3) ? NAN : r.p(.5) ? 1e20f : static_cast<float>(r.gauss()); else ++usable;
  // a cell needs half of its pixels
  for (int y = 0; y < s.h; y += s.ch) for (int x = 0; x < s.w; x += s.cw) { int n = 0, t = 0; for (int j = y; j < std::min(s.h, y + s.ch); ++j) for (int i = x; i < std::min(s.w, x + s.cw); ++i) { ++t; n += !excluded(s, i + j * s.w); } if (2 * n >= t) half = true; }
  float want = half ? sky : 0;
  auto m = run(s, img, r.p(.5));
  for (int k = 0; k < s.w * s.h; ++k) if (!c.checkf(std::abs(m.level[k] - want) <= 2e-6 * std::abs(sky), "constant-level", [&] { return vh::fmt("sky %g: level %g at %d,%d; ", sky, m.level[k], k % s.w, k / s.w) + desc(s); })) return;
  c.checkf(m.rms >= 0 && m.rms <= 1e-5 * std::abs(sky), "constant-rms", [&] { return vh::fmt("sky %g: rms %g; ", sky, m.rms) + desc(s); });
  for (int k = 0; k < s.w * s.h; ++k) if (!c.checkf(m.variance[k] >= 0 && m.variance[k] <= 1e-10 * sky * sky, "constant-variance", [&] { return vh::fmt("sky %g: variance %g; ", sky, m.variance[k]) + desc(s); })) return;
  if (s.hasVar) c.checkf(std::isfinite(m.scaling), "constant-scaling", [&] { return vh::fmt("scaling %g; ", m.scaling) + desc(s); });
  c.counter(half ? "usable" : "nothing usable"); c.sig(desc(s) + vh::fmt(" %g", sky));
}

static Img noisy(vh::Rng& r, const Setup& s, float sky, double noise, double sources) {
  Img v(s.w * s.h); for (auto& x : v) x = static_cast<float>(std::round((sky + noise * r.gauss()) * 64) / 64);
  int n = static_cast<int>(sources * s.w * s.h); for (int k = 0; k < n; ++k) v[r.i(0, s.w * s.h - 1)] += static_cast<float>(std::round(r.d(5, 300) * noise));
  return v;
}
// relations that must hold exactly, or up to rounding
SECTION(relations, 300, 8000) {
  auto& r = c.rng; auto s = setup(r, true); double noise = r.d(1, 30); Img img = noisy(r, s, r.i(-200, 200), noise, r.p(.5) ? 0 : r.d(0, .1));
  auto m = run(s, img); int n = s.w * s.h; size_t nb = 0; (void)nb;
  // excluded pixels have no influence, whatever they hold
  if (s.hasMask || s.hasVar) {
    auto img2 = img; auto s2 = s; for (int k = 0; k < n; ++k) if (excluded(s, k)) { img2[k] = r.p(.2) ? NAN : r.p(.2) ? INFINITY : r.p(.2) ? INVALID : static_cast<float>(1e6 * r.gauss()); if (s.hasVar && s.var[k] >= s.thr && r.p(.5)) s2.var[k] = s.thr * (1 + std::abs(r.gauss())); }
    auto m2 = run(s2, img2); bool ok = memcmp(&m.level[0], &m2.level[0], n * sizeof(float)) == 0 && memcmp(&m.variance[0], &m2.variance[0], n * sizeof(float)) == 0 && (m.rms == m2.rms) && (m.scaling == m2.scaling);
    c.checkf(ok, "excluded-influence", [&] { return "the contents of excluded pixels change the model; " + desc(s); });
  }
  // powers of two scale everything exactly
  { int e = r.i(-60, 30); double f = std::ldexp(1., e); auto img2 = img; for (auto& x : img2) x = static_cast<float>(x * f); auto m2 = run(s, img2);
    for (int k = 0; k < n; ++k) if (!c.checkf(vh::near(m2.level[k], m.level[k] * f, 1e-5, 1e-5 * noise * f), "scale-level", [&] { return vh::fmt("2^%d: level %g instead of %g; ", e, m2.level[k], m.level[k] * f) + desc(s); })) return;
    c.checkf(vh::near(m2.rms, m.rms * f, 1e-5, 1e-6 * noise * f), "scale-rms", [&] { return vh::fmt("2^%d: rms %g instead of %g; ", e, m2.rms, m.rms * f) + desc(s); });
    for (int k = 0; k < n; ++k) if (!c.checkf(vh::near(m2.variance[k], m.variance[k] * f * f, 1e-4, 1e-4 * noise * noise * f * f), "scale-variance", [&] { return vh::fmt("2^%d: variance %g instead of %g; ", e, m2.variance[k], m.variance[k] * f * f) + desc(s); })) return;
    if (s.hasVar && m.rms > 0 && m.scaling != 1 && e > -40) c.checkf(vh::near(m2.scaling, m.scaling * f * f, 1e-4, 0), "scale-scaling", [&] { return vh::fmt("2^%d: scaling %g instead of %g; ", e, m2.scaling, m.scaling * f * f) + desc(s); });
  }
  // an offset moves the level and nothing else
  { float k0 = static_cast<float>(r.i(-4000, 4000)); auto img2 = img; for (auto& x : img2) x += k0; auto m2 = run(s, img2);
    bool half = false; for (int y = 0; y < s.h; y += s.ch) for (int x = 0; x < s.w; x += s.cw) { int u = 0, t = 0; for (int j = y; j < std::min(s.h, y + s.ch); ++j) for (int i = x; i < std::min(s.w, x + s.cw); ++i) { ++t; u += !excluded(s, i + j * s.w); } if (2 * u >= t) half = true; }
    if (half) {
      double worst = 0; for (int k = 0; k < n; ++k) worst = std::max<double>(worst, std::abs(m2.level[k] - m.level[k] - k0));
      double tol = 2e-3 + .3 * noise;  // values near the edge of a bin of the histogram may change bin
      c.checkf(worst <= tol * 3, "offset-level", [&] { return vh::fmt("offset %g: level moves by up to %g more or less (noise %g); ", k0, worst, noise) + desc(s); });
      c.checkf(std::abs(m2.rms - m.rms) <= tol * 2, "offset-rms", [&] { return vh::fmt("offset %g: rms %g instead of %g; ", k0, m2.rms, m.rms) + desc(s); });
    }
  }
  // the weights only scale the scaling
  if (s.hasVar) { auto s2 = s; int e = r.i(-10, 10); for (auto& x : s2.var) x = std::ldexp(x, e); s2.thr = std::ldexp(s.thr, e); auto m2 = run(s2, img);
    bool ok = memcmp(&m.level[0], &m2.level[0], n * sizeof(float)) == 0 && m.rms == m2.rms; c.checkf(ok, "weight-scale", [&] { return "the unit of the weights changes the background; " + desc(s); });
    if (m.scaling != 1) c.checkf(vh::near(m2.scaling, std::ldexp(m.scaling, -e), 1e-4, 0), "weight-scaling", [&] { return vh::fmt("weights x 2^%d: scaling %g instead of %g; ", e, m2.scaling, std::ldexp(m.scaling, -e)) + desc(s); }); }
  // one number stands for both axes
  if (s.cw == s.ch || s.sw == s.sh) { auto m2 = run(s, img, true); c.checkf(m.level == m2.level && m.rms == m2.rms, "one-number", [&] { return "one cell or box size does not stand for both axes; " + desc(s); }); }
  // transposing everything transposes the model
  { auto t = s; std::swap(t.w, t.h); std::swap(t.cw, t.ch); std::swap(t.sw, t.sh); Img it(n); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { int a = x + y * s.w, b = y + x * s.h; it[b] = img[a]; if (s.hasMask) t.mask[b] = s.mask[a]; if (s.hasVar) t.var[b] = s.var[a]; }
    auto m2 = run(t, it); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { float a = m.level[x + y * s.w], b = m2.level[y + x * s.h]; if (!c.checkf(vh::near(a, b, 1e-4, 2e-3 + .12 * noise), "transposed", [&] { return vh::fmt("level %g at %d,%d, transposed %g; ", a, x, y, b) + desc(s); })) return; } }
  c.sig(desc(s));
}

// statistics of a noisy sky with sources, cell by cell
SECTION(sky, 60, 2000) {
  auto& r = c.rng; Setup s = setup(r, false); s.cw = r.i(16, 40); s.ch = r.i(16, 40); int nx = r.i(1, 4), ny = r.i(1, 4); s.w = s.cw * nx; s.h = s.ch * ny; s.sw = r.i(0, 3); s.sh = r.i(0, 3);
  double noise = std::pow(10, r.d(-8, 3)), sky = noise * r.d(-300, 300); double frac = r.p(.5) ? 0 : r.d(0, .04);
  s.hasVar = r.p(.5); double unit = std::pow(10, r.d(-3, 3)); if (s.hasVar) { s.var.assign(s.w * s.h, static_cast<float>(unit)); s.thr = 1e30f; }
  Img v(s.w * s.h); for (auto& x : v) x = static_cast<float>(sky + noise * r.gauss()); for (int k = 0; k < frac * s.w * s.h; ++k) v[r.i(0, s.w * s.h - 1)] = static_cast<float>(sky + noise * r.d(6, 500));
  auto m = run(s, v); double N = s.cw * s.ch;
  for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { double l = m.level[x * s.cw + s.cw / 2 + (y * s.ch + s.ch / 2) * s.w];
    c.checkf(std::abs(l - sky) <= noise * (14 / std::sqrt(N) + .3 * std::sqrt(frac) + .05), "sky-level", [&] { return vh::fmt("sky %g noise %g sources %.3f: level %g, off by %.3f sigma; ", sky, noise, frac, l, (l - sky) / noise) + desc(s); }); }
  c.checkf(m.rms > noise * (.9 - 4 / std::sqrt(N)) && m.rms < noise * (1.1 + 4 / std::sqrt(N) + 3 * frac), "sky-rms", [&] { return vh::fmt("noise %g sources %.3f: rms %g; ", noise, frac, m.rms) + desc(s); });
  if (s.hasVar) c.checkf(m.scaling > .6 * noise * noise / unit && m.scaling < 1.6 * noise * noise / unit, "sky-scaling", [&] { return vh::fmt("noise %g weights %g: scaling %g; ", noise, unit, m.scaling) + desc(s); });
  else for (auto q : m.variance) if (!c.checkf(vh::near(q, double(m.rms) * m.rms, 1e-5, 0), "constant-variance-map", [&] { return vh::fmt("variance %g, rms %g", q, m.rms); })) break;
  c.sig(desc(s) + vh::fmt("%.3f", noise));
}

// a plane is followed, also when the image is no multiple of the cell
SECTION(plane, 200, 5000) {
  auto& r = c.rng; Setup s = setup(r, false); s.cw = r.i(8, 24); s.ch = r.i(8, 24); bool multiple = r.p(.5);
  if (multiple) { s.w = s.cw * r.i(1, 5); s.h = s.ch * r.i(1, 5); } else { s.w = r.i(s.cw, 80); s.h = r.i(s.ch, 80); }
  double gx = r.d(-5, 5), gy = r.d(-5, 5); if (!multiple) { if (r.p(.5)) gx = 0; else gy = 0; }
  Img v(s.w * s.h); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) v[x + y * s.w] = static_cast<float>(100 + gx * x + gy * y);
  auto m = run(s, v);
  int nx = (s.w + s.cw - 1) / s.cw, ny = (s.h + s.ch - 1) / s.ch;
  // with one cell along an axis there is no slope to be known along it
  double tol = 1.8 * (std::abs(gx) + std::abs(gy)) + .06 * (std::abs(gx) * s.cw + std::abs(gy) * s.ch);
  for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) {
    // extrapolated pixels of the border are left to a looser tolerance
    bool in = x >= s.cw / 2 && x <= s.w - 1 - s.cw / 2 && y >= s.ch / 2 && y <= s.h - 1 - s.ch / 2;
    double cx = nx > 1 ? x : (s.w - 1) / 2., cy = ny > 1 ? y : (s.h - 1) / 2., want = 100 + gx * cx + gy * cy, got = m.level[x + y * s.w];
    if (!c.checkf(std::abs(got - want) <= (in ? 1 : 2.5) * tol + 1e-3, "plane", [&] { return vh::fmt("slopes %.2f %.2f: level %g at %d,%d instead of %g (tolerance %g); ", gx, gy, got, x, y, want, tol) + desc(s); })) return;
  }
  c.sig(desc(s));
}

// every pixel a cell of its own: the level is the image, smoothed
SECTION(unit_cells, 60, 1000) {
  auto& r = c.rng; Setup s = setup(r, false); s.cw = s.ch = 1; s.w = r.i(1, 12); s.h = r.i(1, 12); s.sw = r.i(0, 4); s.sh = r.i(0, 4);
  Img v(s.w * s.h); for (auto& x : v) x = r.i(-1000, 1000); auto m = run(s, v);
  auto want = MedianFilter<SeFloat>(s.sw, s.sh)(*vi(s.w, s.h, v), *vi(s.w, s.h, v)).first;
  for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) c.checkf(vh::near(m.level[x + y * s.w], want->getValue(x, y), 1e-5, 1e-3), "unit-cells", [&] { return vh::fmt("level %g at %d,%d instead of %g; ", m.level[x + y * s.w], x, y, want->getValue(x, y)) + desc(s); });
  c.checkf(m.rms == 0, "unit-cells-rms", [&] { return vh::fmt("rms %g of cells of one pixel", m.rms); });
  c.sig(desc(s));
}

SECTION(simple, 100, 2000) {
  auto& r = c.rng; int w = r.i(1, 40), h = r.i(1, 40); Img v(w * h); for (auto& x : v) x = static_cast<float>(r.gauss() * 10 + 100); if (r.p(.1)) for (auto& x : v) x = 5;
  auto m = grab(SimpleBackgroundAnalyzer().analyzeBackground(vi(w, h, v), nullptr, nullptr, 0)); auto o = v; std::sort(o.begin(), o.end()); float want = o[o.size() / 2]; double s2 = 0; int n = 0;
  for (auto x : v) if (x < want) { double d = static_cast<float>(x - want); s2 += d * d; ++n; } if (n) s2 /= n;
  c.checkf(m.level == Img(w * h, want), "simple-level", [&] { return vh::fmt("level %g instead of the median %g", m.level[0], want); });
  c.checkf(vh::near(m.rms, std::sqrt(s2), 1e-5, 0) && vh::near(m.variance[0], s2, 1e-5, 0), "simple-rms", [&] { return vh::fmt("rms %g variance %g instead of %g", m.rms, m.variance[0], s2); });
  c.sig(vh::fmt("%d %d", w, h));
  // images that do not match are refused
  SEBackgroundLevelAnalyzer a({8}, {3}, WeightImageConfig::WeightType::WEIGHT_TYPE_FROM_BACKGROUND); int dw = r.i(0, 1);
  bool threw = false; try { a.analyzeBackground(vi(w, h, v), ConstantImage<WeightImage::PixelType>::create(w + dw, h + 1 - dw, 1.f), nullptr, 1e30f); } catch (const std::exception&) { threw = true; }
  c.check(threw, "size-mismatch", "a weight image of another size was accepted");
  threw = false; try { a.analyzeBackground(vi(w, h, v), nullptr, ConstantImage<unsigned char>::create(w + dw, h + 1 - dw, 0), 1e30f); } catch (const std::exception&) { threw = true; }
  c.check(threw, "size-mismatch", "a mask of another size was accepted");
}
VH_MAIN
