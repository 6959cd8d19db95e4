// C11: apertures, aperture photometry, its flags, and the detection of neighbour pixels.
#include "vh.h"
#include <algorithm>
#include <memory>
#include <set>
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/Flagging.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Aperture/NeighbourInfo.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Image/VectorImage.h"
using namespace SourceXtractor;
using vh::fmt;
namespace {
typedef std::shared_ptr<VectorImage<SeFloat>> VP;
struct Mat { double a, b, c, d; bool id; };   // (x,y) -> (x a + y c, x b + y d)
// An aperture and its definition; cover() gives the range of coverages which rounding in single precision allows
struct Shape {
  std::shared_ptr<Aperture> ap; std::string name; bool circle; double r, cxx, cyy, cxy; std::vector<Mat> m;
  std::pair<double, double> local(double dx, double dy) const { for (auto t = m.rbegin(); t != m.rend(); ++t) { double det = t->a * t->d - t->b * t->c, x = (dx * t->d - dy * t->c) / det, y = (-dx * t->b + dy * t->a) / det; dx = x; dy = y; } return {dx, dy}; }
  double rho2(double dx, double dy) const { auto l = local(dx, dy); dx = l.first; dy = l.second; return circle ? dx * dx + dy * dy : cxx * dx * dx + cyy * dy * dy + cxy * dx * dy; }
  std::pair<double, double> cover(double dx, double dy, double scale) const {
    double tol = (r * r + 1) * 1e-5 + scale * 3e-6 * (r + 1);
    if (!circle) { double q = rho2(dx, dy), t = tol + scale * 3e-6 * (r + 1) * std::sqrt(std::max(cxx, cyy)); return {q < r * r - t ? 1 : 0, q < r * r + t ? 1 : 0}; }
    auto l = local(dx, dy); int lo = 0, hi = 0;
    for (int j = 0; j < 10; ++j) for (int i = 0; i < 10; ++i) { double x = l.first + (i - 5) / 10., y = l.second + (j - 5) / 10., q = x * x + y * y; lo += q <= r * r - tol; hi += q <= r * r + tol; }
    return {lo / 100. - 1e-5, hi / 100. + 1e-5};
  }
};
Shape randShape(vh::Ctx& c, bool small) {
  Shape s; s.circle = c.rng.p(.5); s.r = c.rng.p(.15) ? c.rng.i(1, 6) : c.rng.p(.1) ? c.rng.d(.05, .8) : c.rng.d(.5, small ? 7 : 14); s.r = static_cast<SeFloat>(s.r);
  if (s.circle) { s.ap = std::make_shared<CircularAperture>(s.r); s.name = fmt("circle r=%g", s.r); s.cxx = s.cyy = 1; s.cxy = 0; }
  else { double A = c.rng.d(.5, 3), B = A * c.rng.d(.3, 1), th = c.rng.d(-M_PI / 2, M_PI / 2), C = std::cos(th), S = std::sin(th); s.r = static_cast<SeFloat>(c.rng.d(.6, 5));
    s.cxx = static_cast<SeFloat>(C * C / A / A + S * S / B / B); s.cyy = static_cast<SeFloat>(S * S / A / A + C * C / B / B); s.cxy = static_cast<SeFloat>(2 * C * S * (1 / A / A - 1 / B / B)); s.ap = std::make_shared<EllipticalAperture>(s.cxx, s.cyy, s.cxy, s.r); s.name = fmt("ellipse a=%.2f b=%.2f th=%.2f r=%.2f", A, B, th, s.r); }
  for (int n = c.rng.p(.45) ? 1 + c.rng.p(.15) : 0; n > 0; --n) {
    Mat t; if (c.rng.p(.2)) t = {1, 0, 0, 1, true}; else { double th = c.rng.d(-M_PI, M_PI), sx = c.rng.d(.4, 1.9) * (c.rng.p(.3) ? -1 : 1), sy = c.rng.d(.4, 1.9), sh = c.rng.p(.5) ? c.rng.d(-.6, .6) : 0; if (c.rng.p(.2)) th = 0;
      t = {sx * std::cos(th), sx * std::sin(th), -sy * std::sin(th) + sh * std::cos(th), sy * std::cos(th) + sh * std::sin(th), false}; }
    s.m.push_back(t); s.ap = std::make_shared<TransformedAperture>(s.ap, std::make_tuple(t.a, t.b, t.c, t.d)); s.name += t.id ? " identity" : fmt(" transformed(%.2f %.2f %.2f %.2f)", t.a, t.b, t.c, t.d);
  }
  return s;
}
// m is applied outwards: the last one added is the outermost, and local() undoes it first
double centre(vh::Ctx& c, double lo, double hi) { double v = c.rng.d(lo, hi); if (c.rng.p(.15)) v = std::round(v); else if (c.rng.p(.1)) v = std::floor(v) + .5; return static_cast<SeFloat>(v); }
VP rand2(vh::Ctx& c, int w, int h, double lo, double hi) { auto p = VectorImage<SeFloat>::create(w, h); for (auto& v : p->getData()) v = c.rng.d(lo, hi); return p; }
}  // namespace

SECTION(shapes, 4000, 60000) {
  Shape s = randShape(c, false); double x0 = centre(c, -20, 40), y0 = c.rng.p(.2) ? centre(c, 3000, 9000) : centre(c, -20, 40); double sc = std::max(std::fabs(x0), std::fabs(y0)) + 20;
  auto mn = s.ap->getMinPixel(x0, y0), mx = s.ap->getMaxPixel(x0, y0); int pad = 4, out = 0, in = 0;
  double maxm = 1; for (auto& t : s.m) maxm *= std::max(std::fabs(t.a) + std::fabs(t.c), std::fabs(t.b) + std::fabs(t.d));
  // generous search area: everything the shape could reach
  double ext = s.circle ? s.r + 1 : s.r / std::sqrt(std::max(1e-6, (s.cxx + s.cyy) / 2 - std::sqrt(std::pow((s.cxx - s.cyy) / 2, 2) + s.cxy * s.cxy / 4))); ext = ext * maxm + 3;
  int X0 = std::floor(x0 - ext), X1 = std::ceil(x0 + ext), Y0 = std::floor(y0 - ext), Y1 = std::ceil(y0 + ext);
  for (int y = Y0; y <= Y1; ++y) for (int x = X0; x <= X1; ++x) {
    double a = s.ap->getArea(x0, y0, x, y); auto w = s.cover(x - x0, y - y0, sc); ++in;
    if (!c.checkf(a >= w.first - 1e-6 && a <= w.second + 1e-6, "coverage", [&] { return fmt("%s at (%g,%g): pixel (%d,%d) is covered %g, the definition gives %g to %g", s.name.c_str(), x0, y0, x, y, a, w.first, w.second); })) break;
    double q = s.rho2(x - x0, y - y0), g = s.ap->getRadiusSquared(x0, y0, x, y);
    c.checkf(vh::near(g, q, 1e-4, 1e-5 * sc * sc * std::max(1., std::max(s.cxx, s.cyy)) * .1), "radius", [&] { return fmt("%s at (%g,%g): squared radius of (%d,%d) is %g, expected %g", s.name.c_str(), x0, y0, x, y, g, q); });
    bool inbox = x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y;
    // a plain aperture reports bounds with every covered pixel, a transformed one with every pixel whose centre is covered
    bool must = s.m.empty() ? w.first > 0 : q < s.r * s.r * (1 - 1e-3) - 1e-3;
    if (must && !inbox) ++out;
    if (must) c.checkf(inbox, "bounds", [&] { return fmt("%s at (%g,%g): covers (%d,%d), its bounds are (%d,%d)-(%d,%d)", s.name.c_str(), x0, y0, x, y, mn.m_x, mn.m_y, mx.m_x, mx.m_y); });
    // the outline is where the squared radius crosses the border
    double th = s.circle ? .5 : 1, lo = s.r > th ? s.r - th : 0, hi = s.circle ? s.r + th : s.r, rq = std::sqrt(std::max(0., q)); double d = s.ap->drawArea(x0, y0, x, y); double eps = 1e-3 + sc * 1e-5;
    if (std::fabs(rq - lo) > eps && std::fabs(rq - hi) > eps && (lo > 0 || rq > eps)) c.checkf((d > 0) == (rq > lo && rq < hi), "outline", [&] { return fmt("%s: radius %g drawn %g", s.name.c_str(), rq, d); });
  }
  // the bounds do not exceed the shape by more than a pixel (a transformed box: by its corners)
  if (s.m.empty()) { double ex = s.r, ey = s.r; if (!s.circle) { double det = s.cxx * s.cyy - s.cxy * s.cxy / 4; ex = s.r * std::sqrt(s.cyy / det); ey = s.r * std::sqrt(s.cxx / det); }
    c.checkf(mn.m_x >= x0 - ex - 1.01 && mn.m_y >= y0 - ey - 1.01 && mx.m_x <= x0 + ex + 2.01 && mx.m_y <= y0 + ey + 2.01, "bounds-tight", [&] { return fmt("%s at (%g,%g): bounds (%d,%d)-(%d,%d)", s.name.c_str(), x0, y0, mn.m_x, mn.m_y, mx.m_x, mx.m_y); }); }
  // moving the aperture by whole pixels moves everything
  if (s.m.empty() && std::fabs(y0) < 100 && x0 == std::floor(x0 * 64) / 64 && y0 == std::floor(y0 * 64) / 64) { auto m2 = s.ap->getMinPixel(x0 + 7, y0 - 3); c.check(m2.m_x == mn.m_x + 7 && m2.m_y == mn.m_y - 3, "bounds-shift", s.name); }
  (void)pad; c.sig(s.name + fmt(" %g %g", x0, y0)); c.sample(s.name); c.counter("pixels compared", in);
}

// the definition of the flux: a sum over all pixels of the image
SECTION(flux, 8000, 120000) {
  int W = c.rng.p(.1) ? c.rng.i(1, 3) : c.rng.i(4, 40), H = c.rng.p(.1) ? c.rng.i(1, 3) : c.rng.i(4, 40); Shape s = randShape(c, true);
  double x0 = centre(c, -6, W + 6), y0 = centre(c, -6, H + 6); if (c.rng.p(.4)) { x0 = centre(c, 0, W - 1); y0 = centre(c, 0, H - 1); } if (c.rng.p(.04)) x0 = centre(c, -60, 90);
  auto img = rand2(c, W, H, -10, 100), var = rand2(c, W, H, .5, 5); double thr = 50, pbad = c.rng.p(.3) ? 0 : c.rng.d(0, .4); bool sym = c.rng.p(.5);
  for (auto& v : var->getData()) if (c.rng.p(pbad)) v = c.rng.p(.3) ? std::numeric_limits<SeFloat>::max() : c.rng.d(60, 1e6);
  if (c.rng.p(.2)) { int bx = c.rng.i(0, W - 1); for (int y = 0; y < H; ++y) var->setValue(bx, y, 1e5); }
  auto m = measureFlux(s.ap, x0, y0, img, var, thr, sym); auto mn = s.ap->getMinPixel(x0, y0), mx = s.ap->getMaxPixel(x0, y0);
  bool touches = !(mx.m_x < 0 || mx.m_y < 0 || mn.m_x >= W || mn.m_y >= H); std::string t = fmt("%s at (%g,%g) in %dx%d%s", s.name.c_str(), x0, y0, W, H, sym ? " symmetric" : "");
  c.checkf(((m.m_flags & Flags::OUTSIDE) != Flags::NONE) == !touches, "outside-flag", [&] { return t; });
  if (!touches) { c.check(m.m_flux == 0 && m.m_total_area == 0, "outside-flux", t); return; }
  bool cut = mn.m_x < 0 || mn.m_y < 0 || mx.m_x >= W || mx.m_y >= H;
  c.checkf(((m.m_flags & Flags::BOUNDARY) != Flags::NONE) == cut, "boundary-flag", [&] { return t; });
  // ranges: what single precision leaves open at the edge of the aperture is allowed
  double flo = 0, fhi = 0, vlo = 0, vhi = 0, alo = 0, ahi = 0, blo = 0, bhi = 0, mag = 0; bool amb = false;
  for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) {
    if (x < mn.m_x || x > mx.m_x || y < mn.m_y || y > mx.m_y) continue;
    auto w = s.cover(x - x0, y - y0, std::max(std::fabs(x0), std::fabs(y0)) + 20); w.first = std::max(0., w.first); if (w.second <= 1e-5 + 1e-9) continue;
    double v = img->getValue(x, y), q = var->getValue(x, y); bool bad = q > thr;
    if (bad) { v = q = 0; if (sym) { double mxx = 2 * x0 - x, myy = 2 * y0 - y; double rx = std::floor(mxx + .49999), ry = std::floor(myy + .49999);
        // an exact half may go either way
        if (std::fabs(mxx + .5 - std::round(mxx + .5)) < 3e-5 * (1 + std::fabs(x0)) || std::fabs(myy + .5 - std::round(myy + .5)) < 3e-5 * (1 + std::fabs(y0))) amb = true;
        else if (rx >= 0 && ry >= 0 && rx < W && ry < H && rx >= mn.m_x && rx <= mx.m_x && ry >= mn.m_y && ry <= mx.m_y && var->getValue(rx, ry) < thr) { v = img->getValue(rx, ry); q = var->getValue(rx, ry); }
        else if (rx >= 0 && ry >= 0 && rx < W && ry < H && !(rx >= mn.m_x && rx <= mx.m_x && ry >= mn.m_y && ry <= mx.m_y)) amb = true; } 
      blo += w.first > 0; bhi += 1; }
    double a = w.first * v, b = w.second * v; flo += std::min(a, b); fhi += std::max(a, b); vlo += w.first * q; vhi += w.second * q; alo += w.first; ahi += w.second; mag += std::fabs(b);
  }
  double e = 1e-4 * mag + 1e-3;
  c.checkf(m.m_total_area >= alo * (1 - 1e-4) - 1e-3 && m.m_total_area <= ahi * (1 + 1e-4) + 1e-3, "total-area", [&] { return fmt("%s: area %g, expected %g to %g", t.c_str(), m.m_total_area, alo, ahi); });
  if (!amb) { c.checkf(m.m_flux >= flo - e && m.m_flux <= fhi + e, "flux", [&] { return fmt("%s: flux %g, expected %g to %g", t.c_str(), m.m_flux, flo, fhi); });
    c.checkf(m.m_variance >= vlo * (1 - 1e-4) - 1e-3 && m.m_variance <= vhi * (1 + 1e-4) + 1e-3, "variance", [&] { return fmt("%s: variance %g, expected %g to %g", t.c_str(), m.m_variance, vlo, vhi); }); c.counter("fluxes compared"); }
  c.checkf(m.m_bad_area >= blo - 1e-3 && m.m_bad_area <= bhi + 1e-3, "bad-area", [&] { return fmt("%s: bad area %g, expected %g to %g", t.c_str(), m.m_bad_area, blo, bhi); });
  if (alo > 0 && ((blo / ahi > .101) || (bhi / alo < .099))) c.checkf(((m.m_flags & Flags::BIASED) != Flags::NONE) == (blo / ahi > .1), "biased-flag", [&] { return fmt("%s: %g of %g bad", t.c_str(), m.m_bad_area, m.m_total_area); });
  Flags rest = static_cast<Flags>(flags2long(m.m_flags) & ~flags2long(Flags::BIASED | Flags::BOUNDARY)); c.check(rest == Flags::NONE, "no-other-flag", t);
  c.sig(t); c.sample(t);
}

SECTION(flags, 6000, 80000) {
  int W = c.rng.i(1, 36), H = c.rng.i(1, 36); Shape s = randShape(c, true); double x0 = centre(c, -3, W + 3), y0 = centre(c, -3, H + 3); if (c.rng.p(.1)) x0 = centre(c, -50, 80);
  auto img = rand2(c, W, H, 0, 9), var = rand2(c, W, H, .5, 5), thr = rand2(c, W, H, -1, -.01); double pb = c.rng.p(.4) ? .02 : c.rng.d(0, .3), pn = c.rng.p(.4) ? .02 : c.rng.d(0, .5), po = c.rng.d(0, .7);
  std::vector<PixelCoordinate> own; std::set<std::pair<int, int>> os;
  for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { if (c.rng.p(pb)) var->setValue(x, y, 1e6); if (c.rng.p(pn)) { thr->setValue(x, y, c.rng.d(.01, 5)); } if (c.rng.p(po) && thr->getValue(x, y) > 0) { own.emplace_back(x, y); os.insert({x, y}); } }
  if (c.rng.p(.3)) { own.emplace_back(c.rng.i(-9, W + 9), H + c.rng.i(0, 9)); }  // the source may reach beyond the window
  c.rng.shuffle(own);
  Flags f = computeFlags(s.ap, x0, y0, own, img, var, thr, 50); auto mn = s.ap->getMinPixel(x0, y0), mx = s.ap->getMaxPixel(x0, y0); std::string t = fmt("%s at (%g,%g) in %dx%d", s.name.c_str(), x0, y0, W, H);
  bool cut = mn.m_x < 0 || mn.m_y < 0 || mx.m_x >= W || mx.m_y >= H; 
  c.checkf(((f & Flags::BOUNDARY) != Flags::NONE) == cut, "boundary-flag", [&] { return t; });
  auto cl = [](int v, int n) { return std::min(std::max(v, 0), n - 1); }; double alo = 0, ahi = 0, blo = 0, bhi = 0, nlo = 0, nhi = 0;
  for (int y = cl(mn.m_y, H); y <= cl(mx.m_y, H); ++y) for (int x = cl(mn.m_x, W); x <= cl(mx.m_x, W); ++x) { auto w = s.cover(x - x0, y - y0, std::max(std::fabs(x0), std::fabs(y0)) + 20); w.first = std::max(0., w.first); if (w.second <= 1e-5 + 1e-9) continue; bool sure = w.first > 0, b = var->getValue(x, y) > 50, n = thr->getValue(x, y) > 0 && !os.count({x, y}); alo += w.first; ahi += w.second; if (b) { blo += sure; bhi += 1; } if (n) { nlo += sure; nhi += 1; } }
  if (ahi < 1e-3) c.checkf((f & (Flags::BIASED | Flags::NEIGHBORS)) == Flags::NONE, "empty-aperture-flags", [&] { return t; });
  else if (alo > 0) {
    if (blo / ahi > .101 || bhi / alo < .099) { c.checkf(((f & Flags::BIASED) != Flags::NONE) == (blo / ahi > .1), "biased-flag", [&] { return fmt("%s: %g of %g bad", t.c_str(), blo, alo); }); c.counter(blo / ahi > .1 ? "biased" : "unbiased"); }
    if (nlo / ahi > .101 || nhi / alo < .099) { c.checkf(((f & Flags::NEIGHBORS) != Flags::NONE) == (nlo / ahi > .1), "neighbours-flag", [&] { return fmt("%s: %g of %g belong to others", t.c_str(), nlo, alo); }); c.counter(nlo / ahi > .1 ? "crowded" : "uncrowded"); } }
  c.check((flags2long(f) & ~flags2long(Flags::BIASED | Flags::BOUNDARY | Flags::NEIGHBORS)) == 0, "no-other-flag", t);
  // neighbour pixels in any box, also one reaching out of the image
  PixelCoordinate a(c.rng.i(-5, W - 1), c.rng.i(-5, H - 1)), b(a.m_x + c.rng.i(0, 20), a.m_y + c.rng.i(0, 20)); b.m_x = std::max(b.m_x, 0); b.m_y = std::max(b.m_y, 0); NeighbourInfo ni(a, b, own, thr);
  for (int y = cl(a.m_y, H); y <= cl(b.m_y, H); ++y) for (int x = cl(a.m_x, W); x <= cl(b.m_x, W); ++x) { bool e = thr->getValue(x, y) > 0 && !os.count({x, y}); c.checkf(ni.isNeighbourObjectPixel(x, y) == e, "neighbour-pixel", [&] { return fmt("box (%d,%d)-(%d,%d) in %dx%d: (%d,%d) should be %d", a.m_x, a.m_y, b.m_x, b.m_y, W, H, x, y, e); }); }
  c.sig(t); c.sample(t);
}

SECTION(drawing, 3000, 30000) {
  int W = c.rng.i(1, 36), H = c.rng.i(1, 36); Shape s = randShape(c, true); double x0 = centre(c, -6, W + 6), y0 = centre(c, -6, H + 6); bool fill = c.rng.p(.5);
  auto im = VectorImage<int>::create(W, H); for (auto& v : im->getData()) v = -7; std::string t = fmt("%s at (%g,%g) in %dx%d", s.name.c_str(), x0, y0, W, H);
  if (fill) fillAperture<int>(s.ap, x0, y0, im, 5); else drawAperture<int>(s.ap, x0, y0, im, 5);
  auto mn = s.ap->getMinPixel(x0, y0), mx = s.ap->getMaxPixel(x0, y0);
  for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { bool on = fill ? s.ap->getArea(x0, y0, x, y) > 0 : s.ap->drawArea(x0, y0, x, y) > 0; bool box = x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y; c.checkf(im->getValue(x, y) == (on && box ? 5 : -7), fill ? "filled" : "drawn", [&] { return fmt("%s: (%d,%d)", t.c_str(), x, y); }); }
  c.sig(t);
}

VH_MAIN
