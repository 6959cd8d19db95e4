// C15: model components, rasterised models and frame models against their analytic definition.
#include "vh.h"
#include <array>
#include <memory>
#include "ElementsKernel/Exception.h"
#include "AlexandriaKernel/memory_tools.h"
#include "ModelFitting/Parameters/ManualParameter.h"
#include "SEImplementation/Image/ImageInterfaceTraits.h"
#include "SEImplementation/Image/ImagePsf.h"
#include "SEImplementation/Image/DownSampledImagePsf.h"
#include "ModelFitting/Models/AutoSharp.h"
#include "ModelFitting/Models/OldSharp.h"
#include "ModelFitting/Models/OnlySmooth.h"
#include "ModelFitting/Models/SersicProfile.h"
#include "ModelFitting/Models/FlattenedMoffatComponent.h"
#include "ModelFitting/Models/CircularlySymmetricModelComponent.h"
#include "ModelFitting/Models/RotatedModelComponent.h"
#include "ModelFitting/Models/ScaledModelComponent.h"
#include "ModelFitting/Models/TransformModelComponent.h"
#include "ModelFitting/Models/PositionedModel.h"
#include "ModelFitting/Models/PointModel.h"
#include "ModelFitting/Models/ConstantModel.h"
#include "ModelFitting/Models/ExtendedModel.h"
#include "ModelFitting/Models/TransformedModel.h"
#include "ModelFitting/Models/CompactSersicModel.h"
#include "ModelFitting/Models/CompactExponentialModel.h"
#include "ModelFitting/Models/FrameModel.h"
#include "ModelFitting/Image/NullPsf.h"
using namespace ModelFitting;
using SourceXtractor::VectorImage; using SourceXtractor::SeFloat;
using vh::fmt;
using Img = ImageInterfaceTypePtr;

namespace {
std::shared_ptr<ManualParameter> P(double v) { return std::make_shared<ManualParameter>(v); }
struct Mock : ModelComponent {
  double a, b; std::vector<ModelSample> samples; double *sc, *rm; double rx, ry;
  double getValue(double x, double y) override { return value(x, y); }
  double value(double x, double y) const { return std::exp(-.1 * (x - a) * (x - a) - .2 * (y - b) * (y - b)) + .01 * x + .003 * y; }
  bool in(double x, double y) const { return x * x / (rx * rx) + y * y / (ry * ry) < 1; }
  void updateRasterizationInfo(double s, double r) override { *sc = s; *rm = r; }
  std::vector<ModelSample> getSharpSampling() override { return samples; }
  bool insideSharpRegion(double x, double y) override { return in(x, y); }
};
struct Wrap { int kind; std::shared_ptr<ManualParameter> p, q; double t[4]; };
typedef std::array<double, 4> M2;
M2 mul(const M2& a, const M2& b) { return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}; }
M2 inv(const M2& m) { double d = m[0] * m[3] - m[1] * m[2]; return {m[3] / d, -m[1] / d, -m[2] / d, m[0] / d}; }
M2 rot(double a) { return {std::cos(a), -std::sin(a), std::sin(a), std::cos(a)}; }
std::tuple<double, double, double, double> tup(const double* t) { return std::make_tuple(t[0], t[1], t[2], t[3]); }
void randTransform(vh::Ctx& c, double* t, double maxsc = 3) {
  M2 m = mul(mul(rot(c.rng.d(-4, 4)), M2{std::exp(c.rng.d(-1, 1) * std::log(maxsc)), 0, 0, std::exp(c.rng.d(-1, 1) * std::log(maxsc)) * (c.rng.p(.4) ? -1 : 1)}), rot(c.rng.d(-4, 4)));
  for (int i = 0; i < 4; ++i) t[i] = m[i];
}
}  // namespace

// wrappers around a recording component: values, sharp samples and sharp region map exactly
SECTION(wrappers, 4000, 60000) {
  double sc = -1, rm = -1; auto mock = std::make_unique<Mock>(); Mock* mk = mock.get(); mk->a = c.rng.d(-1, 1); mk->b = c.rng.d(-1, 1); mk->sc = &sc; mk->rm = &rm; mk->rx = c.rng.d(.5, 3); mk->ry = c.rng.d(.5, 3);
  for (int i = c.rng.i(0, 5); i > 0; --i) mk->samples.emplace_back(c.rng.d(-3, 3), c.rng.d(-3, 3), c.rng.d(-1, 2));
  Mock ref = *mk; std::unique_ptr<ModelComponent> comp = std::move(mock); std::vector<Wrap> ws; std::string t; bool plain = true;
  int n = c.rng.i(0, 4);
  for (int i = 0; i < n; ++i) {
    Wrap w; w.kind = c.rng.i(0, 2); t += "SRT"[w.kind]; bool moved = c.rng.p(.25);
    if (w.kind == 0) { w.p = P(std::exp(c.rng.d(-1.5, 1.5))); w.q = c.rng.p(.3) ? w.p : P(std::exp(c.rng.d(-1.5, 1.5))); auto q = std::make_unique<ScaledModelComponent>(std::move(comp), w.p, w.q); comp = moved ? std::make_unique<ScaledModelComponent>(std::move(*q)) : std::move(q); }
    else if (w.kind == 1) { w.p = P(c.rng.p(.2) ? 0 : c.rng.d(-7, 7)); auto q = std::make_unique<RotatedModelComponent>(std::move(comp), w.p); comp = moved ? std::make_unique<RotatedModelComponent>(std::move(*q)) : std::move(q); }
    else { if (c.rng.p(.3)) { M2 m = rot(c.rng.d(-4, 4)); double s = std::exp(c.rng.d(-1, 1)); bool fl = c.rng.p(.5); w.t[0] = s * m[0]; w.t[1] = s * m[1]; w.t[2] = s * m[2] * (fl ? -1 : 1); w.t[3] = s * m[3] * (fl ? -1 : 1); } else { randTransform(c, w.t); plain = false; }
      auto q = std::make_unique<TransformModelComponent>(std::move(comp), tup(w.t)); comp = moved ? std::make_unique<TransformModelComponent>(std::move(*q)) : std::move(q); }
    if (moved) t += "m";
    ws.push_back(w);
  }
  c.sig(t + fmt("%g", ref.a)); if (c.kase < 2) c.sample(t);
  for (int rep = 0; rep < 3; ++rep) {
    if (rep) for (auto& w : ws) { if (w.kind == 0) { w.p->setValue(std::exp(c.rng.d(-1.5, 1.5))); w.q->setValue(std::exp(c.rng.d(-1.5, 1.5))); } if (w.kind == 1) w.p->setValue(c.rng.d(-7, 7)); }
    // outward map: p_out = A p_in, value divided by `div`, sample weight multiplied by `mulw`
    M2 A{1, 0, 0, 1}; double div = 1, mulw = 1, smul = 1;
    for (auto& w : ws) {
      if (w.kind == 0) { A = mul(M2{w.p->getValue(), 0, 0, w.q->getValue()}, A); mulw *= w.p->getValue() * w.q->getValue(); smul *= 1; }
      else if (w.kind == 1) A = mul(rot(-w.p->getValue()), A);
      else { A = mul(M2{w.t[0], w.t[2], w.t[1], w.t[3]}, A); div *= std::fabs(w.t[0] * w.t[3] - w.t[1] * w.t[2]); } }
    double detA = std::fabs(A[0] * A[3] - A[1] * A[2]);
    M2 B = inv(A);
    for (int k = 0; k < 8; ++k) {
      double xi = c.rng.d(-4, 4), yi = c.rng.d(-4, 4), x = A[0] * xi + A[1] * yi, y = A[2] * xi + A[3] * yi;
      double v = comp->getValue(x, y), e = ref.value(xi, yi) / div;
      c.checkf(vh::near(v, e, 1e-9, 1e-11 / div), "wrapped-value", [&] { return fmt("%s at (%g,%g): %.12g expected %.12g", t.c_str(), x, y, v, e); });
      double edge = xi * xi / (ref.rx * ref.rx) + yi * yi / (ref.ry * ref.ry);
      if (std::fabs(edge - 1) > 1e-9) c.checkf(comp->insideSharpRegion(x, y) == ref.in(xi, yi), "wrapped-sharp-region", [&] { return fmt("%s at (%g,%g), inner (%g,%g)", t.c_str(), x, y, xi, yi); });
    }
    auto got = comp->getSharpSampling();
    if (c.checkf(got.size() == ref.samples.size(), "sample-count", [&] { return t; })) for (std::size_t k = 0; k < got.size(); ++k) {
      double xi = std::get<0>(ref.samples[k]), yi = std::get<1>(ref.samples[k]), x = A[0] * xi + A[1] * yi, y = A[2] * xi + A[3] * yi, w = std::get<2>(ref.samples[k]) * detA / div;
      c.checkf(vh::near(std::get<0>(got[k]), x, 1e-10, 1e-10) && vh::near(std::get<1>(got[k]), y, 1e-10, 1e-10), "sample-position", [&] { return fmt("%s: sample at (%g,%g) expected (%g,%g)", t.c_str(), std::get<0>(got[k]), std::get<1>(got[k]), x, y); });
      c.checkf(vh::near(std::get<2>(got[k]), w, 1e-10, 1e-13), "sample-flux", [&] { return fmt("%s: sample carries %g, expected %g", t.c_str(), std::get<2>(got[k]), w); });
    }
    if (plain) { double S = c.rng.d(.01, 3), R = c.rng.d(1, 100), f = 1; for (auto it = ws.rbegin(); it != ws.rend(); ++it) { if (it->kind == 0) f *= std::min(it->p->getValue(), it->q->getValue()); if (it->kind == 2) f *= std::sqrt(std::fabs(it->t[0] * it->t[3] - it->t[1] * it->t[2])); }
      comp->updateRasterizationInfo(S, R);
      c.checkf(vh::near(sc, S / f, 1e-9, 0) && vh::near(rm, R / f, 1e-9, 0), "raster-info", [&] { return fmt("%s: scale %g r_max %g became %g %g, factor %g", t.c_str(), S, R, sc, rm, f); }); }
  }
}

SECTION(profiles, 3000, 40000) {
  double i0 = std::exp(c.rng.d(-3, 8)), n = c.rng.d(.3, 8), k = c.rng.d(.1, 10);
  auto pi = P(i0), pn = P(n), pk = P(k); SersicProfile s0(pi, pn, pk), s(s0);
  auto pm = P(c.rng.d(.5, 6)), pd = P(c.rng.d(.6, 8)), pf = P(c.rng.d(-1, 3)); FlattenedMoffatComponent mo(pi, pm, pd, pf);
  for (int q = 0; q < 10; ++q) {
    if (q == 5) { pi->setValue(i0 *= c.rng.d(.5, 2)); pn->setValue(n = c.rng.d(.5, 5)); pm->setValue(c.rng.d(.5, 6)); pf->setValue(c.rng.d(0, 3)); }
    double r = q == 0 ? 0 : std::exp(c.rng.d(-8, 4));
    double e = r == 0 ? i0 : i0 * std::exp(-k * std::exp(std::log(r) / n));
    c.checkf(vh::near(s(r), e, 1e-11 * (1 + k * std::pow(r, 1 / n)), 1e-300), "sersic", [&] { return fmt("i0 %g n %g k %g r %g: %g expected %g", i0, n, k, r, s(r), e); });
    double x = c.rng.d(-6, 6), y = c.rng.d(-6, 6), d = pd->getValue(), z = std::exp(std::log(std::exp(d * std::log(std::fabs(x))) + std::exp(d * std::log(std::fabs(y)))) / d) - pf->getValue();
    double m = z <= 0 ? i0 : i0 / std::pow(1 + z * z, pm->getValue());
    if (std::fabs(z) > 1e-9) c.checkf(vh::near(mo.getValue(x, y), m, 1e-9, 0), "flattened-moffat", [&] { return fmt("(%g,%g): %g expected %g", x, y, mo.getValue(x, y), m); });
    c.check(!mo.insideSharpRegion(x, y) && mo.getSharpSampling().empty(), "moffat-smooth", "");
  }
  ConstantModel cm(pi), cm2(std::move(cm)); c.check(cm2.getValue() == i0, "constant", "");
  auto px = P(c.rng.d(-9, 9)), py = P(c.rng.d(-9, 9)); PositionedModel po(px, py), po2(std::move(po)); PointModel pt(px, py, pi), pt2(std::move(pt));
  px->setValue(c.rng.d(-9, 9)); pi->setValue(3.5);
  c.check(po2.getX() == px->getValue() && po2.getY() == py->getValue() && pt2.getX() == px->getValue() && pt2.getY() == py->getValue() && pt2.getValue() == 3.5 && cm2.getValue() == 3.5, "positioned", "");
  c.sig(fmt("%g %g", n, k));
}

// the sharp region managers and the sampling built on them
SECTION(sampling, 1500, 15000) {
  double n = c.rng.d(.5, 4.5), k = c.rng.d(1, 8), i0 = c.rng.d(.5, 100), scale = std::exp(c.rng.d(-2.5, 1)), rmax = scale * c.rng.d(2, 40); int kind = c.rng.i(0, 2);
  double li = c.rng.p(.5) ? 1.122 : c.rng.d(1.02, 1.2), fr = c.rng.p(.5) ? 1e-4 : std::pow(10., c.rng.d(-5, -3)), tol = c.rng.p(.5) ? .05 : c.rng.d(.01, .2), msf = c.rng.p(.5) ? 5 : c.rng.d(3, 10), rsp = c.rng.d(1, 8);
  auto pi = P(i0), pn = P(n), pk = P(k);
  auto prof = [&](double r) { return i0 * std::exp(-k * std::pow(r, 1 / n)); };
  auto make = [&]() -> std::unique_ptr<SharpRegionManager> { if (kind == 0) return std::make_unique<AutoSharp>(li, fr, tol, msf); if (kind == 1) return std::make_unique<OldSharp>(rsp, li, fr); return std::make_unique<OnlySmooth>(); };
  auto m = make(); m->updateRasterizationInfo(scale, rmax, prof);
  double rs = 0;
  if (kind == 0) { double err; int j = 0; do { double a = prof(j * scale), b = prof((j + .5) * scale), d = prof((j + 1) * scale); err = std::fabs(b - .5 * (a + d)) / b; ++j; if (std::fabs(err - tol) < 1e-7) return; } while (j * scale < rmax * (1 - 1e-12) && err >= tol); rs = std::max(std::min(j * scale, rmax), 4 * scale); }
  if (kind == 1) rs = rsp * scale;
  std::string t = fmt("%s n %.3g k %.3g scale %.3g rmax %.3g incr %.3g first %.3g", kind == 0 ? "auto" : kind == 1 ? "old" : "smooth", n, k, scale, rmax, li, fr);
  c.sig(t); if (c.kase < 3) c.sample(t);
  for (int q = 0; q < 6; ++q) { double r = rs * c.rng.d(0, 2) + (rs == 0 ? c.rng.d(0, 5) : 0); if (std::fabs(r - rs) < 1e-9 * rs) continue; c.checkf(m->insideSharpRegion(r) == (r < rs), "sharp-radius", [&] { return fmt("%s: radius %g, region ends at %g", t.c_str(), r, rs); }); }
  if (kind == 2) { c.check(!m->insideSharpRegion(0), "only-smooth", t); }
  else for (double r : {0., rs * c.rng.d(), rs * c.rng.d(), rs * c.rng.d(0, .01)}) {
    auto p = m->nextRadiusAndAngleNo(r); double e = r == 0 ? fr : kind == 1 ? r * li : std::min(r * li, r + scale / msf);
    c.checkf(vh::near(p.first, e, 1e-12, 0), "next-radius", [&] { return fmt("%s: after %g comes %g, expected %g", t.c_str(), r, p.first, e); });
    if (kind == 1) c.check(p.second == 72, "angles", t);
    else if (r > 0) { double q = 2 * M_PI * r * msf / scale; int ea = e > scale / 2 ? (int)std::ceil(q) : 1; if (std::fabs(q - std::round(q)) > 1e-7 && std::fabs(e - scale / 2) > 1e-9) c.checkf(p.second == ea, "angles", [&] { return fmt("%s: %d samples at radius %g after %g, expected %d", t.c_str(), p.second, p.first, r, ea); }); } }
  if (kind == 0 && fr > scale / 2) return;
  SersicModelComponent comp(make(), pi, pn, pk); comp.updateRasterizationInfo(scale, rmax);
  auto ss = comp.getSharpSampling();
  if (kind == 2) { c.check(ss.empty() && !comp.insideSharpRegion(0, 0), "smooth-samples", t); return; }
  double sum = 0, sx = 0, sy = 0, last = 0; for (auto& q : ss) { sum += std::get<2>(q); double r = std::hypot(std::get<0>(q), std::get<1>(q)); last = std::max(last, r); }
  // rings: reconstruct the radii and compare each ring with the profile integrated over it
  double r1 = 0; std::size_t at = 0; bool okk = true;
  for (double r2 = 0; r2 < rs && okk; r1 = r2) {
    r2 = r1 == 0 ? fr : kind == 1 ? r1 * li : std::min(r1 * li, r1 + scale / msf);
    double rh = (r1 + r2) / 2, ring = 0, cx = 0, cy = 0; int cnt = 0; double maxgap = 0; std::vector<double> ang;
    for (; at < ss.size() && std::fabs(std::hypot(std::get<0>(ss[at]), std::get<1>(ss[at])) - rh) < 1e-6 * rh + 1e-15; ++at) { ring += std::get<2>(ss[at]); cx += std::get<0>(ss[at]); cy += std::get<1>(ss[at]); ang.push_back(std::atan2(std::get<1>(ss[at]), std::get<0>(ss[at]))); ++cnt; }
    // fine quadrature of the profile over the ring
    double e = 0; const int Q = 64; for (int q = 0; q < Q; ++q) { double r = r1 + (r2 - r1) * (q + .5) / Q; e += prof(r) * 2 * M_PI * r * (r2 - r1) / Q; }
    double reltol = r1 == 0 ? 1 : .02 + .5 * std::pow(r2 / r1 - 1, 2) * (1 + k * std::pow(r2, 1 / n) / n * (1 + k * std::pow(r2, 1 / n) / n));
    okk = c.checkf(cnt > 0 && vh::near(ring, e, reltol, 1e-12 * i0 * scale * scale), "ring-flux", [&] { return fmt("%s: ring %g..%g has %d samples carrying %g, the profile %g", t.c_str(), r1, r2, cnt, ring, e); });
    if (okk && cnt > 2) { std::sort(ang.begin(), ang.end()); for (std::size_t q = 1; q < ang.size(); ++q) maxgap = std::max(maxgap, ang[q] - ang[q - 1]); okk = c.checkf(maxgap < 2.001 * M_PI / cnt && std::hypot(cx, cy) < 1e-6 * rh * cnt, "ring-angles", [&] { return fmt("%s: %d samples of ring %g: largest gap %g", t.c_str(), cnt, rh, maxgap); }); }
  }
  if (okk) c.check(at == ss.size(), "all-samples-in-rings", t);
  c.counter("sharp samples", ss.size());
}

namespace {
// integral of f over a pixel by nested midpoint sampling; refined near the core
double pixInt(const std::function<double(double, double)>& f, double x, double y, double s, int depth = 0) {
  double a = 0; const int Q = 4; for (int i = 0; i < Q; ++i) for (int j = 0; j < Q; ++j) a += f(x + ((i + .5) / Q - .5) * s, y + ((j + .5) / Q - .5) * s);
  a *= s * s / (Q * Q); if (depth >= 6) return a;
  double b = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { double px = x + (i - .5) * s / 2, py = y + (j - .5) * s / 2, q = 0; for (int u = 0; u < Q; ++u) for (int v = 0; v < Q; ++v) q += f(px + ((u + .5) / Q - .5) * s / 2, py + ((v + .5) / Q - .5) * s / 2); b += q * s * s / (4 * Q * Q); }
  if (std::fabs(a - b) < 1e-3 * std::fabs(b)) return b;
  double r = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) r += pixInt(f, x + (i - .5) * s / 2, y + (j - .5) * s / 2, s / 2, depth + 1); return r;
}
}  // namespace

// extended models rasterised on any pixel scale
SECTION(rasters, 240, 3000) {
  double sx = c.rng.d(1, 4), sy = sx * c.rng.d(.5, 1), ang = c.rng.d(-3.2, 3.2), n = c.rng.d(.5, 2.5), ps = c.rng.p(.4) ? 1 : c.rng.d(.4, 1.3); int sharp = c.rng.i(0, 1), comps = c.rng.i(1, 2); bool tr = c.rng.p(.5);
  double t4[4]; randTransform(c, t4, 1.4);
  std::vector<std::unique_ptr<ModelComponent>> list; struct Cmp { double i0, n, k; }; std::vector<Cmp> cs;
  for (int q = 0; q < comps; ++q) { Cmp k{c.rng.d(1, 100), q ? c.rng.d(.5, 1.5) : n, c.rng.d(.8, 2)}; cs.push_back(k); std::unique_ptr<SharpRegionManager> m; if (sharp == 0) m = std::make_unique<AutoSharp>(); else m = std::make_unique<OldSharp>(); list.push_back(std::make_unique<SersicModelComponent>(std::move(m), P(k.i0), P(k.n), P(k.k))); }
  auto px = P(c.rng.d(-20, 20)), py = P(c.rng.d(-20, 20)); std::shared_ptr<ExtendedModel<Img>> model; auto psx = P(sx), psy = P(sy), pa = P(ang);
  if (tr) model = std::make_shared<TransformedModel<Img>>(std::move(list), psx, psy, pa, 30, 30, px, py, tup(t4)); else model = std::make_shared<ExtendedModel<Img>>(std::move(list), psx, psy, pa, 30, 30, px, py);
  std::string t = fmt("%s%s x%d n %.3g axes %.3g %.3g angle %.3g pixel %.3g", tr ? "transformed " : "", sharp ? "old" : "auto", comps, n, sx, sy, ang, ps);
  auto value = [&](double x, double y) { double u = x, v = y, d = 1; if (tr) { M2 B = inv(M2{t4[0], t4[2], t4[1], t4[3]}); u = B[0] * x + B[1] * y; v = B[2] * x + B[3] * y; d = std::fabs(t4[0] * t4[3] - t4[1] * t4[2]); }
    double a = psx->getValue(), b = psy->getValue(), g = pa->getValue(), mx = u * std::cos(g) - v * std::sin(g), my = u * std::sin(g) + v * std::cos(g), r = std::hypot(mx / a, my / b), s = 0; for (auto& k : cs) s += k.i0 * std::exp(-k.k * std::pow(r, 1 / k.n)); return s / d; };
  for (int q = 0; q < 5; ++q) { double x = c.rng.d(-9, 9), y = c.rng.d(-9, 9), v = model->getValue(px->getValue() + x, py->getValue() + y); c.checkf(vh::near(v, value(x, y), 1e-8, 0), "model-value", [&] { return fmt("%s at offset (%g,%g): %g expected %g", t.c_str(), x, y, v, value(x, y)); }); }
  bool thrown = false; try { model->getRasterizedImage(ps, 8, 9); } catch (const std::exception&) { thrown = true; } c.check(thrown, "even-size-refused", t);
  int W = 2 * c.rng.i(8, 20) + 1, H = 2 * c.rng.i(8, 20) + 1; if (ps < .6) { W = W * 3 / 2 | 1; H = H * 3 / 2 | 1; }
  if (c.rng.p(.3)) { psx->setValue(sx = sx * c.rng.d(.8, 1.2)); pa->setValue(c.rng.d(-3, 3)); }
  auto img = model->getRasterizedImage(ps, W, H);
  c.check(img->getWidth() == W && img->getHeight() == H, "raster-size", t);
  double tot = 0, etot = 0, worst = 0; std::vector<double> ref(W * H); double peak = 0;
  for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double e = pixInt(value, (x - (W - 1) / 2) * ps, (y - (H - 1) / 2) * ps, ps, 3); ref[y * W + x] = e; etot += e; tot += img->getValue(x, y); peak = std::max(peak, e); }
  int wx = 0, wy = 0;
  // the sharp region is filled with discrete samples, so single pixels are noisy: compare 5x5 boxes
  double eb = 0, gb = 0; double pb = 0; std::vector<double> bx(W * H, -1), gx(W * H, 0);
  for (int y = 2; y < H - 2; ++y) for (int x = 2; x < W - 2; ++x) { eb = gb = 0; for (int j = -2; j <= 2; ++j) for (int i = -2; i <= 2; ++i) { eb += ref[(y + j) * W + x + i]; gb += img->getValue(x + i, y + j); } bx[y * W + x] = eb; gx[y * W + x] = gb; pb = std::max(pb, eb); }
  // AutoSharp puts all samples closer than half a (model) pixel on one axis: boxes whose edge crosses the core are left out
  for (int k = 0; k < W * H; ++k) if (bx[k] >= 0) { int ch = std::max(std::abs(k % W - W / 2), std::abs(k / W - H / 2)); if (sharp == 0 && (ch == 2 || ch == 3)) continue; double d = std::fabs(gx[k] - bx[k]) / (.1 * bx[k] + .01 * pb); if (d > worst) { worst = d; wx = k % W; wy = k / W; } }
  c.checkf(vh::near(tot, etot, .03, 0), "raster-flux", [&] { return fmt("%s %dx%d: raster holds %g, the profile %g", t.c_str(), W, H, tot, etot); });
  c.checkf(worst < 1.5, "raster-pixels", [&] { return fmt("%s %dx%d: the 5x5 box around (%d,%d) holds %g, the profile gives %g (largest box %g)", t.c_str(), W, H, wx, wy, gx[wy * W + wx], bx[wy * W + wx], pb); });
  c.counter("pixels compared", W * H); c.sig(t); if (c.kase < 3) c.sample(t);
}

SECTION(compact, 200, 2500) {
  bool expo = c.rng.p(.4); double n = expo ? 1 : c.rng.d(.5, 2.2), k = c.rng.d(1, 2), i0 = c.rng.d(1, 100), sx = c.rng.d(1.2, 4), sy = sx * c.rng.d(.4, 1), ang = c.rng.d(-3.2, 3.2), flux = c.rng.d(1, 1e4), ps = c.rng.p(.4) ? 1 : c.rng.d(.4, 1.3), t4[4]; randTransform(c, t4, 1.4);
  auto px = P(c.rng.d(-20, 20)), py = P(c.rng.d(-20, 20)), pf = P(flux), psx = P(sx), psy = P(sy), pa = P(ang); std::shared_ptr<ExtendedModel<Img>> m;
  double sr = c.rng.d(2, 20);
  if (expo) m = std::make_shared<CompactExponentialModel<Img>>(sr, P(i0), P(k), psx, psy, pa, 30, 30, px, py, pf, tup(t4)); else m = std::make_shared<CompactSersicModel<Img>>(sr, P(i0), P(k), P(n), psx, psy, pa, 30, 30, px, py, pf, tup(t4));
  std::string t = fmt("%s n %.3g k %.3g axes %.3g %.3g angle %.3g pixel %.3g sharp %.3g", expo ? "exponential" : "sersic", n, k, sx, sy, ang, ps, sr);
  auto rad = [&](double x, double y) { M2 B = inv(M2{t4[0], t4[2], t4[1], t4[3]}); double u = B[0] * x + B[1] * y, v = B[2] * x + B[3] * y, g = pa->getValue(), mx = u * std::cos(g) + v * std::sin(g), my = -u * std::sin(g) + v * std::cos(g); return std::hypot(mx / psx->getValue(), my / psy->getValue()); };
  double det = std::fabs(t4[0] * t4[3] - t4[1] * t4[2]);
  auto value = [&](double x, double y) { return i0 * std::exp(-k * std::pow(rad(x, y), 1 / n)) / det; };
  for (int q = 0; q < 5; ++q) { double x = c.rng.d(-9, 9), y = c.rng.d(-9, 9), v = m->getValue(px->getValue() + x, py->getValue() + y); c.checkf(vh::near(v, value(x, y), 1e-4 * (1 + k * std::pow(rad(x, y), 1 / n)), 1e-30), "compact-value", [&] { return fmt("%s at offset (%g,%g): %g expected %g", t.c_str(), x, y, v, value(x, y)); }); }
  bool thrown = false; try { m->getRasterizedImage(ps, 9, 8); } catch (const std::exception&) { thrown = true; } c.check(thrown, "even-size-refused", t);
  int W = 2 * c.rng.i(10, 20) + 1, H = c.rng.p(.5) ? W : 2 * c.rng.i(10, 20) + 1;
  for (int rep = 0; rep < 2; ++rep) {
    if (rep) { pf->setValue(flux *= c.rng.d(.1, 10)); pa->setValue(c.rng.d(-3, 3)); }
    auto img = m->getRasterizedImage(ps, W, H); int FW = img->getWidth(), FH = img->getHeight();
    c.checkf(FW % 2 == 1 && FH % 2 == 1 && FW >= W && FH >= H, "compact-size", [&] { return t; });
    double tot = 0, rt = 0, cx = 0, cy = 0; std::vector<double> ref(FW * FH, 0);
    for (int y = 0; y < FH; ++y) for (int x = 0; x < FW; ++x) { double v = img->getValue(x, y); tot += v; cx += v * (x - FW / 2); cy += v * (y - FH / 2); if (v != 0) rt += ref[y * FW + x] = pixInt(value, (x - FW / 2) * ps, (y - FH / 2) * ps, ps, 3); }
    c.checkf(vh::near(tot, flux, 1e-4, 0), "compact-flux", [&] { return fmt("%s: raster holds %g, flux %g", t.c_str(), tot, flux); });
    c.checkf(std::hypot(cx, cy) < .02 * tot, "compact-centre", [&] { return fmt("%s: centroid off by (%g,%g)", t.c_str(), cx / tot, cy / tot); });
    double rr = 1e30; for (int q = 0; q < 400; ++q) { double f = q / 400., hx = W * .95 / 2 * ps, hy = H * .95 / 2 * ps; rr = std::min({rr, rad(hx, hy * (2 * f - 1)), rad(hx * (2 * f - 1), hy)}); }
    auto whole = [&](int x, int y) { for (double a : {-.5, .5}) for (double b : {-.5, .5}) if (rad((x - FW / 2 + a) * ps, (y - FH / 2 + b) * ps) > .98 * rr) return false; return true; };  // the model is cut at an ellipse: pixels across its edge are left out
    double worst = 0, peak = 0; int wx = 0, wy = 0; for (double v : ref) peak = std::max(peak, v * tot / rt);
    for (int y = 0; y < FH; ++y) for (int x = 0; x < FW; ++x) if (ref[y * FW + x] > 0 && whole(x, y)) { double e = ref[y * FW + x] * tot / rt, d = std::fabs(img->getValue(x, y) - e) / (.12 * e + .025 * peak); if (d > worst) { worst = d; wx = x; wy = y; } }
    c.checkf(worst < 1.6, "compact-pixels", [&] { return fmt("%s %dx%d: pixel (%d,%d) is %g, the profile gives %g (peak %g)", t.c_str(), FW, FH, wx, wy, img->getValue(wx, wy), ref[wy * FW + wx] * tot / rt, peak); });
    // everything inside the ellipse that fits in the raster is there
    double fr = 0; int zin = 0;
    for (int y = 0; y < FH; ++y) for (int x = 0; x < FW; ++x) { double r = rad((x - FW / 2) * ps, (y - FH / 2) * ps); bool z = img->getValue(x, y) == 0; if (z && r < .98 * rr && value((x - FW / 2) * ps, (y - FH / 2) * ps) > 1e-6 * i0) ++zin; if (!z && r > 1.02 * rr + ps) fr += img->getValue(x, y); }
    c.checkf(zin == 0, "compact-coverage", [&] { return fmt("%s: %d empty pixels inside the model", t.c_str(), zin); });
  }
  c.sig(t); if (c.kase < 2) c.sample(t);
}

namespace {
std::shared_ptr<VectorImage<SeFloat>> gaussPsf(int size, double sigma, double ell = 1) {
  auto p = VectorImage<SeFloat>::create(size, size); double s = 0; std::vector<double> v(size * size);
  for (int y = 0; y < size; ++y) for (int x = 0; x < size; ++x) { double dx = x - size / 2, dy = (y - size / 2) / ell; s += v[y * size + x] = std::exp(-.5 * (dx * dx + dy * dy) / (sigma * sigma)); }
  for (int i = 0; i < size * size; ++i) p->getData()[i] = v[i] / s;
  return p;
}
}  // namespace

// the frame model is the sum of its parts, wherever they lie
SECTION(frames, 160, 2000) {
  int W = c.rng.i(5, 40), H = c.rng.i(5, 40); double pps = c.rng.p(.5) ? 1 : c.rng.d(.5, 1); double sg = c.rng.d(1.2, 1.8) / pps; int size = 2 * ((int)std::ceil(4 + 4.3 * sg) + c.rng.i(0, 3)) + 1; auto kern = gaussPsf(size, sg, c.rng.d(.7, 1.));
  double ps = c.rng.p(.7) ? 1 : c.rng.d(.7, 1.2);
  struct Pt { std::shared_ptr<ManualParameter> x, y, v; }; std::vector<Pt> pts; std::vector<std::shared_ptr<ManualParameter>> cst;
  struct Ext { std::shared_ptr<ManualParameter> x, y, s, a, f; double i0, k, ar; bool compact; double w; }; std::vector<Ext> ex;
  for (int i = c.rng.i(0, 2); i > 0; --i) cst.push_back(P(c.rng.d(-5, 5)));
  auto pos = [&](int L) { int r = c.rng.i(0, 5); return r <= 2 ? c.rng.d(0, L) : r == 3 ? c.rng.d(-30, 0) : r == 4 ? c.rng.d(L, L + 30) : c.rng.i(0, L) + .5 * c.rng.i(0, 1); };
  for (int i = c.rng.i(0, 3); i > 0; --i) pts.push_back({P(pos(W)), P(pos(H)), P(c.rng.d(-50, 500))});
  for (int i = c.rng.i(0, 2); i > 0; --i) ex.push_back({P(pos(W)), P(pos(H)), P(c.rng.d(1.5, 3)), P(c.rng.d(-3, 3)), P(c.rng.d(10, 100)), c.rng.d(1, 10), c.rng.d(1, 2), c.rng.d(.5, 1), c.rng.p(.5), c.rng.d(15, 30)});
  double shift[2] = {0, 0};  // frame offset
  typedef std::shared_ptr<ExtendedModel<Img>> EM;
  auto build = [&](double ox, double oy, int w, int h, int what, std::size_t idx) {
    std::vector<ConstantModel> C; std::vector<PointModel> Q; std::vector<EM> E; auto sh = [](std::shared_ptr<ManualParameter> p, double o) { return P(p->getValue() + o); };
    if (what < 0 || what == 0) for (std::size_t i = 0; i < cst.size(); ++i) if (what < 0 || i == idx) C.emplace_back(cst[i]);
    if (what < 0 || what == 1) for (std::size_t i = 0; i < pts.size(); ++i) if (what < 0 || i == idx) Q.emplace_back(ox == 0 ? pts[i].x : sh(pts[i].x, ox), oy == 0 ? pts[i].y : sh(pts[i].y, oy), pts[i].v);
    if (what < 0 || what == 2) for (std::size_t i = 0; i < ex.size(); ++i) if (what < 0 || i == idx) { auto& e = ex[i]; auto xx = ox == 0 ? e.x : sh(e.x, ox), yy = oy == 0 ? e.y : sh(e.y, oy); auto sy = P(e.s->getValue() * e.ar);
      if (e.compact) E.push_back(std::make_shared<CompactExponentialModel<Img>>(4., P(e.i0), P(e.k), e.s, sy, e.a, e.w, e.w, xx, yy, e.f, std::make_tuple(1., 0., 0., 1.)));
      else { std::vector<std::unique_ptr<ModelComponent>> l; l.push_back(std::make_unique<SersicModelComponent>(std::make_unique<OldSharp>(), P(e.i0), P(1.), P(e.k))); E.push_back(std::make_shared<ExtendedModel<Img>>(std::move(l), e.s, sy, e.a, e.w, e.w, xx, yy)); } }
    return FrameModel<SourceXtractor::ImagePsf, Img>(ps, w, h, std::move(C), std::move(Q), std::move(E), SourceXtractor::ImagePsf(pps, kern)); };
  std::string t = fmt("%dx%d psf %d@%.3g pixel %.3g c%zu p%zu e%zu", W, H, size, pps, ps, cst.size(), pts.size(), ex.size());
  auto fm = build(0, 0, W, H, -1, 0);
  double scaleAll = 1; for (auto& p : pts) scaleAll += std::fabs(p.v->getValue()); for (auto& e : ex) scaleAll += e.compact ? e.f->getValue() : e.i0 * 20; for (auto& k : cst) scaleAll += std::fabs(k->getValue());
  for (int rep = 0; rep < 2; ++rep) {
    if (rep) { for (auto& p : pts) { p.x->setValue(pos(W)); p.v->setValue(c.rng.d(0, 500)); } for (auto& e : ex) { e.y->setValue(pos(H)); e.a->setValue(c.rng.d(-3, 3)); e.f->setValue(c.rng.d(10, 100)); } for (auto& k : cst) k->setValue(c.rng.d(-5, 5)); }
    Img img = fm.getImage(); c.check(img->getWidth() == W && img->getHeight() == H && fm.size() == (std::size_t)W * H, "frame-size", t);
    std::vector<double> sum(W * H, 0);
    auto add = [&](int what, std::size_t i) { auto one = build(0, 0, W, H, what, i); Img im = one.getImage(); for (int k = 0; k < W * H; ++k) sum[k] += im->getData()[k]; return im; };
    for (std::size_t i = 0; i < cst.size(); ++i) { auto im = add(0, i); double v = cst[i]->getValue(); bool ok = true; for (auto x : im->getData()) ok = ok && vh::near(x, v, 1e-6, 0); c.check(ok, "constant-part", t); }
    for (std::size_t i = 0; i < pts.size(); ++i) { auto im = add(1, i); double f = 0, cx = 0, cy = 0; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double v = im->getValue(x, y); f += v; cx += v * (x + .5); cy += v * (y + .5); }
      double X = pts[i].x->getValue(), Y = pts[i].y->getValue(), v = pts[i].v->getValue(), R = size * pps / ps / 2; bool inside = X > R && Y > R && X < W - R && Y < H - R, outside = X < -R - 1 || Y < -R - 1 || X > W + R + 1 || Y > H + R + 1;
      if (inside) c.checkf(vh::near(f, v, 8e-3, 1e-3) && (std::fabs(v) < 1 || (std::fabs(cx / f - X) < .03 && std::fabs(cy / f - Y) < .03)), "point-part", [&] { return fmt("%s: point of %g at (%g,%g) rendered as %g at (%g,%g)", t.c_str(), v, X, Y, f, cx / f, cy / f); });
      if (outside) c.checkf(f == 0, "nothing-outside", [&] { return fmt("%s: point at (%g,%g) adds %g", t.c_str(), X, Y, f); });
      if (inside) c.counter("points inside"); else if (outside) c.counter("points outside"); else c.counter("points across the border"); }
    for (std::size_t i = 0; i < ex.size(); ++i) add(2, i);
    double worst = 0; for (int k = 0; k < W * H; ++k) worst = std::max(worst, std::fabs(sum[k] - img->getData()[k])); 
    c.checkf(worst < 1e-5 * scaleAll, "sum-of-parts", [&] { return fmt("%s: the frame differs from the sum of its parts by %g", t.c_str(), worst); });
    // the same scene in a larger frame, cropped
    int B = c.rng.i(1, 40); auto big = build(B, B, W + 2 * B, H + 2 * B, -1, 0); Img bi = big.getImage(); worst = 0; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) worst = std::max(worst, (double)std::fabs(bi->getValue(x + B, y + B) - img->getValue(x, y)));
    c.checkf(worst < 3e-5 * scaleAll, "border-independent", [&] { return fmt("%s: cropping a frame %d pixels larger differs by %g", t.c_str(), B, worst); });
    // extended source: total flux and centroid in the large frame
    for (std::size_t i = 0; i < ex.size(); ++i) { auto& e = ex[i]; int BB = 60; auto one = build(BB, BB, W + 2 * BB, H + 2 * BB, 2, i); Img im = one.getImage(); double f = 0, cx = 0, cy = 0; for (int y = 0; y < im->getHeight(); ++y) for (int x = 0; x < im->getWidth(); ++x) { double v = im->getValue(x, y); f += v; cx += v * (x + .5 - BB); cy += v * (y + .5 - BB); }
      // model units are those of the PSF sampling: widths are given in the pixels the PSF scale is expressed in
      double r0 = 2 * M_PI * e.i0 / (e.k * e.k) * e.s->getValue() * e.s->getValue() * e.ar;
      double want = e.compact ? e.f->getValue() : r0;
      c.checkf(vh::near(f, want, e.compact ? .01 : .08, 0), "extended-flux", [&] { return fmt("%s: extended %zu (%s) rendered with flux %g, expected %g (scale %g k %g)", t.c_str(), i, e.compact ? "compact" : "sersic", f, want, e.s->getValue(), e.k); });
      c.checkf(std::fabs(cx / f - e.x->getValue()) < .06 && std::fabs(cy / f - e.y->getValue()) < .06, "extended-centre", [&] { return fmt("%s: extended %zu (%s) at (%g,%g) rendered at (%g,%g)", t.c_str(), i, e.compact ? "compact" : "sersic", e.x->getValue(), e.y->getValue(), cx / f, cy / f); }); }
    // rasterToImage adds to what is there; iterating gives the same pixels
    auto base = VectorImage<SeFloat>::create(W, H); for (auto& v : base->getData()) v = c.rng.d(-1, 1); auto keep = base->getData(); Img bp = base; fm.rasterToImage(bp); worst = 0; for (int k = 0; k < W * H; ++k) worst = std::max(worst, (double)std::fabs(base->getData()[k] - keep[k] - img->getData()[k])); c.checkf(worst < 1e-5 * scaleAll, "raster-adds", [&] { return fmt("%s: %g", t.c_str(), worst); });
    int k = 0; bool same = true; auto it = fm.begin(); auto en = fm.end(); for (; it != en; ++it, ++k) same = same && k < W * H && std::fabs(*it - img->getData()[k]) <= 1e-6 * scaleAll; c.check(same && k == W * H, "iteration", t);
  }
  c.sig(t); if (c.kase < 3) c.sample(t);
}

VH_MAIN
