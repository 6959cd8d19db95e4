#include <thread>
#include <atomic>
// C16: variable PSFs, PSF stacks, PSF files, resampling and injection.
#include "vh.h"
#include <algorithm>
#include <memory>
#include <fitsio.h>
#include <CCfits/CCfits>
#include "ElementsKernel/Exception.h"
#include "SEFramework/Psf/VariablePsf.h"
#include "SEFramework/Psf/VariablePsfStack.h"
#include "SEImplementation/Image/ImageInterfaceTraits.h"
#include "SEImplementation/Image/WriteableImageInterfaceTraits.h"
#include "SEImplementation/Image/ImagePsf.h"
#include "SEImplementation/Image/DownSampledImagePsf.h"
#include "SEImplementation/Plugin/Psf/PsfPluginConfig.h"
#include "SEImplementation/Plugin/Psf/PsfTask.h"
using namespace SourceXtractor;
using vh::fmt;
typedef VectorImage<SeFloat> VI;
typedef std::shared_ptr<VI> VP;

// only the names matter to the reader of PSF files; the task itself is monitored with the measurements
namespace SourceXtractor { static double unusedGetter(SourceGroupInterface&, unsigned) { return 0; }
std::map<std::string, PsfTask::ValueGetter> PsfTask::component_value_getters{{"X_IMAGE", unusedGetter}, {"Y_IMAGE", unusedGetter}, {"XWIN_IMAGE", unusedGetter}, {"YWIN_IMAGE", unusedGetter}, {"XPEAK_IMAGE", unusedGetter}, {"YPEAK_IMAGE", unusedGetter}, {"XMODEL_IMAGE", unusedGetter}, {"YMODEL_IMAGE", unusedGetter}}; }

namespace {
VP randImage(vh::Ctx& c, int w, int h, double lo = -1, double hi = 1) { auto p = VI::create(w, h); for (auto& v : p->getData()) v = c.rng.d(lo, hi); return p; }
template <typename F> bool throws(F&& f) { try { f(); } catch (const std::exception&) { return true; } catch (const CCfits::FitsException&) { return true; } return false; }
struct Model { int n, groups; std::vector<int> deg, grp; std::vector<double> off, sc; std::vector<std::vector<int>> exps; };
// every monomial whose total degree within each group stays within the group's degree; the first component varies fastest
Model randModel(vh::Ctx& c, bool contiguous) {
  Model m; m.groups = c.rng.i(1, 3); m.n = c.rng.i(m.groups, 4); for (int g = 0; g < m.groups; ++g) m.deg.push_back(c.rng.p(.08) ? 0 : c.rng.i(1, m.groups == 1 ? 4 : m.groups == 2 ? 3 : 2));
  for (int i = 0; i < m.n; ++i) m.grp.push_back(i < m.groups ? i : c.rng.i(0, m.groups - 1)); if (contiguous) std::sort(m.grp.begin(), m.grp.end()); else c.rng.shuffle(m.grp);
  for (int i = 0; i < m.n; ++i) { m.off.push_back(c.rng.d(-100, 3000)); m.sc.push_back(c.rng.d(10, 2000) * (c.rng.p(.1) ? -1 : 1)); }
  std::vector<int> e(m.n, 0); int maxd = 4;
  for (;;) { std::vector<int> s(m.groups, 0); for (int i = 0; i < m.n; ++i) s[m.grp[i]] += e[i]; bool ok = true; for (int g = 0; g < m.groups; ++g) ok = ok && s[g] <= m.deg[g]; if (ok) m.exps.push_back(e);
    int i = 0; for (; i < m.n; ++i) { if (++e[i] <= maxd) break; e[i] = 0; } if (i == m.n) break; }
  return m;
}
double mono(const Model& m, std::size_t k, const std::vector<double>& v) { double a = 1; for (int i = 0; i < m.n; ++i) for (int q = 0; q < m.exps[k][i]; ++q) a *= (v[i] - m.off[i]) / m.sc[i]; return a; }
const char* NAMES[] = {"X_IMAGE", "Y_IMAGE", "XWIN_IMAGE", "YMODEL_IMAGE"};
void comparePsf(vh::Ctx& c, const Psf& p, const Model& m, const std::vector<VP>& co, const std::string& t) {
  int W = co[0]->getWidth(), H = co[0]->getHeight();
  for (int q = 0; q < 3; ++q) {
    std::vector<double> v; for (int i = 0; i < m.n; ++i) v.push_back(q == 2 && c.rng.p(.5) ? m.off[i] : m.off[i] + m.sc[i] * c.rng.d(-2, 2));
    auto img = p.getPsf(v); c.check(img->getWidth() == W && img->getHeight() == H && p.getWidth() == W && p.getHeight() == H, "psf-size", t);
    double worst = 0, e = 0; for (int k = 0; k < W * H; ++k) { double s = 0, a = 0; for (std::size_t j = 0; j < co.size(); ++j) { double u = mono(m, j, v) * co[j]->getData()[k]; s += u; a += std::fabs(u); } double d = std::fabs(img->getData()[k] - s) / (a + 1e-6); if (d > worst) { worst = d; e = s; } }
    c.checkf(worst < 2e-6 * co.size() + 1e-6, "psf-polynomial", [&] { return fmt("%s: relative error %g (expected %g)", t.c_str(), worst, e); });
    std::vector<double> shortv(v.begin(), v.end() - 1); c.check(throws([&] { p.getPsf(shortv); }), "value-count-refused", t); }
  c.counter("polynomial PSFs evaluated", 3);
}
std::string describe(const Model& m) { std::string t = "groups"; for (int i = 0; i < m.n; ++i) t += fmt(" %d", m.grp[i]); t += " degrees"; for (int d : m.deg) t += fmt(" %d", d); return t; }
}  // namespace

SECTION(variable, 4000, 40000) {
  if (c.rng.p(.05)) { auto k = randImage(c, c.rng.i(1, 9), c.rng.i(1, 9)); VariablePsf p(2.5, k); auto g = p.getPsf({}); c.check(g->getData() == k->getData() && p.getComponents().empty() && p.getPixelSampling() == 2.5, "constant-psf", ""); g->getData()[0] += 1; c.check(p.getPsf({})->getData() == k->getData(), "psf-not-aliased", ""); c.check(throws([&] { p.getPsf({1.}); }), "value-count-refused", ""); return; }
  Model m = randModel(c, false); int W = c.rng.i(1, 7), H = c.rng.i(1, 7); std::vector<VP> co; for (std::size_t k = 0; k < m.exps.size(); ++k) co.push_back(randImage(c, W, H));
  std::vector<VariablePsf::Component> comps; for (int i = 0; i < m.n; ++i) comps.push_back({NAMES[i], m.grp[i], m.off[i], m.sc[i]});
  double samp = c.rng.d(.1, 2); VariablePsf p(samp, comps, m.deg, co); std::string t = describe(m);
  c.check(p.getPixelSampling() == samp && p.getComponents().size() == (std::size_t)m.n, "psf-attributes", t); for (int i = 0; i < m.n; ++i) c.check(p.getComponents()[i] == NAMES[i], "psf-component-names", t);
  auto keep = co[0]->getData(); comparePsf(c, p, m, co, t); c.check(co[0]->getData() == keep, "psf-coefficients-untouched", t);
  auto bad = co; int how = c.rng.i(0, 4); if (how == 2 && bad.size() == 1) how = 0; auto bc = comps; auto bd = m.deg;
  if (how == 0) bad.pop_back(); if (how == 1) bad.push_back(randImage(c, W, H)); if (how == 2) { int k = c.rng.i(0, bad.size() - 1); if (bad.size() == 1) k = 0; bad[k] = c.rng.p(.5) ? randImage(c, W + 1, H) : randImage(c, W, H + 1); } if (how == 3) bc[c.rng.i(0, m.n - 1)].group_id = c.rng.p(.5) ? m.groups : m.groups + c.rng.i(1, 1000); if (how == 4) { if (c.rng.p(.5)) bad.clear(); else bc[c.rng.i(0, m.n - 1)].group_id = -c.rng.i(1, 1000); }
  c.checkf(throws([&] { VariablePsf q(samp, bc, bd, bad); }), "mismatch-refused", [&] { return fmt("%s: breakage %d accepted", t.c_str(), how); });
  c.sig(t + fmt(" %dx%d", W, H)); if (c.kase < 3) c.sample(t);
}

namespace {
void must(int st, const char* w) { if (st) { char b[32]; fits_get_errstatus(st, b); throw std::runtime_error(std::string("harness: writing ") + w + ": " + b); } }
std::string freshFile(vh::Ctx& c, const char* n) { std::string f = vh::scratch() + fmt("/%s-%s-%llu.fits", n, c.section.c_str(), (unsigned long long)c.kase); ::unlink(f.c_str()); return f; }
}  // namespace

SECTION(psfex, 150, 1500) {
  Model m = randModel(c, true); int W = 2 * c.rng.i(0, 4) + 1; std::size_t nc = m.exps.size(); if (nc == 1) W = std::max(W, 3); std::vector<VP> co; std::vector<float> raw; for (std::size_t k = 0; k < nc; ++k) { co.push_back(randImage(c, W, W)); raw.insert(raw.end(), co[k]->getData().begin(), co[k]->getData().end()); }
  double samp = c.rng.d(.2, 1.5); auto fn = freshFile(c, "psfex"); int how = c.rng.p(.5) ? 0 : c.rng.i(1, 7); if (how == 1 && nc == 1) how = 0; std::string t = describe(m) + fmt(" %dx%dx%zu", W, W, nc); if (how) t += fmt(" breakage %d", how);
  fitsfile* f; int st = 0; fits_create_file(&f, fn.c_str(), &st); long z = 0; fits_create_img(f, 8, 0, &z, &st);
  std::string form = fmt("%zuE", raw.size() - (how == 1 ? W * W : 0)); char* tt[] = {(char*)"PSF_MASK"}; char* tf[] = {(char*)form.c_str()}; fits_create_tbl(f, BINARY_TBL, 1, 1, tt, tf, nullptr, how == 2 ? "OTHER" : "PSF_DATA", &st);
  int n = m.n; fits_write_key(f, TINT, "POLNAXIS", &n, "", &st); for (int i = 0; i < n; ++i) { int g = m.grp[i] + 1; if (how == 3 && i == n - 1) g = c.rng.pick(std::vector<int>{0, -3, m.groups + 1, 2000000000, -2147483647}); fits_write_key(f, TINT, fmt("POLGRP%d", i + 1).c_str(), &g, "", &st); fits_write_key(f, TSTRING, fmt("POLNAME%d", i + 1).c_str(), (void*)(how == 4 && i == 0 ? "VIGNET" : NAMES[i]), "", &st); fits_write_key(f, TDOUBLE, fmt("POLZERO%d", i + 1).c_str(), &m.off[i], "", &st); if (!(how == 5 && i == 0)) fits_write_key(f, TDOUBLE, fmt("POLSCAL%d", i + 1).c_str(), &m.sc[i], "", &st); }
  int g = m.groups; fits_write_key(f, TINT, "POLNGRP", &g, "", &st); for (int i = 0; i < g; ++i) { int d = m.deg[i]; fits_write_key(f, TINT, fmt("POLDEG%d", i + 1).c_str(), &d, "", &st); }
  int w1 = W + (how == 6), h1 = W + (how == 7), n3 = nc; if (how == 6) h1 = w1; fits_write_key(f, TDOUBLE, "PSF_SAMP", &samp, "", &st); fits_write_key(f, TINT, "PSFAXIS1", &w1, "", &st); fits_write_key(f, TINT, "PSFAXIS2", &h1, "", &st); fits_write_key(f, TINT, "PSFAXIS3", &n3, "", &st);
  fits_write_col(f, TFLOAT, 1, 1, 1, raw.size() - (how == 1 ? W * W : 0), raw.data(), &st); fits_close_file(f, &st); must(st, "psfex");
  if (how) c.checkf(throws([&] { PsfPluginConfig::readPsf(fn); }), "bad-psfex-refused", [&] { return t; });
  else { auto p = PsfPluginConfig::readPsf(fn); if (c.check(p != nullptr, "psfex-read", t)) { c.check(vh::near(p->getPixelSampling(), samp, 1e-9, 0), "psf-attributes", t); comparePsf(c, *p, m, co, t); } }
  ::unlink(fn.c_str()); c.sig(t); if (c.kase < 2) c.sample(t);
}

SECTION(images, 200, 2000) {
  int W = 2 * c.rng.i(0, 7) + 1, H = c.rng.p(.2) ? W + 2 : W; auto im = randImage(c, W, H); bool key = c.rng.p(.5), ext = c.rng.p(.4); double samp = key ? c.rng.d(.1, 3) : 1; auto fn = freshFile(c, "psfimg"); std::string t = fmt("%dx%d%s%s", W, H, key ? " SAMPLING" : "", ext ? " second extension" : "");
  fitsfile* f; int st = 0; fits_create_file(&f, fn.c_str(), &st); long ax[2] = {W, H}; auto other = randImage(c, W, H);
  for (int k = 0; k < (ext ? 3 : 1); ++k) { bool it = ext ? k == 2 : true; fits_create_img(f, c.rng.p(.5) ? -32 : -64, 2, ax, &st); if (key && it) fits_write_key(f, TDOUBLE, "SAMPLING", &samp, "", &st); fits_write_img(f, TFLOAT, 1, W * H, (it ? im : other)->getData().data(), &st); } fits_close_file(f, &st); must(st, "image");
  auto read = [&] { return PsfPluginConfig::readPsf(fn, ext ? 3 : 1); };
  if (W != H) c.check(throws(read), "non-square-refused", t); else { auto p = read(); auto g = p->getPsf({}); c.check(vh::near(p->getPixelSampling(), samp, 1e-9, 0) && g->getWidth() == W && g->getData() == im->getData(), "psf-image", t); }
  ::unlink(fn.c_str()); c.check(throws(read), "missing-file-refused", t); c.check(PsfPluginConfig::readPsf("nopsf") == nullptr && PsfPluginConfig::readPsf("/x/NoPSF") == nullptr, "nopsf", t);
  // generated Gaussian
  double fwhm = c.rng.d(.5, 8), ps = c.rng.d(.2, 1.5); auto gp = PsfPluginConfig::generateGaussianPsf(fwhm, ps); auto g = gp->getPsf({}); int S = g->getWidth(); double s = 0, m2 = 0, peak = g->getValue(S / 2, S / 2); bool sym = S % 2 == 1 && S == g->getHeight();
  for (int y = 0; y < S && sym; ++y) for (int x = 0; x < S; ++x) { double v = g->getValue(x, y); s += v; sym = sym && vh::near(v, g->getValue(y, x), 1e-5, 1e-30) && vh::near(v, g->getValue(S - 1 - x, y), 1e-5, 1e-30); double r2 = ((x - S / 2) * (x - S / 2) + (y - S / 2) * (y - S / 2)) * ps * ps; m2 += v * r2; double e = peak * std::exp(-4 * std::log(2.) * r2 / (fwhm * fwhm)); if (e > 1e-3 * peak) c.checkf(vh::near(v, e, .01, 0), "gaussian-profile", [&] { return fmt("fwhm %g sampling %g at r=%g: %g expected %g", fwhm, ps, std::sqrt(r2), v, e); }); }
  c.checkf(sym && vh::near(s, 1, 1e-4, 0) && vh::near(gp->getPixelSampling(), ps, 1e-6, 0) && S * ps > 3 * fwhm, "gaussian-psf", [&] { return fmt("fwhm %g sampling %g: size %d sum %g", fwhm, ps, S, s); });
  c.sig(t + fmt("%g", fwhm)); if (c.kase < 2) c.sample(t);
}

SECTION(stack_threads, 6, 200) {
  // one stack asked by several threads at once: everyone gets the stamp of the place asked for
  const int S = 7, n = c.rng.i(4, 16), T = c.rng.i(2, 8); auto img = randImage(c, S * n, S); std::vector<double> gx, gy(n, S / 2 + 1), one(n, 1); std::vector<float> X, Y;
  for (int k = 0; k < n; ++k) { gx.push_back(k * S + S / 2 + 1); X.push_back(100 * k); Y.push_back(c.rng.d(0, 10)); }
  auto fn = freshFile(c, "stackt"); fitsfile* f; int st = 0; fits_create_file(&f, fn.c_str(), &st); long z = 0, ax[2] = {S * n, S}; fits_create_img(f, 8, 0, &z, &st); fits_create_img(f, -32, 2, ax, &st);
  int sk = S; fits_write_key(f, TINT, "STMPSIZE", &sk, "", &st); fits_write_img(f, TFLOAT, 1, S * n * S, img->getData().data(), &st);
  char* tt[] = {(char*)"GRIDX", (char*)"GRIDY", (char*)"RA", (char*)"DEC", (char*)"X", (char*)"Y"}; char* tf[] = {(char*)"1D", (char*)"1D", (char*)"1D", (char*)"1D", (char*)"1E", (char*)"1E"}; fits_create_tbl(f, BINARY_TBL, n, 6, tt, tf, nullptr, "POS", &st);
  fits_write_col(f, TDOUBLE, 1, 1, 1, n, gx.data(), &st); fits_write_col(f, TDOUBLE, 2, 1, 1, n, gy.data(), &st); fits_write_col(f, TDOUBLE, 3, 1, 1, n, one.data(), &st); fits_write_col(f, TDOUBLE, 4, 1, 1, n, one.data(), &st); fits_write_col(f, TFLOAT, 5, 1, 1, n, X.data(), &st); fits_write_col(f, TFLOAT, 6, 1, 1, n, Y.data(), &st);
  fits_close_file(f, &st); must(st, "stack");
  { auto p = PsfPluginConfig::readPsf(fn); std::atomic<int> bad{0}; std::atomic<long> seen{0}; std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { for (int q = 0; q < 150; ++q) { int k = (q * (2 * t + 1) + t) % n; try { auto g = p->getPsf({100. * k + 3, 5.}); bool ok = g->getWidth() == S && g->getHeight() == S; for (int v = 0; v < S && ok; ++v) for (int u = 0; u < S && ok; ++u) ok = g->getValue(u, v) == img->getValue(k * S + u, v); if (!ok) ++bad; ++seen; } catch (...) { ++bad; } } });
    for (auto& t : ts) t.join();
    c.checkf(!bad, "stack-threads", [&] { return fmt("%d threads on a stack of %d: %d of %ld stamps wrong", T, n, (int)bad, (long)seen); }); c.counter("stack stamps read by threads", (long)seen); }
  ::unlink(fn.c_str()); c.sig(fmt("%d %d %llu", T, n, (unsigned long long)c.kase)); if (c.kase < 2) c.sample(fmt("%d threads, stack of %d", T, n));
}

SECTION(stack, 150, 1500) {
  int S = 2 * c.rng.i(0, 4) + 1, nx = c.rng.i(1, 5), ny = c.rng.i(1, 5), gap = c.rng.i(0, 2), ox = c.rng.i(0, 3), oy = c.rng.i(0, 3), n = nx * ny, how = c.rng.p(.55) ? 0 : c.rng.i(1, 7); bool alt = c.rng.p(.3), key = c.rng.p(.5); double samp = key ? c.rng.d(.1, 2) : 1;
  int IW = ox + nx * (S + gap), IH = oy + ny * (S + gap); auto img = randImage(c, IW, IH); std::vector<double> gx, gy, ra(n, 1), de(n, 2); std::vector<float> X, Y;
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { gx.push_back(ox + i * (S + gap) + S / 2 + 1); gy.push_back(oy + j * (S + gap) + S / 2 + 1); X.push_back(c.rng.d(0, 1000)); Y.push_back(c.rng.d(0, 1000)); }
  if (how == 1) gx[c.rng.i(0, n - 1)] = S / 2 + .4; if (how == 2) gy[c.rng.i(0, n - 1)] = IH - S / 2 + .6; if (how == 3) gx[c.rng.i(0, n - 1)] = IW + 1 - S / 2; if (how == 7) n = 0;
  std::string t = fmt("stamps %d, %dx%d grid", S, nx, ny) + (how ? fmt(" breakage %d", how) : ""); auto fn = freshFile(c, "stack"); fitsfile* f; int st = 0; fits_create_file(&f, fn.c_str(), &st); long z = 0; long zz[2] = {2, 2};
  if (how == 4) fits_create_img(f, 8, 2, zz, &st); else fits_create_img(f, 8, 0, &z, &st);
  long ax[2] = {IW, IH}; fits_create_img(f, -32, 2, ax, &st); int sk = how == 5 ? S + 1 : S; fits_write_key(f, TINT, "STMPSIZE", &sk, "", &st); if (key) fits_write_key(f, TDOUBLE, "SAMPLING", &samp, "", &st); fits_write_img(f, TFLOAT, 1, IW * IH, img->getData().data(), &st);
  char* tt[] = {(char*)(alt ? "X_CENTER" : "GRIDX"), (char*)(alt ? "Y_CENTER" : "GRIDY"), (char*)"RA", (char*)"DEC", (char*)"X", (char*)(how == 6 ? "Q" : "Y")}; char* tf[] = {(char*)"1D", (char*)"1D", (char*)"1D", (char*)"1D", (char*)"1E", (char*)"1E"}; fits_create_tbl(f, BINARY_TBL, n, 6, tt, tf, nullptr, "POS", &st);
  if (n) { fits_write_col(f, TDOUBLE, 1, 1, 1, n, gx.data(), &st); fits_write_col(f, TDOUBLE, 2, 1, 1, n, gy.data(), &st); fits_write_col(f, TDOUBLE, 3, 1, 1, n, ra.data(), &st); fits_write_col(f, TDOUBLE, 4, 1, 1, n, de.data(), &st); fits_write_col(f, TFLOAT, 5, 1, 1, n, X.data(), &st); fits_write_col(f, TFLOAT, 6, 1, 1, n, Y.data(), &st); }
  fits_close_file(f, &st); must(st, "stack");
  if (how) c.checkf(throws([&] { VariablePsfStack q(std::make_shared<CCfits::FITS>(fn, CCfits::Read)); }), "bad-stack-refused", [&] { return t; });
  else {
    auto p = c.rng.p(.5) ? PsfPluginConfig::readPsf(fn) : std::make_shared<VariablePsfStack>(std::make_shared<CCfits::FITS>(fn, CCfits::Read));
    c.check(p->getWidth() == S && p->getHeight() == S && vh::near(p->getPixelSampling(), samp, 1e-9, 0) && p->getComponents() == std::vector<std::string>({"X_IMAGE", "Y_IMAGE"}), "stack-attributes", t);
    for (int q = 0; q < 12; ++q) { double x = c.rng.d(-200, 1200), y = c.rng.d(-200, 1200); if (q < 3) { int k = c.rng.i(0, n - 1); x = X[k] + c.rng.d(-.01, .01); y = Y[k]; }
      double best = 1e99; for (int k = 0; k < n; ++k) best = std::min(best, std::hypot(x - X[k], y - Y[k]));
      auto g = p->getPsf({x, y}); bool ok = false; for (int k = 0; k < n && !ok; ++k) if (std::hypot(x - X[k], y - Y[k]) <= best + 1e-6) { ok = g->getWidth() == S && g->getHeight() == S; for (int v = 0; v < S && ok; ++v) for (int u = 0; u < S && ok; ++u) ok = g->getValue(u, v) == img->getValue((int)gx[k] - 1 - S / 2 + u, (int)gy[k] - 1 - S / 2 + v); }
      c.checkf(ok, "stack-nearest", [&] { return fmt("%s: at (%g,%g) the stamp is not that of the nearest position", t.c_str(), x, y); }); }
    c.check(throws([&] { p->getPsf({1.}); }) && throws([&] { p->getPsf({1., 2., 3.}); }), "value-count-refused", t); c.counter("stack stamps compared", 12);
  }
  ::unlink(fn.c_str()); c.sig(t); if (c.kase < 2) c.sample(t);
}

namespace {
// Lanczos-4 weights of the eight samples around u (at floor(u)-3 .. floor(u)+4), normalised
void lanczos(double fr, double* r) { double s = 0; for (int i = 0; i < 8; ++i) { double d = fr + 3 - i; r[i] = std::fabs(d) < 1e-7 ? 1 : std::sin(M_PI * d) / (M_PI * d) * std::sin(M_PI * d / 4) / (M_PI * d / 4); s += r[i]; } for (int i = 0; i < 8; ++i) r[i] /= s; }
// one-dimensional resampling matrix row; `pad`: samples outside count as zero (otherwise the result is zero as soon as one is outside)
struct Row { int i0; double w[8]; bool in, edge; };
Row row(int i, double centre, int n, double s, bool pad) { Row r; double u = (i + .5 - (centre - n * s / 2)) / s - .5, fl = std::floor(u); double fr = u - fl; r.edge = std::min(fr, 1 - fr) < 1e-4; r.i0 = (int)fl - 3; lanczos(fr, r.w); r.in = pad || (r.i0 >= 0 && r.i0 + 7 < n);
  bool in2 = pad || (r.i0 + (fr < .5 ? -1 : 1) >= 0 && r.i0 + 7 + (fr < .5 ? -1 : 1) < n); r.edge = r.edge && r.in != in2; return r; }
}  // namespace

SECTION(injection, 2500, 25000) {
  bool wr = c.rng.p(.4); int W = c.rng.i(1, 40), H = c.rng.i(1, 40), w = c.rng.i(8, 30), h = c.rng.p(.6) ? w : c.rng.i(8, 30); if (c.rng.p(.1)) { w = c.rng.i(1, 9); h = c.rng.i(1, 9); }
  double s = c.rng.p(.4) ? 1 : std::exp(c.rng.d(-1.2, 1)), x = c.rng.d(-15, W + 15), y = c.rng.d(-15, H + 15); if (c.rng.p(.4)) { x = c.rng.i(0, 2 * W) / 2.; y = c.rng.i(0, 2 * H) / 2.; }
  auto src = randImage(c, w, h); auto keepS = src->getData(); auto tgt = randImage(c, W, H); auto keep = tgt->getData();
  if (wr) { std::shared_ptr<WriteableImage<SeFloat>> T = tgt, S = src; ModelFitting::ImageTraits<ModelFitting::WriteableInterfaceTypePtr>::addImageToImage(T, S, s, x, y); }
  else { ModelFitting::ImageInterfaceTypePtr T = tgt, S = src; ModelFitting::ImageTraits<ModelFitting::ImageInterfaceTypePtr>::addImageToImage(T, S, s, x, y); }
  std::string t = fmt("%s %dx%d scale %.4g into %dx%d at (%.4g,%.4g)", wr ? "writeable" : "vector", w, h, s, W, H, x, y);
  std::vector<Row> rx, ry; for (int i = 0; i < W; ++i) rx.push_back(row(i, x, w, s, wr)); for (int j = 0; j < H; ++j) ry.push_back(row(j, y, h, s, wr));
  double worst = 0, e = 0; int px = 0, py = 0, hit = 0; double lox = std::floor(x - w * s / 2), hix = std::ceil(x + w * s / 2), loy = std::floor(y - h * s / 2), hiy = std::ceil(y + h * s / 2);
  for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) { if (rx[i].edge || ry[j].edge) continue; double v = 0; bool in = rx[i].in && ry[j].in;
    if (std::min({i - lox, hix - i - 1, j - loy, hiy - j - 1}) < -1e-9) in = false;
    if (in) { ++hit; for (int b = 0; b < 8; ++b) for (int a = 0; a < 8; ++a) { int u = rx[i].i0 + a, q = ry[j].i0 + b; if (u >= 0 && q >= 0 && u < w && q < h) v += rx[i].w[a] * ry[j].w[b] * keepS[q * w + u]; } v /= s * s; }
    double d = std::fabs(tgt->getValue(i, j) - keep[j * W + i] - v) * std::min(1., s * s); if (d > worst || std::isnan(d)) { worst = std::isnan(d) ? 1e9 : d; e = v; px = i; py = j; } }
  c.checkf(worst < 6e-4, "resampled-pixel", [&] { return fmt("%s: pixel (%d,%d) gained %g, expected %g", t.c_str(), px, py, tgt->getValue(px, py) - keep[py * W + px], e); });
  c.check(src->getData() == keepS, "source-untouched", t); c.counter("resampled pixels", hit);
  c.sig(t); if (c.kase < 3) c.sample(t);
}

// smooth stamps keep their flux and land where asked; down-sampled PSFs keep their sum and their centre
SECTION(position, 1000, 10000) {
  double sg = c.rng.d(1.5, 3); int S = 2 * (int)std::ceil(4.5 * sg + 4) + 1 + (c.rng.p(.2) ? 1 : 0); bool wr = c.rng.p(.4); auto src = VI::create(S, S); double fl = c.rng.d(.5, 1000), ss = 0; std::vector<double> g; for (int y = 0; y < S; ++y) for (int x = 0; x < S; ++x) { double dx = x - (S - 1) / 2., dy = y - (S - 1) / 2.; g.push_back(std::exp(-.5 * (dx * dx + dy * dy) / (sg * sg))); ss += g.back(); } for (int k = 0; k < S * S; ++k) src->getData()[k] = fl * g[k] / ss;
  double s = c.rng.p(.3) ? 1 : c.rng.d(.6 / sg * 1.5, 1.8); int R = (int)std::ceil(S * s / 2) + 2, W = 2 * R + c.rng.i(1, 30), H = 2 * R + c.rng.i(1, 30); double x = c.rng.d(R, W - R), y = c.rng.d(R, H - R); auto tgt = VI::create(W, H);
  if (wr) { std::shared_ptr<WriteableImage<SeFloat>> T = tgt, Q = src; ModelFitting::ImageTraits<ModelFitting::WriteableInterfaceTypePtr>::addImageToImage(T, Q, s, x, y); } else { ModelFitting::ImageInterfaceTypePtr T = tgt, Q = src; ModelFitting::ImageTraits<ModelFitting::ImageInterfaceTypePtr>::addImageToImage(T, Q, s, x, y); }
  double f = 0, cx = 0, cy = 0; for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) { double v = tgt->getValue(i, j); f += v; cx += v * (i + .5); cy += v * (j + .5); }
  std::string t = fmt("%s stamp %d sigma %.3g scale %.3g at (%.5g,%.5g)", wr ? "writeable" : "vector", S, sg, s, x, y);
  c.checkf(vh::near(f, fl, 1.2e-2, 0), "flux-kept", [&] { return fmt("%s: flux %g became %g", t.c_str(), fl, f); }); c.checkf(std::fabs(cx / f - x) < .03 && std::fabs(cy / f - y) < .03, "position-kept", [&] { return fmt("%s: lands at (%g,%g)", t.c_str(), cx / f, cy / f); });
  if (S % 2) {
    double down = c.rng.p(.2) ? 1 : c.rng.d(.5, 1); bool norm = c.rng.p(.5); double ps = c.rng.d(.2, 2); DownSampledImagePsf p(ps, src, down, norm); auto k = p.getScaledKernel(1); int K = k->getWidth(); double sum = 0, mx = 0, my = 0, m2 = 0; for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) { double v = k->getValue(i, j); sum += v; mx += v * (i - K / 2); my += v * (j - K / 2); m2 += v * (i - K / 2) * (i - K / 2); }
    double e = down == 1 || !norm ? fl : 1; std::string u = fmt("sigma %.3g down-scaling %.3g %s", sg, down, norm ? "normalised" : "as it is");
    c.checkf(vh::near(sum, e, 1e-4, 0), "downsampled-sum", [&] { return fmt("%s: sum %g expected %g", u.c_str(), sum, e); }); c.checkf(std::fabs(mx / sum) < .01 && std::fabs(my / sum) < .01 && K % 2 == 1, "downsampled-centre", [&] { return fmt("%s: centre (%g,%g)", u.c_str(), mx / sum, my / sum); });
    c.checkf(vh::near(p.getPixelScale(), ps / down, 1e-9, 0) && (int)p.getSize() == K, "downsampled-scale", [&] { return u; }); c.checkf(vh::near(std::sqrt(m2 / sum) * p.getPixelScale(), sg * ps, .04, 0), "downsampled-width", [&] { return fmt("%s: width %g expected %g", u.c_str(), std::sqrt(m2 / sum) * p.getPixelScale(), sg * ps); });
    auto k3 = p.getScaledKernel(3); bool ok = true; for (int i = 0; i < K * K; ++i) ok = ok && vh::near(k3->getData()[i], 3. * k->getData()[i], 1e-6, 1e-30); c.check(ok, "scaled-kernel", u);
    DownSampledImagePsf np(ps, nullptr, down); c.check(np.getPixelScale() == 1 && np.getSize() == 1 && np.getScaledKernel(2) == nullptr, "no-psf", u); auto pl = randImage(c, 5, 5); auto kk = pl->getData(); np.convolve(pl); c.check(pl->getData() == kk, "no-psf", u);
  }
  int a = c.rng.i(1, 9), b = c.rng.i(1, 9); bool should = a != b || a % 2 == 0; auto im = randImage(c, a, b); c.checkf(throws([&] { ImagePsf q(1, im); }) == should && throws([&] { DownSampledImagePsf q(1, im, c.rng.p(.5) ? 1 : .8); }) == should, "kernel-shape", [&] { return fmt("%dx%d", a, b); });
  c.sig(t); if (c.kase < 3) c.sample(t);
}

VH_MAIN
