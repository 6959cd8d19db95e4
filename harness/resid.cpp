// C14: residual blocks against their definition; fits against the optimality condition of the cost they define.
#include "vh.h"
#include <array>
#include <memory>
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/DependentParameter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
#include "ModelFitting/Engine/DataVsModelResiduals.h"
#include "ModelFitting/Engine/ChiSquareComparator.h"
#include "ModelFitting/Engine/LogChiSquareComparator.h"
#include "ModelFitting/Engine/AsinhChiSquareComparator.h"
#include "ModelFitting/Engine/EngineValueResidual.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Engine/ResidualEstimator.h"
#include "ModelFitting/Engine/GSLEngine.h"
#include "ModelFitting/Engine/LeastSquareEngineManager.h"
#include "SEImplementation/Image/VectorImageDataVsModelInputTraits.h"
using namespace ModelFitting;
using vh::fmt;

// a model evaluated each time its residuals are asked for
struct FnModel { std::size_t n; std::function<double(std::size_t)> f; std::shared_ptr<std::vector<double>> buf; };
namespace ModelFitting {
template <> struct DataVsModelInputTraits<FnModel> {
  using iterator = std::vector<double>::const_iterator;
  static iterator begin(FnModel& m) { for (std::size_t i = 0; i < m.n; ++i) (*m.buf)[i] = m.f(i); return m.buf->begin(); }
  static iterator end(FnModel& m) { return m.buf->end(); }
  static std::size_t size(const FnModel& m) { return m.n; }
};
}

namespace {
struct ChiT {};
double defn(int kind, double u0, double d, double m, double w) {
  double u = w * (d - m);
  if (kind == 0) return u;
  if (kind == 1) return u >= 0 ? u0 * std::log(1 + u / u0) : -u0 * std::log(1 - u / u0);
  double v = std::fabs(u / u0); return (u < 0 ? -1 : 1) * u0 * std::log1p(v + v * v / (1 + std::sqrt(1 + v * v)));
}
double tolDef(int kind, double u0, double d, double m, double w) { double u = std::fabs(w * (d - m)) + 1e-16 * std::fabs(w) * (std::fabs(d) + std::fabs(m)); return 1e-12 * u + 4e-16 * u0; }

template <typename D, typename M, typename W>
std::unique_ptr<ResidualBlockProvider> makeBlock(int kind, double u0, D&& d, M&& m, W&& w) {
  if (kind == 0) return createDataVsModelResiduals(std::forward<D>(d), std::forward<M>(m), std::forward<W>(w), ChiSquareComparator{});
  if (kind == 1) return createDataVsModelResiduals(std::forward<D>(d), std::forward<M>(m), std::forward<W>(w), LogChiSquareComparator{u0});
  return createDataVsModelResiduals(std::forward<D>(d), std::forward<M>(m), std::forward<W>(w), AsinhChiSquareComparator{u0});
}
double mag(vh::Ctx& c) { return c.rng.p(.05) ? 0 : (c.rng.p(.5) ? 1 : -1) * std::pow(10., c.rng.d(-4, 6)); }
}  // namespace

SECTION(comparators, 4000, 60000) {
  double u0 = c.rng.p(.3) ? 10 : std::pow(10., c.rng.d(-1, 3));
  for (int k = 0; k < 20; ++k) {
    double d = mag(c), m = c.rng.p(.3) ? d * (1 + 1e-3 * c.rng.d(-1, 1)) : mag(c), w = std::fabs(mag(c));
    double r[3] = {ChiSquareComparator{}(d, m, w), LogChiSquareComparator{u0}(d, m, w), AsinhChiSquareComparator{u0}(d, m, w)};
    for (int q = 0; q < 3; ++q) {
      double ref = defn(q, u0, d, m, w);
      c.checkf(vh::near(r[q], ref, 1e-11, tolDef(q, u0, d, m, w)), "comparator", [&] { return fmt("comparator %d u0 %g data %.17g model %.17g weight %g: %.17g expected %.17g", q, u0, d, m, w, r[q], ref); });
      double back = q == 0 ? ChiSquareComparator{}(m, d, w) : q == 1 ? LogChiSquareComparator{u0}(m, d, w) : AsinhChiSquareComparator{u0}(m, d, w);
      c.checkf(vh::near(back, -r[q], 1e-9, 0), "odd", [&] { return fmt("comparator %d data %g model %g weight %g: %g and %g swapped", q, d, m, w, r[q], back); });
    }
    c.check(LogChiSquareComparator{}(d, m, w) == LogChiSquareComparator{10}(d, m, w) && AsinhChiSquareComparator{}(d, m, w) == AsinhChiSquareComparator{10}(d, m, w), "default-u0", "");
  }
  c.sig(fmt("%g", u0));
}

SECTION(blocks, 2500, 40000) {
  ResidualEstimator est; std::vector<double> want, tol; std::string t; std::size_t total = 0;
  std::vector<std::shared_ptr<EngineParameter>> eps; std::vector<std::shared_ptr<ManualParameter>> mps; std::vector<std::shared_ptr<BasicParameter>> deps;
  struct Prior { bool world; int p; int kind; double exp, w; std::size_t at; };
  std::vector<Prior> pri; int sgn = 0;
  std::vector<std::pair<std::size_t, FnModel>> fns; double scale = 1;
  struct FnB { std::size_t at, n; int kind; double u0; std::vector<double> d, w, m; }; std::vector<FnB> fb;
  for (int i = 0; i < 3; ++i) {
    double lo = c.rng.d(-5, 0), hi = lo + c.rng.d(1, 20); std::unique_ptr<CoordinateConverter> cv;
    if (i == 0) cv.reset(new SigmoidConverter(lo, hi)); else if (i == 1) cv.reset(new NormalizedConverter(c.rng.d(.1, 100))); else cv.reset(new ExpSigmoidConverter(.1, 1000));
    eps.push_back(std::make_shared<EngineParameter>(i == 0 ? c.rng.d(lo, hi) : c.rng.d(.2, 900), std::move(cv)));
    mps.push_back(std::make_shared<ManualParameter>(c.rng.d(-10, 10)));
  }
  deps.push_back(createDependentParameter([](double a, double b) { return a * b + 1; }, eps[0], mps[0]));
  deps.push_back(createDependentParameter([](double a) { return 2 * a - 3; }, deps[0]));
  auto world = [&](int kind, int p) -> std::shared_ptr<BasicParameter> { return kind == 0 ? std::shared_ptr<BasicParameter>(eps[p]) : kind == 1 ? std::shared_ptr<BasicParameter>(mps[p]) : deps[p % 2]; };
  int nb = c.rng.i(0, 7);
  for (int b = 0; b < nb; ++b) {
    int type = c.rng.i(0, 5); std::unique_ptr<ResidualBlockProvider> prov; std::size_t n = 1;
    if (type <= 2) {
      n = c.rng.p(.1) ? 0 : c.rng.i(1, 30); int kind = c.rng.i(0, 2); double u0 = std::pow(10., c.rng.d(-1, 2)); std::vector<double> d, m, w;
      for (std::size_t i = 0; i < n; ++i) { d.push_back(c.rng.d(-100, 100)); m.push_back(d[i] + c.rng.gauss()); w.push_back(c.rng.p(.1) ? 0 : c.rng.d(0, 3)); }
      if (type == 0) { for (std::size_t i = 0; i < n; ++i) { want.push_back(defn(kind, u0, d[i], m[i], w[i])); tol.push_back(2 * tolDef(kind, u0, d[i], m[i], w[i]) + 1e-300); } auto dd = d, mm = m, ww = w; prov = makeBlock(kind, u0, dd, mm, ww);
        for (auto& x : dd) x = NAN; }  // the block has its own copy
      else if (type == 1) { auto img = [&](std::vector<double>& v) { int W = 1; for (int q = 2; q <= (int)v.size(); ++q) if (v.size() % q == 0 && c.rng.p(.5)) W = q; auto i = SourceXtractor::VectorImage<SourceXtractor::SeFloat>::create(W, v.size() / W); for (std::size_t k = 0; k < v.size(); ++k) { i->getData()[k] = v[k]; v[k] = i->getData()[k]; } return i; };
        if (n == 0) { n = 1; d = {1}; m = {2}; w = {3}; }
        auto di = img(d); auto mi = img(m); auto wi = img(w); for (std::size_t i = 0; i < n; ++i) { want.push_back(defn(kind, u0, d[i], m[i], w[i])); tol.push_back(2 * tolDef(kind, u0, d[i], m[i], w[i]) + 1e-300); } prov = makeBlock(kind, u0, di, mi, wi); }
      else { FnModel fm{n, nullptr, std::make_shared<std::vector<double>>(n)}; auto mv = std::make_shared<std::vector<double>>(m); double* sc = &scale; fm.f = [mv, sc](std::size_t i) { return (*mv)[i] * *sc; };
        fb.push_back({total, n, kind, u0, d, w, m}); for (std::size_t i = 0; i < n; ++i) { want.push_back(0); tol.push_back(0); } prov = makeBlock(kind, u0, d, fm, w); }
      if (type != 1) { auto bad = m; bad.push_back(1); int thrown = 0;
        try { makeBlock(kind, u0, d, bad, w); } catch (const std::exception&) { ++thrown; } try { auto b2 = w; b2.push_back(1); makeBlock(kind, u0, d, m, b2); } catch (const std::exception&) { ++thrown; }
        if (n > 0) { try { auto b2 = w; b2.pop_back(); makeBlock(kind, u0, d, m, b2); } catch (const std::exception&) { ++thrown; } } else ++thrown;
        c.check(thrown == 3, "size-mismatch-refused", fmt("%d", thrown)); }
      t += fmt("%c%zu%d", "vif"[type], n, kind);
    } else {
      Prior q; q.world = type >= 4; q.kind = q.world ? c.rng.i(0, 2) : 0; q.p = c.rng.i(0, 2); q.exp = c.rng.d(-10, 10); q.w = c.rng.p(.2) ? 1 : c.rng.d(0, 5); q.at = total;
      if (q.world) prov = std::make_unique<WorldValueResidual>(world(q.kind, q.p), q.exp, q.w); else prov = std::make_unique<EngineValueResidual>(*eps[q.p], q.exp, q.w);
      pri.push_back(q); want.push_back(0); tol.push_back(0); t += q.world ? fmt("W%d%d", q.kind, q.p) : fmt("E%d", q.p);
    }
    c.check(prov->numberOfResiduals() == n, "block-count", t);
    total += n; est.registerBlockProvider(std::move(prov));
  }
  // residuals of observed, then destroyed providers must not disturb the parameters
  if (c.rng.p(.3)) { auto w = std::make_unique<WorldValueResidual>(world(c.rng.i(0, 2), 1), 1.); }
  c.check(est.numberOfResiduals() == total, "total-count", t);
  for (int step = 0; step < 6; ++step) {
    if (step) { int p = c.rng.i(0, 2); switch (c.rng.i(0, 3)) { case 0: eps[p]->setEngineValue(c.rng.d(-5, 5)); break; case 1: eps[p]->setValue(p == 0 ? eps[0]->getValue() * .99 : c.rng.d(.2, 900)); break; case 2: mps[p]->setValue(c.rng.d(-10, 10)); break; default: scale = c.rng.d(.5, 2); } }
    double e0 = eps[0]->getValue(), dv0 = e0 * mps[0]->getValue() + 1, dv[2] = {dv0, 2 * dv0 - 3};
    for (auto& f : fb) for (std::size_t i = 0; i < f.n; ++i) { double m = f.m[i] * scale; want[f.at + i] = defn(f.kind, f.u0, f.d[i], m, f.w[i]); tol[f.at + i] = 2 * tolDef(f.kind, f.u0, f.d[i], m, f.w[i]) + 1e-300; }
    for (auto& q : pri) { double v = !q.world ? eps[q.p]->getEngineValue() : q.kind == 0 ? eps[q.p]->getValue() : q.kind == 1 ? mps[q.p]->getValue() : dv[q.p % 2]; want[q.at] = q.w * (v - q.exp); tol[q.at] = 1e-12 * q.w * (std::fabs(v) + std::fabs(q.exp)) + 1e-300; }
    std::vector<double> out(total + 3, 12345.), out2(total + 3, 12345.); std::vector<float> out3(total + 3, 12345.f);
    est.populateResiduals(out.data()); est.populateResiduals(out2.begin()); est.populateResiduals(out3.begin());
    for (std::size_t i = 0; i < total; ++i) {
      bool isEng = false; for (auto& q : pri) if (q.at == i && !q.world) isEng = true;
      double v = out[i];
      if (isEng && want[i] != 0) { int s = (v > 0) == (want[i] > 0) ? 1 : -1; if (std::fabs(want[i]) > 1e-9) { if (!sgn) sgn = s; c.check(sgn == s, "prior-sign", t); } v *= s; }  // the sign convention of the engine prior is free, but it is one convention
      c.checkf(vh::near(v, want[i], 1e-6 * 0, tol[i]), "residual", [&] { return fmt("%s step %d: residual %zu of %zu is %.17g, expected %.17g", t.c_str(), step, i, total, out[i], want[i]); });
      c.check(out2[i] == out[i] && out3[i] == (float)out[i], "iterators-agree", t);
    }
    for (int q = 0; q < 3; ++q) c.check(out[total + q] == 12345. && out2[total + q] == 12345. && out3[total + q] == 12345.f, "past-the-end", t);
  }
  c.counter("residuals compared", total * 6);
  c.sig(t); if (c.kase < 3) c.sample(t);
}

namespace {
// dense symmetric solve/inverse
bool invert(std::vector<double> a, int n, std::vector<double>& inv) {
  inv.assign(n * n, 0); for (int i = 0; i < n; ++i) inv[i * n + i] = 1;
  for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(a[i * n + k]) > std::fabs(a[p * n + k])) p = i; if (a[p * n + k] == 0) return false;
    for (int j = 0; j < n; ++j) { std::swap(a[k * n + j], a[p * n + j]); std::swap(inv[k * n + j], inv[p * n + j]); }
    double d = a[k * n + k]; for (int j = 0; j < n; ++j) { a[k * n + j] /= d; inv[k * n + j] /= d; }
    for (int i = 0; i < n; ++i) if (i != k) { double f = a[i * n + k]; for (int j = 0; j < n; ++j) { a[i * n + j] -= f * a[k * n + j]; inv[i * n + j] -= f * inv[k * n + j]; } } }
  return true;
}
}  // namespace

SECTION(fits, 700, 12000) {
  int model = c.rng.i(0, 3), p = model == 0 ? c.rng.i(1, 5) : 3, n = p + c.rng.i(3, 40), kind = c.rng.p(.6) ? 0 : c.rng.i(1, 2); double u0 = 10;
  std::vector<double> x(n), truth(p), start(p), data(n), weight(n);
  for (int i = 0; i < n; ++i) x[i] = -1 + 2. * i / (n - 1);
  if (model == 0) for (auto& v : truth) v = c.rng.d(-10, 10);
  else if (model == 1) truth = {c.rng.d(5, 50), c.rng.d(-.3, .3), c.rng.d(.25, .6)};           // gaussian
  else if (model == 2) truth = {c.rng.d(5, 50), c.rng.d(.3, 2), c.rng.d(1, 10)};               // a exp(-b x) + c
  else truth = {c.rng.d(5, 50), c.rng.d(.5, 2), c.rng.d(-.5, .5)};                             // a tanh-like
  auto basis = [](int j, double xx) { return std::cos(j * std::acos(std::max(-1., std::min(1., xx)))); };
  auto f = [=](const std::vector<double>& q, double xx) -> double {
    if (model == 0) { double s = 0; for (int j = 0; j < p; ++j) s += q[j] * basis(j, xx); return s; }
    if (model == 1) return q[0] * std::exp(-.5 * (xx - q[1]) * (xx - q[1]) / (q[2] * q[2]));
    if (model == 2) return q[0] * std::exp(-q[1] * xx) + q[2];
    return q[0] * std::atan(q[1] * (xx - q[2])); };
  double noise = c.rng.p(.15) ? 0 : c.rng.d(.001, .5);
  for (int i = 0; i < n; ++i) { weight[i] = c.rng.p(.1) && model == 0 && n > 3 * p ? 0 : c.rng.d(.5, 2); data[i] = f(truth, x[i]) + noise * c.rng.gauss(); if (weight[i] == 0 && c.rng.p(.5)) data[i] += 1e4; }
  std::vector<std::shared_ptr<EngineParameter>> par; std::string t = fmt("model %d p %d n %d comparator %d noise %g", model, p, n, kind, noise); std::vector<int> cks;
  EngineParameterManager man; std::vector<std::shared_ptr<BasicParameter>> use;
  for (int j = 0; j < p; ++j) {
    double tr = truth[j], st = model == 0 ? c.rng.d(-10, 10) : tr * c.rng.d(.8, 1.25) + (std::fabs(tr) < .6 ? c.rng.d(-.05, .05) : 0); int ck = c.rng.i(0, 3); std::unique_ptr<CoordinateConverter> cv;
    if (ck == 3 && (tr < .2 || st < .2)) ck = 2;
    if (ck == 0) cv.reset(new NeutralConverter); else if (ck == 1) cv.reset(new NormalizedConverter(std::max(.5, std::fabs(st)))); else if (ck == 2) { double half = 4 * std::max({std::fabs(tr), std::fabs(st), 1.}); cv.reset(new SigmoidConverter(-half, half)); } else cv.reset(new ExpSigmoidConverter(std::min(tr, st) / 20, std::max(tr, st) * 20));
    t += fmt(" %d:%g->%g", ck, st, tr); cks.push_back(ck); start[j] = st;
    par.push_back(std::make_shared<EngineParameter>(st, std::move(cv))); man.registerParameter(par.back());
  }
  // the model sees the parameters directly or through a dependent parameter
  bool dep = c.rng.p(.3); for (int j = 0; j < p; ++j) use.push_back(dep ? std::shared_ptr<BasicParameter>(createDependentParameter([](double v) { return v; }, par[j])) : par[j]);
  ResidualEstimator est; uint64_t evals = 0;
  FnModel fm{(std::size_t)n, nullptr, std::make_shared<std::vector<double>>(n)}; fm.f = [&, f](std::size_t i) { if (i == 0) ++evals; std::vector<double> q; for (auto& u : use) q.push_back(u->getValue()); return f(q, x[i]); };
  // data split into one or two blocks
  if (c.rng.p(.4)) { std::size_t h = n / 2; std::vector<double> d1(data.begin(), data.begin() + h), d2(data.begin() + h, data.end()), w1(weight.begin(), weight.begin() + h), w2(weight.begin() + h, weight.end()); FnModel a{h, fm.f, std::make_shared<std::vector<double>>(h)}, b{n - h, nullptr, std::make_shared<std::vector<double>>(n - h)}; auto ff = fm.f; b.f = [ff, h](std::size_t i) { return ff(i + h); }; est.registerBlockProvider(makeBlock(kind, u0, d1, a, w1)); est.registerBlockProvider(makeBlock(kind, u0, d2, b, w2)); }
  else est.registerBlockProvider(makeBlock(kind, u0, data, fm, weight));
  bool prior = c.rng.p(.4); if (prior) { int j = c.rng.i(0, p - 1); double pw = c.rng.d(.1, 3); if (c.rng.p(.5)) est.registerBlockProvider(std::make_unique<WorldValueResidual>(par[j], truth[j] * 1.1, pw)); else est.registerBlockProvider(std::make_unique<EngineValueResidual>(*par[j], par[j]->getEngineValue(), pw)); t += " prior"; }
  std::size_t N = est.numberOfResiduals(); c.check(N == (std::size_t)n + prior, "count", t);
  auto residuals = [&](const std::vector<double>& e) { man.updateEngineValues(e.begin()); std::vector<double> r(N); est.populateResiduals(r.data()); return r; };
  auto cost = [&](const std::vector<double>& e) { double s = 0; for (double v : residuals(e)) s += v * v; return s; };
  std::vector<double> e0(p), e1(p); man.getEngineValues(e0.begin()); double S0 = cost(e0);
  std::shared_ptr<LeastSquareEngine> eng = c.rng.p(.5) ? LeastSquareEngineManager::create(c.rng.p(.5) ? "gsl" : "GSL", 1000) : std::make_shared<GSLEngine>(1000);
  auto sum = eng->solveProblem(man, est);
  man.getEngineValues(e1.begin());
  std::vector<double> w1; for (auto& q : par) w1.push_back(q->getValue());
  double S1 = cost(e1);
  c.checkf(sum.parameter_sigmas.size() == (std::size_t)p, "sigma-count", [&] { return t; });
  auto jac = [&](const std::vector<double>& e) { std::vector<double> J(N * p); for (int j = 0; j < p; ++j) { double h = 1e-5 * std::max(1e-2, std::fabs(e[j])); auto a = e, b = e; a[j] += h; b[j] -= h; auto ra = residuals(a), rb = residuals(b); for (std::size_t i = 0; i < N; ++i) J[i * p + j] = (ra[i] - rb[i]) / (2 * h); } return J; };
  auto J = jac(e1); auto r1 = residuals(e1); std::vector<double> A(p * p, 0), g(p, 0), inv;
  for (std::size_t i = 0; i < N; ++i) for (int j = 0; j < p; ++j) { g[j] += J[i * p + j] * r1[i]; for (int k = 0; k < p; ++k) A[j * p + k] += J[i * p + j] * J[i * p + k]; }
  double dmax = 0; for (int j = 0; j < p; ++j) dmax = std::max(dmax, A[j * p + j]);
  bool wellposed = invert(A, p, inv); double cond = 0; if (wellposed) { for (int j = 0; j < p; ++j) cond = std::max(cond, inv[j * p + j] * dmax); } wellposed = wellposed && cond < 1e6;
  c.checkf(S1 <= S0 * (1 + 1e-9) + 1e-20, "no-worse-than-start", [&] { return fmt("%s: cost %.12g at the end, %.12g at the start", t.c_str(), S1, S0); });
  c.counter("solver evaluations", evals); c.counter(fmt("fits ended with status %d", (int)sum.status_flag));
  if (sum.status_flag == LeastSquareSummary::SUCCESS && wellposed) {
    c.counter("well-posed fits checked");
    double red = 0, stepmax = 0; std::vector<double> step(p, 0); for (int j = 0; j < p; ++j) { for (int k = 0; k < p; ++k) step[j] += inv[j * p + k] * g[k]; red += step[j] * g[j]; }
    // what a Gauss-Newton step would still gain, and how far it would go
    for (int j = 0; j < p; ++j) stepmax = std::max(stepmax, std::fabs(step[j]) / std::max(1., std::fabs(e1[j])));
    c.checkf(stepmax < 2e-5 || red < (kind == 0 ? 3e-3 : .02) * S1 / (N - p) + 1e-16, "stationary", [&] { return fmt("%s: a further step of %g (relative) gains %g of %g; stop %d after %zu iterations", t.c_str(), stepmax, red, S1, sum.engine_stop_reason, sum.iteration_no); });
    if (model == 0 && kind == 0 && !prior) { bool lin = true; for (int k : cks) if (k > 1) lin = false;
      if (lin) c.checkf(stepmax < 1e-5 || red < 1e-9 * S1 + 1e-16, "linear-solution", [&] { return fmt("%s: off the normal equations by %g", t.c_str(), stepmax); }); }
    if (noise == 0 && !prior) for (int j = 0; j < p; ++j) c.checkf(vh::near(w1[j], truth[j], 2e-4, 2e-4), "recovers-truth", [&] { return fmt("%s: parameter %d is %.12g", t.c_str(), j, w1[j]); });
    double s2 = S1 / (N - p);
    if (noise > 0 && stepmax < 1e-3) { man.updateEngineValues(e1.begin()); for (int j = 0; j < p; ++j) { double ref = std::sqrt(inv[j * p + j] * s2) * std::fabs(par[j]->getEngineToWorldDerivative()); c.checkf(vh::near(sum.parameter_sigmas[j], ref, .03, 0), "sigma", [&] { return fmt("%s: uncertainty %d is %g, the curvature gives %g", t.c_str(), j, sum.parameter_sigmas[j], ref); }); } }
  }
  c.sig(t); if (c.kase < 3) c.sample(t);
}

SECTION(fitfailures, 150, 1500) {
  int mode = c.rng.i(0, 3);
  EngineParameterManager man; ResidualEstimator est; auto a = std::make_shared<EngineParameter>(c.rng.d(1, 5), std::unique_ptr<CoordinateConverter>(new NeutralConverter)); auto b = std::make_shared<EngineParameter>(c.rng.d(1, 5), std::unique_ptr<CoordinateConverter>(new NeutralConverter));
  man.registerParameter(a); man.registerParameter(b);
  int n = mode == 3 ? 1 : c.rng.i(5, 20); std::vector<double> d(n), w(n, 1);
  for (int i = 0; i < n; ++i) d[i] = 100 * std::exp(-.5 * std::pow((i - n * .3) / 2.1, 2)) + c.rng.d(-1, 1);
  if (mode == 0) d[c.rng.i(0, n - 1)] = NAN;
  FnModel fm{(std::size_t)n, nullptr, std::make_shared<std::vector<double>>(n)};
  fm.f = [&](std::size_t i) { if (mode == 1) return NAN * a->getValue(); return 50 * a->getValue() * std::exp(-.5 * std::pow((i - b->getValue()) / 2.1, 2)); };
  est.registerBlockProvider(makeBlock(0, 10, d, fm, w));
  GSLEngine eng(mode == 2 ? 1 : 1000); bool threw = false; LeastSquareSummary s;
  try { s = eng.solveProblem(man, est); } catch (const std::exception&) { threw = true; }
  c.counter(fmt("failure mode %d: %s", mode, threw ? "exception" : fmt("status %d", (int)s.status_flag).c_str()));
  if (mode != 2) c.checkf(threw || s.status_flag != LeastSquareSummary::SUCCESS, "failure-reported", [&] { return fmt("mode %d reported as success: %g %g", mode, a->getValue(), b->getValue()); });
  if (mode == 2 && !threw) c.checkf(s.iteration_no <= 1, "iteration-limit", [&] { return fmt("%zu iterations", s.iteration_no); });
  bool r = false; try { LeastSquareEngineManager::create("no-such-engine"); } catch (const std::exception&) { r = true; } c.check(r, "unknown-engine-refused", "");
  c.sig(fmt("%d%d", mode, n));
}

VH_MAIN
