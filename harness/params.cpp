// C13: converters, parameters, observers, dependent parameters and the parameter manager against a recomputed graph.
#include "vh.h"
#include <memory>
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/DependentParameter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
#include "SEUtils/Observable.h"
using namespace ModelFitting;
using vh::fmt;

namespace {
struct Conv { int kind; double lo, hi, norm; std::string txt;
  std::unique_ptr<CoordinateConverter> make() const {
    switch (kind) {
      case 0: return std::unique_ptr<CoordinateConverter>(new NeutralConverter);
      case 1: return std::unique_ptr<CoordinateConverter>(new NormalizedConverter(norm));
      case 2: return std::unique_ptr<CoordinateConverter>(new SigmoidConverter(lo, hi));
      default: return std::unique_ptr<CoordinateConverter>(new ExpSigmoidConverter(lo, hi));
    } }
  bool ranged() const { return kind >= 2; }
  double scale() const { return ranged() ? std::max(std::fabs(lo), std::fabs(hi)) : 0; } };

Conv randConv(vh::Ctx& c, bool positive_norm) {
  Conv k; k.kind = c.rng.i(0, 3); k.lo = k.hi = 0; k.norm = 1;
  double mag = std::pow(10., c.rng.d(-6, 8));
  if (k.kind == 1) { k.norm = mag; if (!positive_norm && c.rng.p(.3)) k.norm = -mag; }
  if (k.kind == 2) { k.lo = c.rng.p(.3) ? 0 : c.rng.d(-mag, mag); k.hi = k.lo + mag * std::pow(10., c.rng.d(-3, 2)); if (c.rng.p(.1)) { k.hi = 0; k.lo = -mag; } }
  if (k.kind == 3) { k.lo = mag; k.hi = mag * (1 + std::pow(10., c.rng.d(-3, 6))); }
  k.txt = fmt("%s[%g,%g] norm %g", k.kind == 0 ? "neutral" : k.kind == 1 ? "normalized" : k.kind == 2 ? "sigmoid" : "expsigmoid", k.lo, k.hi, k.norm);
  return k;
}
double worldIn(vh::Ctx& c, const Conv& k) {
  if (k.kind == 3) { int r = c.rng.i(0, 9); double f = r == 0 ? std::pow(10., c.rng.d(-9, 0)) : r == 1 ? 1 - std::pow(10., c.rng.d(-9, 0)) : c.rng.d();
    return std::min(k.hi, std::max(k.lo, c.rng.p(.5) ? k.lo * std::pow(k.hi / k.lo, f) : k.lo + (k.hi - k.lo) * f)); }
  if (k.kind == 2) { int r = c.rng.i(0, 9); double f = r == 0 ? std::pow(10., c.rng.d(-12, 0)) : r == 1 ? 1 - std::pow(10., c.rng.d(-12, 0)) : c.rng.d();
    return std::min(k.hi, std::max(k.lo, k.lo + (k.hi - k.lo) * f)); }
  return (c.rng.p(.5) ? 1 : -1) * std::pow(10., c.rng.d(-8, 8)) * (c.rng.p(.05) ? 0 : 1);
}
// how precisely a world value can survive the trip
double tolW(const Conv& k, double w) { return k.ranged() ? 4e-12 * (std::max(std::fabs(k.lo), std::fabs(k.hi))) : 1e-14 * std::fabs(w); }
}  // namespace

SECTION(converters, 6000, 120000) {
  Conv k = randConv(c, false); auto cv = k.make();
  c.sig(k.txt);
  if (c.kase < 3) c.sample(k.txt);
  for (int n = 0; n < 12; ++n) {
    double w = worldIn(c, k), e = cv->worldToEngine(w), w2 = cv->engineToWorld(e);
    c.checkf(std::isfinite(e), "finite", [&] { return fmt("%s: engine value of %.17g is %g", k.txt.c_str(), w, e); });
    c.checkf(vh::near(w, w2, 0, tolW(k, w)), "roundtrip", [&] { return fmt("%s: world %.17g -> engine %.17g -> world %.17g", k.txt.c_str(), w, e, w2); });
    if (k.kind == 1) c.checkf(vh::near(e * k.norm, w, 1e-14, 0), "normalized-definition", [&] { return fmt("%s: %g -> %g", k.txt.c_str(), w, e); });
    if (k.kind == 0) c.check(e == w, "neutral-definition", k.txt);
    double e3 = k.ranged() ? c.rng.d(-12, 12) : w, w3 = cv->engineToWorld(e3), e4 = cv->worldToEngine(w3);
    if (k.kind == 2) { double ref = k.lo + (k.hi - k.lo) / (1 + std::exp(-e3)); c.checkf(vh::near(ref, w3, 0, tolW(k, 0)), "sigmoid-definition", [&] { return fmt("%s: engine %g gives %.17g, logistic of the range %.17g", k.txt.c_str(), e3, w3, ref); }); }
    if (k.kind == 3) { double ref = std::exp(std::log(k.lo) + (std::log(k.hi) - std::log(k.lo)) / (1 + std::exp(-e3))); c.checkf(vh::near(ref, w3, 1e-10, 0), "expsigmoid-definition", [&] { return fmt("%s: engine %g gives %.17g, logistic of the log range %.17g", k.txt.c_str(), e3, w3, ref); }); }
    // engine -> world -> engine, where the world value still resolves it
    double der = cv->getEngineToWorldDerivative(w3), res = 2.3e-16 * (k.scale() + std::fabs(w3));
    if (std::fabs(der) > 0) { double t = 16 * res / std::fabs(der) + 1e-13 * std::fabs(e3);
      if (k.kind == 3) t += 1e-14 / std::log(k.hi / k.lo) * std::exp(std::fabs(e3)) * 16;
      c.checkf(vh::near(e3, e4, 0, t), "engine-roundtrip", [&] { return fmt("%s: engine %.17g -> %.17g -> %.17g", k.txt.c_str(), e3, w3, e4); }); }
    // derivative against a central difference
    { double h = 1e-4 * (k.ranged() ? 1 : std::max(1e-12, std::fabs(e3))), num = (cv->engineToWorld(e3 + h) - cv->engineToWorld(e3 - h)) / (2 * h), t = 1e-6 * std::fabs(num) + 8 * (k.scale() + std::fabs(w3)) * 2.3e-16 / h;
      if (k.kind == 3 ) t += 1e-12 * w3 / std::log(k.hi / k.lo) + 1e-5 * std::fabs(num);
      c.checkf(vh::near(der, num, 0, t), "derivative", [&] { return fmt("%s at engine %g world %.17g: derivative %.12g, slope %.12g", k.txt.c_str(), e3, w3, der, num); }); }
    // any proposal stays in range and keeps the order
    if (k.ranged()) {
      std::vector<double> props{-INFINITY, -1e308, -1e5, -710, -51, -50, -49.9, -20, -3, -1e-9, 0, 1e-9, 1, 20, 36.7, 49.9, 50, 51, 710, 1e300, INFINITY};
      for (int q = 0; q < 6; ++q) props.push_back(c.rng.d(-60, 60));
      std::sort(props.begin(), props.end());
      double prev = -INFINITY, slack = 1e-12 * k.scale();
      for (double p : props) { double v = cv->engineToWorld(p);
        c.checkf(v >= k.lo - slack && v <= k.hi + slack, "range", [&] { return fmt("%s: engine %g gives world %.17g", k.txt.c_str(), p, v); });
        c.checkf(v >= prev - slack, "monotonic", [&] { return fmt("%s: engine %g gives %.17g, smaller than %.17g", k.txt.c_str(), p, v, prev); });
        prev = v; }
      c.checkf(cv->engineToWorld(3) > cv->engineToWorld(-3), "monotonic-strict", [&] { return k.txt; });
      double nv = cv->engineToWorld(NAN);
      c.checkf(std::isnan(nv) || (nv >= k.lo - slack && nv <= k.hi + slack), "range-nan", [&] { return fmt("%s: NaN gives %g", k.txt.c_str(), nv); });
      c.checkf(vh::near(cv->engineToWorld(INFINITY), k.hi, 1e-9, slack) && vh::near(cv->engineToWorld(-INFINITY), k.lo, 1e-9, slack), "range-reached", [&] { return k.txt; });
      for (double b : {k.lo, k.hi}) { double eb = cv->worldToEngine(b), wb = cv->engineToWorld(eb);
        c.checkf(std::isfinite(eb), "finite-at-limit", [&] { return fmt("%s: engine value of the limit %.17g is %g", k.txt.c_str(), b, eb); });
        c.checkf(vh::near(wb, b, 0, 1e-9 * k.scale()), "roundtrip-at-limit", [&] { return fmt("%s: limit %.17g -> %g -> %.17g", k.txt.c_str(), b, eb, wb); }); }
    }
    double wb = worldIn(c, k), eb = cv->worldToEngine(wb);
    double sgn = k.kind == 1 && k.norm < 0 ? -1 : 1;
    if (wb > w + 1e-9 * (k.scale() + std::fabs(w))) c.checkf(sgn * eb > sgn * e, "monotonic-world", [&] { return fmt("%s: worlds %.17g < %.17g engines %.17g %.17g", k.txt.c_str(), w, wb, e, eb); });
  }
  if (k.kind == 2 || k.kind == 3) {
    bool threw = false; try { if (k.kind == 2) SigmoidConverter(k.hi, k.lo); else ExpSigmoidConverter(k.hi, k.lo); } catch (const std::exception&) { threw = true; }
    c.check(threw, "inverted-range-refused", k.txt);
    if (k.kind == 3) { threw = false; try { ExpSigmoidConverter(-k.lo, k.hi); } catch (const std::exception&) { threw = true; } c.check(threw, "nonpositive-range-refused", k.txt); }
  }
}

namespace {
enum Kind { MAN, ENG, DEP };
struct Node { Kind kind; std::shared_ptr<BasicParameter> p; std::shared_ptr<ManualParameter> man; std::shared_ptr<EngineParameter> eng; Conv conv; double truth = 0; double engine = 0;
  std::vector<int> in; std::vector<double> coef; int fun = 0;
  struct Obs { std::size_t id; double last; uint64_t calls; bool alive; };
  std::vector<std::shared_ptr<Obs>> obs; };
double evalFun(int fun, const std::vector<double>& k, const std::vector<double>& v) {
  double s = 0; for (size_t j = 0; j < v.size(); ++j) s += k[j] * v[j];
  if (fun == 1) return std::tanh(s / 1e3) * 5; if (fun == 2) { double p = 1; for (size_t j = 0; j < v.size(); ++j) p *= 1 + 1e-3 * std::tanh(v[j]) * k[j]; return p; }
  return s;
}
}  // namespace

SECTION(graphs, 2500, 40000) {
  std::vector<Node> g; std::string trace;
  auto truthOf = [&](auto&& self, int i) -> double { Node& n = g[i]; if (n.kind != DEP) return n.truth; std::vector<double> v; for (int j : n.in) v.push_back(self(self, j)); return evalFun(n.fun, n.coef, v); };
  int nbase = c.rng.i(1, 4), ndep = c.rng.i(0, 6);
  auto addDep = [&] {
    Node n; n.kind = DEP; int k = c.rng.i(1, 4); std::vector<std::shared_ptr<BasicParameter>> q;
    for (int j = 0; j < k; ++j) { int s; int guard = 0; do { s = c.rng.i(0, (int)g.size() - 1); } while (!g[s].p && ++guard < 50); if (!g[s].p) s = 0; n.in.push_back(s); n.coef.push_back(c.rng.d(-2, 2)); q.push_back(g[s].p); }
    n.fun = c.rng.i(0, 2); auto f = n.fun; auto co = n.coef;
    if (k == 1) n.p = createDependentParameter([=](double a) { return evalFun(f, co, {a}); }, q[0]);
    else if (k == 2) n.p = createDependentParameter([=](double a, double b) { return evalFun(f, co, {a, b}); }, q[0], q[1]);
    else if (k == 3) n.p = createDependentParameter([=](double a, double b, double d) { return evalFun(f, co, {a, b, d}); }, q[0], q[1], q[2]);
    else n.p = createDependentParameter([=](double a, double b, double d, double e) { return evalFun(f, co, {a, b, d, e}); }, q[0], q[1], q[2], q[3]);
    trace += fmt("D%d(", (int)g.size()); for (int s : n.in) trace += fmt("%d,", s); trace += ")";
    g.push_back(std::move(n));
  };
  for (int i = 0; i < nbase; ++i) {
    Node n; n.kind = c.rng.p(.4) ? MAN : ENG;
    if (n.kind == MAN) { n.truth = c.rng.d(-1e3, 1e3); n.man = std::make_shared<ManualParameter>(n.truth); n.p = n.man; }
    else { n.conv = randConv(c, false); n.truth = worldIn(c, n.conv); auto cv = n.conv.make(); n.engine = cv->worldToEngine(n.truth); n.eng = std::make_shared<EngineParameter>(n.truth, std::move(cv)); n.p = n.eng; }
    trace += n.kind == MAN ? "M" : "E" + std::to_string(n.conv.kind);
    g.push_back(std::move(n));
  }
  for (int i = 0; i < ndep; ++i) addDep();
  auto verify = [&](const char* after, int upd) {
    for (size_t i = 0; i < g.size(); ++i) { Node& n = g[i]; if (!n.p) continue;
      double t = truthOf(truthOf, (int)i);
      for (auto& o : n.obs) if (o->alive)
        c.checkf(vh::near(o->last, t, 1e-12, 1e-300), "observer-agrees", [&] { return fmt("%s after %s of %d: an observer of %zu last saw %.17g, the value is %.17g", trace.c_str(), after, upd, i, o->last, t); });
      double v = n.p->getValue();
      c.checkf(vh::near(v, t, 1e-12, 1e-300), "value-agrees", [&] { return fmt("%s after %s of %d: parameter %zu is %.17g, expected %.17g", trace.c_str(), after, upd, i, v, t); });
      if (n.kind == ENG) { c.checkf(vh::near(n.eng->getEngineValue(), n.engine, 1e-13, 0) , "engine-agrees", [&] { return fmt("%s after %s of %d: engine value %.17g expected %.17g", trace.c_str(), after, upd, n.eng->getEngineValue(), n.engine); }); }
    } };
  verify("construction", -1);
  int steps = c.rng.i(3, 25); uint64_t notified = 0;
  for (int s = 0; s < steps; ++s) {
    int i = c.rng.i(0, (int)g.size() - 1); Node& n = g[i]; if (!n.p) continue;
    int op = c.rng.i(0, 9); std::vector<uint64_t> before; for (auto& o : n.obs) before.push_back(o->calls);
    bool upd = false; const char* what = "read";
    if (op <= 4 && n.kind == MAN) { n.truth = c.rng.d(-1e3, 1e3); n.man->setValue(n.truth); upd = true; what = "set"; }
    else if (op <= 2 && n.kind == ENG) { n.truth = worldIn(c, n.conv); auto cv = n.conv.make(); n.engine = cv->worldToEngine(n.truth);
      // during the notification world and engine values must already agree
      auto* ep = n.eng.get(); double want = n.engine; bool okin = true; double seen = 0; auto id = n.p->addObserver([&](double) { seen = ep->getEngineValue(); if (!vh::near(seen, want, 1e-13, 0)) okin = false; });
      n.eng->setValue(n.truth); n.p->removeObserver(id); upd = true; what = "setValue";
      c.checkf(okin, "observer-engine-agrees", [&] { return fmt("%s: an observer notified of world %.17g reads engine value %.17g, expected %.17g", trace.c_str(), n.truth, seen, want); }); }
    else if (op <= 4 && n.kind == ENG) { n.engine = n.conv.ranged() ? c.rng.d(-60, 60) * (c.rng.p(.1) ? 1e6 : 1) : worldIn(c, n.conv); auto cv = n.conv.make(); n.truth = cv->engineToWorld(n.engine); n.eng->setEngineValue(n.engine); upd = true; what = "setEngineValue";
      if (n.conv.ranged()) c.checkf(n.eng->getValue() >= n.conv.lo - 1e-12 * n.conv.scale() && n.eng->getValue() <= n.conv.hi + 1e-12 * n.conv.scale(), "param-range", [&] { return fmt("%s engine %g gives %.17g", n.conv.txt.c_str(), n.engine, n.eng->getValue()); }); }
    else if (op == 5 || op == 6) { auto o = std::make_shared<Node::Obs>(); o->last = truthOf(truthOf, i); o->calls = 0; o->alive = true; auto* op_ = o.get(); o->id = n.p->addObserver([op_, &notified](double v) { op_->last = v; op_->calls++; ++notified; });
      for (auto& q : n.obs) if (q->alive) c.check(q->id != o->id, "observer-id-unique", trace); n.obs.push_back(o); what = "observe"; c.check(n.p->isObserved(), "is-observed", trace); before.push_back(0); }
    else if (op == 7 && !n.obs.empty()) { auto& o = n.obs[c.rng.i(0, (int)n.obs.size() - 1)]; bool r = n.p->removeObserver(o->id); c.checkf(r == o->alive, "remove-result", [&] { return trace; }); o->alive = false; what = "unobserve"; }
    else if (op == 8 && g.size() < 12) { addDep(); what = "add dependent"; }
    else if (op == 9 && n.kind == DEP) { bool used = false; for (auto& m : g) if (m.p && m.kind == DEP) for (int q : m.in) if (q == i) used = true; if (!used) { n.obs.clear(); n.p.reset(); what = "destroy dependent"; trace += fmt("x%d", i); verify(what, i); continue; } }
    trace += fmt(" %s%d", what, i);
    if (upd) for (size_t q = 0; q < n.obs.size(); ++q) if (n.kind != DEP) {
      uint64_t calls = n.obs[q]->calls - before[q];
      c.checkf(calls == (n.obs[q]->alive ? 1u : 0u), "notified-once", [&] { return fmt("%s: observer called %d times for one update", trace.c_str(), (int)calls); }); }
    if (c.rng.p(.7)) verify(what, i);
  }
  verify("all", -1);
  c.counter("observer notifications", notified); c.sig(trace); if (c.kase < 2) c.sample(trace);
}

SECTION(manager, 1500, 20000) {
  EngineParameterManager m; int n = c.rng.i(0, 12); std::vector<std::shared_ptr<EngineParameter>> ps; std::vector<Conv> cv; std::string t;
  for (int i = 0; i < n; ++i) { Conv k = randConv(c, false); cv.push_back(k); ps.push_back(std::make_shared<EngineParameter>(worldIn(c, k), k.make())); m.registerParameter(ps.back()); t += std::to_string(k.kind); }
  c.check(m.numberOfParameters() == (size_t)n, "count", t);
  std::vector<double> out(n + 2, -777); m.getEngineValues(out.begin());
  for (int i = 0; i < n; ++i) c.checkf(out[i] == ps[i]->getEngineValue(), "get-order", [&] { return fmt("parameter %d of %d", i, n); });
  c.check(out[n] == -777, "get-count", t);
  for (int rep = 0; rep < 3; ++rep) {
    std::vector<double> in; for (int i = 0; i < n; ++i) in.push_back(cv[i].ranged() ? c.rng.d(-8, 8) : c.rng.d(-10, 10));
    m.updateEngineValues(in.begin());
    for (int i = 0; i < n; ++i) { c.checkf(ps[i]->getEngineValue() == in[i] && vh::near(ps[i]->getValue(), cv[i].make()->engineToWorld(in[i]), 1e-14, 0), "update-order", [&] { return fmt("parameter %d of %d: engine %g given %g", i, n, ps[i]->getEngineValue(), in[i]); }); }
    std::vector<double> cov(n * n), got; for (auto& v : cov) v = c.rng.d(-1, 1);
    got = m.convertCovarianceMatrixToWorldSpace(cov);
    c.check(got.size() == cov.size(), "covariance-size", t);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
      double ref = cov[j * n + i] * ps[i]->getEngineToWorldDerivative() * ps[j]->getEngineToWorldDerivative();
      c.checkf(vh::near(got[j * n + i], ref, 1e-12, 0), "covariance", [&] { return fmt("(%d,%d) of %d: %g expected %g", j, i, n, got[j * n + i], ref); }); }
  }
  c.sig(t);
}

namespace {
struct Rec : SourceXtractor::Observer<int> { std::vector<std::pair<int, int>>* log; int id; void handleMessage(const int& m) override { log->push_back({id, m}); } };
struct Subj : SourceXtractor::Observable<int> { void say(int m) { notifyObservers(m); } };
}  // namespace
SECTION(observable, 1500, 20000) {
  Subj s; std::vector<std::pair<int, int>> log, want; std::vector<std::shared_ptr<Rec>> pool; std::vector<int> reg; std::string t;
  for (int i = 0; i < 6; ++i) { auto r = std::make_shared<Rec>(); r->log = &log; r->id = i; pool.push_back(r); }
  int n = c.rng.i(5, 40);
  for (int k = 0; k < n; ++k) {
    int i = c.rng.i(0, 5), op = c.rng.i(0, 3);
    if (op == 0) { if (std::find(reg.begin(), reg.end(), i) == reg.end()) { s.addObserver(pool[i]); reg.push_back(i); t += fmt("+%d", i); } }
    else if (op == 1) { s.removeObserver(pool[i]); reg.erase(std::remove(reg.begin(), reg.end(), i), reg.end()); t += fmt("-%d", i); }
    else { s.say(k); for (int r : reg) want.push_back({r, k}); t += "!"; }
  }
  c.checkf(log == want, "deliveries", [&] { return fmt("%s: %zu deliveries, expected %zu", t.c_str(), log.size(), want.size()); });
  c.sig(t); c.counter("messages delivered", log.size());
}

VH_MAIN
