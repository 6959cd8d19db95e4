// C03: partition steps, deblending and cleaning against the pixels they were given.
#include "detect.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEImplementation/Deblending/Cleaning.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Partition/AttractorsPartitionStep.h"
#include "SEImplementation/Partition/MinAreaPartitionStep.h"
#include "SEImplementation/Partition/MultiThresholdPartitionStep.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/AssocMode/AssocModePartitionStep.h"
#include "SEImplementation/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Segmentation/LutzSegmentation.h"
using namespace SourceXtractor;
using namespace det;
using Src = std::unique_ptr<SourceInterface>;
using List = std::vector<Src>;

static std::shared_ptr<SourceFactory> factory() { static auto reg = [] { auto r = std::make_shared<TaskFactoryRegistry>(); registerDetection(*r); return r; }(); return std::make_shared<SourceWithOnDemandPropertiesFactory>(std::make_shared<TaskProvider>(reg)); }
static std::vector<PixelCoordinate> coords(const Set& s, vh::Rng& r) { std::vector<PixelCoordinate> v; for (auto& p : s) v.emplace_back(p.second, p.first); if (r.p(0.7)) r.shuffle(v); return v; }
static std::string show(const Set& s) { std::string r; for (auto& p : s) { r += vh::fmt("(%d,%d)", p.second, p.first); if (r.size() > 150) return r + "..."; } return r; }

// no pixel twice, none invented, none lost
static bool conserved(vh::Ctx& c, const Set& in, const List& out, const std::string& what) {
  Set seen; size_t n = 0; bool ok = true;
  for (auto& s : out) {
    if (!c.check(s != nullptr, "null-source", what + ": a null source")) return false;
    auto& v = s->getProperty<PixelCoordinateList>().getCoordinateList(); n += v.size(); auto p = pixels(v);
    ok &= c.check(!v.empty(), "empty-source", what + ": a source without pixels"); ok &= c.check(p.size() == v.size(), "pixel-twice", what + ": a pixel twice in one source");
    for (auto& q : p) ok &= c.checkf(in.count(q) != 0, "pixel-invented", [&] { return what + vh::fmt(": pixel (%d,%d) was not in the input", q.second, q.first); });
    seen.insert(p.begin(), p.end());
  }
  ok &= c.checkf(seen.size() == n, "pixel-shared", [&] { return what + vh::fmt(": %zu pixels in the sources, %zu different", n, seen.size()); });
  ok &= c.checkf(seen.size() == in.size(), "pixel-lost", [&] { Set l; std::set_difference(in.begin(), in.end(), seen.begin(), seen.end(), std::inserter(l, l.end())); return what + vh::fmt(": %zu of %zu pixels lost: ", l.size(), in.size()) + show(l); });
  c.counter("sources_out", out.size()); c.counter("pixels_followed", in.size()); return ok;
}
struct Scene { int w, h; Grid img, var; std::shared_ptr<DetectionImageFrame> frame; float thr; };
// peaks of several shapes on one another, above a threshold
static Scene scene(vh::Rng& r) {
  int w = r.i(3, 40), h = r.i(3, 40); Scene s{w, h, Grid(w, h), Grid(w, h, 1), nullptr, 0};
  int n = r.i(1, 7), kind = r.i(0, 3); float top = 0;
  for (int k = 0; k < n; ++k) {
    double cx = r.d(-1, w), cy = r.d(-1, h), a = r.d(0.4, 6), b = r.d(0.4, 6), t = r.d(0, 3.2), amp = std::exp(r.d(0, kind == 2 ? 12 : 5));
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double dx = (x - cx) * std::cos(t) + (y - cy) * std::sin(t), dy = (y - cy) * std::cos(t) - (x - cx) * std::sin(t), q = dx * dx / (a * a) + dy * dy / (b * b); s.img.at(x, y) += amp * (k % 2 ? std::exp(-q / 2) : std::pow(1 + q, -2.5)); }
  }
  for (auto& v : s.img.v) { if (kind == 1) v += r.gauss() * 0.3; if (kind == 3) v = std::round(v); top = std::max(top, v); }
  if (r.p(0.2)) for (auto& v : s.img.v) v = std::min(v, top / 2);   // plateaus
  if (r.p(0.4)) for (auto& v : s.var.v) v = r.d(0.3, 3);
  s.thr = std::max(1e-3, r.d(0.01, 0.6) * top); if (r.p(0.5)) s.thr = std::min(s.thr, 1.f);
  s.frame = std::make_shared<DetectionImageFrame>(s.img.image(), s.var.image(), 1e6f, nullptr, 0.f, 0.f, 0);
  s.frame->setBackgroundLevel(0); s.frame->setDetectionThreshold(s.thr);
  return s;
}
struct Take : PipelineReceiver<SourceInterface> { List got; int events = 0; void receiveSource(Src s) override { got.push_back(std::move(s)); } void receiveProcessSignal(const ProcessSourcesEvent&) override { ++events; } };
static List detect(const Scene& s, const std::shared_ptr<SourceFactory>& f) { Segmentation seg(nullptr); auto t = std::make_shared<Take>(); seg.setLabelling<LutzSegmentation>(f, 0); seg.setNextStage(t); seg.processFrame(s.frame); return std::move(t->got); }
// the frame is hidden from everything but some tasks: looked at through its representation
static const void* frameOf(const SourceInterface& s) { auto e = s.getProperty<DetectionFrame>().getEncapsulatedFrame(); if constexpr (sizeof(e) == sizeof(std::shared_ptr<DetectionImageFrame>)) return reinterpret_cast<const std::shared_ptr<DetectionImageFrame>&>(e).get(); else return nullptr; }
static bool sameFrame(const SourceInterface& s, const std::shared_ptr<DetectionImageFrame>& f) { auto p = frameOf(s); return !p || p == f.get(); }
static int idOf(const SourceInterface& s) { return s.getProperty<SourceId>().getDetectionId(); }

SECTION(steps, 700, 40000) {
  auto s = scene(c.rng); auto f = factory(); auto src = detect(s, f); c.counter("regions", src.size());
  size_t minarea = c.rng.i(0, 12); unsigned coremin = c.rng.i(1, 8); double core = c.rng.d(0.5, 4) * s.thr;
  unsigned levels = c.rng.i(2, 40), marea = c.rng.i(1, 6), seed = c.rng.i(0, 1000); double contrast = std::pow(10, c.rng.d(-4, 0.2));
  std::map<int, Set> whole; for (auto& x : src) whole[idOf(*x)] = pixelsOf(*x);
  int which = c.rng.i(0, 3); std::string what = which == 0 ? vh::fmt("minimum area %zu", minarea) : which == 1 ? vh::fmt("core threshold %g, %u pixels", core, coremin) : which == 2 ? "attractors" : vh::fmt("multi-threshold contrast %g, %u levels, area %u", contrast, levels, marea);
  auto create = [&]() -> std::shared_ptr<PartitionStep> { if (which == 0) return std::make_shared<MinAreaPartitionStep>(minarea); if (which == 1) return std::make_shared<CoreThresholdPartitionStep>(core, coremin); if (which == 2) return std::make_shared<AttractorsPartitionStep>(f); return std::make_shared<MultiThresholdPartitionStep>(f, contrast, levels, marea, seed); };
  auto step = create(), again = create(); auto src2 = detect(s, f);   // a second run over the same frame must give the same pieces
  for (size_t n = 0; n < src.size(); ++n) {
    Set in = pixelsOf(*src[n]); int id = idOf(*src[n]); auto* raw = src[n].get();
    long n_core = 0; bool doubt = false; if (which == 1) for (auto& p : in) { double snr = double(s.img.at(p.second, p.first)) / std::sqrt(double(s.var.at(p.second, p.first))); if (std::fabs(snr - core) < 1e-4 * core) doubt = true; if (snr >= core) ++n_core; }
    auto out = step->partition(std::move(src[n]));
    if (which < 2) {
      bool want = which == 0 ? in.size() >= minarea : n_core >= coremin; if (doubt) continue;
      c.checkf(out.size() == (want ? 1u : 0u), "kept-by-minimum", [&] { return what + vh::fmt(": a source of %zu pixels (%ld in the core) gave %zu sources", in.size(), n_core, out.size()); });
      if (!out.empty()) { c.check(out[0].get() == raw && pixelsOf(*out[0]) == in, "source-changed", what + ": the source that passed was changed"); conserved(c, in, out, what); }
      c.counter(want ? "kept" : "dropped"); continue;
    }
    conserved(c, in, out, what); c.counter(out.size() > 1 ? "split" : "whole");
    if (out.size() == 1) c.check(out[0].get() == raw, "source-changed", what + ": a source that is not split was replaced");
    auto rep = again->partition(std::move(src2[n])); std::set<Set> a, b; for (auto& x : out) a.insert(pixelsOf(*x)); for (auto& x : rep) b.insert(pixelsOf(*x));
    c.check(a == b, "not-repeatable", what + ": the same frame and seed gave other pieces");
    for (auto& x : out) {
      try { c.check(sameFrame(*x, s.frame), "detection-frame", what + ": a piece on another frame"); } catch (const std::exception& e) { c.fail("detection-frame", what + ": a piece without detection frame"); }
      if (which == 3) { c.checkf(idOf(*x) == id, "detection-id", [&] { return what + vh::fmt(": piece of detection %d carries %d", id, idOf(*x)); }); if (out.size() > 1) { c.check(pixelsOf(*x).size() >= marea, "piece-too-small", what + ": a piece below the minimum deblending area"); } }
    }
    if (which == 3 && (contrast >= 1 || marea * 2 > in.size())) c.check(out.size() == 1, "split-without-contrast", what + ": a source was split although no two pieces can pass");
  }
  // the same steps as a chain
  if (c.rng.p(0.5)) {
    auto src3 = detect(s, f); std::vector<std::shared_ptr<PartitionStep>> ch; std::string names; bool drops = false;
    for (int k = c.rng.i(0, 4); k > 0; --k) { int t = c.rng.i(0, 3); names += std::to_string(t); if (t == 0) { ch.push_back(std::make_shared<MinAreaPartitionStep>(minarea)); drops |= minarea > 1; } else if (t == 1) { ch.push_back(std::make_shared<CoreThresholdPartitionStep>(core, coremin)); drops = true; } else if (t == 2) ch.push_back(std::make_shared<AttractorsPartitionStep>(f)); else ch.push_back(std::make_shared<MultiThresholdPartitionStep>(f, contrast, levels, marea, seed)); }
    // attractors do not hand the identifier on, a multi-threshold step after them has its own
    Partition part(ch); auto t = std::make_shared<Take>(); part.setNextStage(t); Set all, seen; size_t n = 0;
    for (auto& x : src3) { auto p = pixelsOf(*x); all.insert(p.begin(), p.end()); }
    try { for (auto& x : src3) part.receiveSource(std::move(x)); } catch (const PropertyNotFoundException&) { c.check(names.find('2') < names.rfind('3') && names.find('2') != std::string::npos && names.rfind('3') != std::string::npos, "chain-error", "chain " + names + " failed"); c.counter("chain_without_id"); c.sig(what); return; }
    for (auto& x : t->got) { auto p = pixelsOf(*x); n += p.size(); seen.insert(p.begin(), p.end()); if (minarea > 0 && !ch.empty() && names.back() == '0') c.check(p.size() >= minarea, "chain-minimum", "chain " + names + ": a small source passed"); }
    c.check(n == seen.size() && std::includes(all.begin(), all.end(), seen.begin(), seen.end()), "chain-pixels", "chain " + names + ": pixels invented or shared"); if (!drops) c.checkf(seen == all, "chain-lost", [&] { return "chain " + names + vh::fmt(": %zu of %zu pixels left", seen.size(), all.size()); });
    part.receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); c.check(t->events == 1, "event", "a flush event got lost or doubled in partitioning"); c.counter("chains");
  }
  c.sig(what + vh::fmt(" %dx%d %zu %g", s.w, s.h, whole.size(), s.thr)); if (c.kase < 5) c.sample(what + vh::fmt(" on %dx%d, %zu regions", s.w, s.h, whole.size()));
}
// splitting by local maxima, on images without equal values
SECTION(attractors, 2500, 150000) {
  int w = c.rng.i(1, 14), h = c.rng.i(1, 14); Grid g(w, h); std::vector<int> perm(g.v.size()); for (size_t k = 0; k < perm.size(); ++k) perm[k] = k;
  int kind = c.rng.i(0, 2);
  if (kind == 0) { c.rng.shuffle(perm); for (size_t k = 0; k < perm.size(); ++k) g.v[k] = 1 + perm[k]; }
  else { // one or a few hills, rank-transformed so that no two pixels are equal
    std::vector<double> q(g.v.size()); std::vector<double> cx, cy; int n = kind == 1 ? 1 : c.rng.i(2, 3); double ex = c.rng.d(0.5, 2); for (int k = 0; k < n; ++k) { cx.push_back(c.rng.d(-1, w)); cy.push_back(c.rng.d(-1, h)); }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double m = 1e9; for (int k = 0; k < n; ++k) m = std::min(m, std::hypot((x - cx[k]) * ex, y - cy[k])); q[x + y * w] = -m + 1e-7 * c.rng.d(); }
    std::sort(perm.begin(), perm.end(), [&](int a, int b) { return q[a] < q[b]; }); for (size_t k = 0; k < perm.size(); ++k) g.v[perm[k]] = 1 + k;
  }
  auto frame = std::make_shared<DetectionImageFrame>(g.image(), Grid(w, h, 1).image(), 1e6f, nullptr, 0.f, 0.f, 0); frame->setBackgroundLevel(0); frame->setDetectionThreshold(0.5f);
  Set s; if (c.rng.p(0.5)) { int x0 = c.rng.i(0, w - 1), x1 = c.rng.i(x0, w - 1), y0 = c.rng.i(0, h - 1), y1 = c.rng.i(y0, h - 1); for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) s.insert({y, x}); }
  else { auto comp = components(mask(c.rng, w, h), w, h); if (comp.empty()) s.insert({0, 0}); else s = comp[c.rng.i(0, comp.size() - 1)]; }
  int x0 = w, x1 = 0, y0 = h, y1 = 0; for (auto& p : s) { x0 = std::min(x0, p.second); x1 = std::max(x1, p.second); y0 = std::min(y0, p.first); y1 = std::max(y1, p.first); }
  auto up = [&](Px p) { for (;;) { Px b = p; for (auto& d : {Px{0, 1}, Px{1, 0}, Px{0, -1}, Px{-1, 0}}) { Px q{p.first + d.first, p.second + d.second}; if (q.first < y0 || q.first > y1 || q.second < x0 || q.second > x1) continue; if (g.at(q.second, q.first) > g.at(b.second, b.first)) b = q; } if (b == p) return p; p = b; } };
  std::map<Px, Set> parts; for (auto& p : s) parts[up(p)].insert(p);
  auto src = factory()->createSource(); src->setProperty<DetectionFrame>(frame); src->setProperty<PixelCoordinateList>(coords(s, c.rng)); src->setProperty<SourceId>(); auto* raw = src.get();
  List out = AttractorsPartitionStep(factory()).partition(std::move(src)); std::string what = vh::fmt("attractors on %dx%d, source of %zu pixels, %zu maxima", w, h, s.size(), parts.size());
  if (!conserved(c, s, out, what)) return;
  std::map<Px, int> where; for (size_t k = 0; k < out.size(); ++k) for (auto& p : pixelsOf(*out[k])) where[p] = k;
  for (auto& q : parts) for (auto& p : q.second) if (!c.checkf(where[p] == where[*q.second.begin()], "attracted-apart", [&] { return what + vh::fmt(": pixels climbing to (%d,%d) are in different sources", q.first.second, q.first.first); })) return;
  if (parts.size() == 1) c.check(out.size() == 1 && out[0].get() == raw, "one-maximum-split", what + ": a source with one maximum was split or replaced");
  if (parts.size() == 2) { auto a = parts.begin()->first, b = parts.rbegin()->first; bool adj = std::abs(a.first - b.first) <= 1 && std::abs(a.second - b.second) <= 1; c.checkf(out.size() == (adj ? 1u : 2u), "two-maxima", [&] { return what + vh::fmt(": maxima (%d,%d) and (%d,%d) gave %zu sources", a.second, a.first, b.second, b.first, out.size()); }); }
  if (parts.size() > 2) { // the merging joins maxima lying next to each other (or to the box of joined ones); isolated ones stay alone
    auto far = [&](const Px& a) { for (auto& q : parts) if (q.first != a && std::abs(q.first.first - a.first) <= 1 && std::abs(q.first.second - a.second) <= 1) return false; return true; }; bool none = true; for (auto& q : parts) none &= far(q.first);
    if (none) c.checkf(out.size() == parts.size(), "maxima", [&] { return what + vh::fmt(": %zu sources", out.size()); }); }
  c.counter("maxima", parts.size()); if (parts.size() == 1) c.counter("one_maximum"); c.sig(what + vh::fmt("%d %d %zu", x0, y0, std::hash<std::string>()(show(s))));
}
// two hills of similar weight apart from each other are split, one hill is not, whatever the levels
SECTION(hills, 300, 15000) {
  int w = c.rng.i(30, 60), h = c.rng.i(20, 40); int n = c.rng.i(1, 2); double sg = c.rng.d(1.5, 2.5), amp = std::exp(c.rng.d(3, 9)), x[2], y[2];
  x[0] = c.rng.d(9, w / 2.0 - 6); x[1] = c.rng.d(w / 2.0 + 6, w - 9); for (auto& q : y) q = c.rng.d(9, h - 9); double r1 = c.rng.d(0.5, 1);
  Grid g(w, h); for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) for (int k = 0; k < n; ++k) g.at(i, j) += amp * (k ? r1 : 1) * std::exp(-(std::pow(i - x[k], 2) + std::pow(j - y[k], 2)) / (2 * sg * sg));
  // a faint bridge makes one region of them
  double thr = amp * 0.01; for (int k = 0; k <= 200; ++k) { int i = std::lround(x[0] + (x[n - 1] - x[0]) * k / 200), j = std::lround(y[0] + (y[n - 1] - y[0]) * k / 200); for (int a = -1; a <= 1; ++a) g.at(i, j + a) = std::max<float>(g.at(i, j + a), 1.2 * thr); }
  auto frame = std::make_shared<DetectionImageFrame>(g.image(), Grid(w, h, 1).image(), 1e6f, nullptr, 0.f, 0.f, 0); frame->setBackgroundLevel(0); frame->setDetectionThreshold(thr);
  auto f = factory(); auto comp = [&] { std::vector<char> m(g.v.size()); for (size_t k = 0; k < m.size(); ++k) m[k] = g.v[k] > thr; return components(m, w, h); }();
  if (!c.check(comp.size() == 1, "setup", vh::fmt("%zu regions", comp.size()))) return;
  auto src = f->createSource(); src->setProperty<DetectionFrame>(frame); src->setProperty<PixelCoordinateList>(coords(comp[0], c.rng)); src->setProperty<SourceId>(); auto* raw = src.get();
  unsigned levels = c.rng.i(16, 64), area = c.rng.i(1, 4); List out = MultiThresholdPartitionStep(f, 0.005 * c.rng.i(1, 10), levels, area, c.kase).partition(std::move(src));
  std::string what = vh::fmt("%d hill(s) of width %.2f at (%.1f,%.1f) (%.1f,%.1f), amplitude ratio %.2f, %u levels", n, sg, x[0], y[0], x[1], y[1], r1, levels);
  if (!conserved(c, comp[0], out, what)) return;
  if (c.checkf(static_cast<int>(out.size()) == n, "hills", [&] { return what + vh::fmt(": %zu sources", out.size()); }) && n == 1) c.check(out[0].get() == raw, "source-changed", what);
  if (n == 2 && out.size() == 2) for (int k = 0; k < 2; ++k) { Px pk{static_cast<int>(std::lround(y[k])), static_cast<int>(std::lround(x[k]))}; int in = 0; Set mine; for (auto& o : out) { auto p = pixelsOf(*o); if (p.count(pk)) { ++in; mine = p; } } c.check(in == 1, "peak-lost", what);
    // the core of each hill goes to it alone (fainter pixels are drawn by chance)
    for (auto& p : comp[0]) { double d = std::hypot(p.second - x[k], p.first - y[k]); if (d < 1.2 * sg) c.checkf(mine.count(p) != 0, "core-apart", [&] { return what + vh::fmt(": pixel (%d,%d) of the core of hill %d went to the other", p.second, p.first, k); }); } }
  c.sig(what); c.counter(n == 2 ? "two_hills" : "one_hill");
}
static Src plain(const Set& s, vh::Rng& r, const std::vector<float>& val, std::vector<PixelCoordinate> order, const MoffatModelFitting& m, std::shared_ptr<DetectionImageFrame> fr, unsigned id) {
  auto x = std::make_unique<SimpleSource>(); x->setProperty<PixelCoordinateList>(order); x->setProperty<DetectionFramePixelValues>(std::vector<float>(val.size(), -1e9f), val, std::vector<float>(val.size(), 1)); x->setProperty<MoffatModelEvaluator>(m); x->setProperty<DetectionFrame>(fr); x->setProperty<SourceId>(id); return x;
}
#include "SEFramework/Source/SimpleSourceFactory.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
SECTION(cleaning, 1500, 80000) {
  int w = c.rng.i(6, 40), h = c.rng.i(6, 40), n = c.rng.i(1, 6); unsigned area = c.rng.i(1, 8);
  auto comp = components(mask(c.rng, w, h), w, h); while (static_cast<int>(comp.size()) < n) { Set s; int x = c.rng.i(0, 9), y = c.rng.i(0, 9), d = 1000 * (comp.size() + 1); for (int k = c.rng.i(1, 20); k > 0; --k) s.insert({y + c.rng.i(0, 4), x + d + c.rng.i(0, 4)}); comp.push_back(s); } c.rng.shuffle(comp); comp.resize(n);
  auto fr = std::make_shared<DetectionImageFrame>(Grid(w, h).image(), Grid(w, h, 1).image(), 1e6f, nullptr, 0.f, 0.f, 0); auto fr2 = std::make_shared<DetectionImageFrame>(Grid(w, h).image(), Grid(w, h, 1).image(), 1e6f, nullptr, 0.f, 0.f, 0);
  std::vector<MoffatModelFitting> mods; std::vector<std::vector<PixelCoordinate>> ord; std::vector<std::vector<float>> vals; SimpleSourceGroup group; std::vector<unsigned> sid; std::map<unsigned, int> byId; Set all;
  for (int k = 0; k < n; ++k) {
    auto o = coords(comp[k], c.rng); double amp = std::exp(c.rng.d(-2, 5)); auto& p = *comp[k].begin();
    mods.emplace_back(p.second + c.rng.i(-3, 3), p.first + c.rng.i(-3, 3), amp, c.rng.d(1, 3), 2.0, 0.01, c.rng.p(0.2) ? 8 : 100, 1, c.rng.d(0.5, 1), c.rng.d(0, 3), 5);
    std::vector<float> v; for (size_t q = 0; q < o.size(); ++q) v.push_back(std::exp(c.rng.d(-3, 5))); all.insert(comp[k].begin(), comp[k].end());
    ord.push_back(o); vals.push_back(v); unsigned id = 2000000000u + k; byId[id] = k; auto s = plain(comp[k], c.rng, v, o, mods[k], k % 2 ? fr : fr2, id); byId[s->getProperty<SourceId>().getSourceId()] = k; sid.push_back(s->getProperty<SourceId>().getSourceId()); group.addSource(std::move(s));
  }
  std::vector<MoffatModelEvaluator> ev(mods.begin(), mods.end()); std::vector<bool> clean(n); bool doubt = false; std::vector<int> keep;
  for (int k = 0; k < n; ++k) { unsigned valid = 0; for (size_t q = 0; q < ord[k].size(); ++q) { double f = 0; for (int j = 0; j < n; ++j) if (j != k) f += ev[j].getValue(ord[k][q].m_x, ord[k][q].m_y); if (std::fabs(f - vals[k][q]) < 1e-9 * (f + 1)) doubt = true; if (vals[k][q] > f) ++valid; } clean[k] = valid < area && n > 1; if (!clean[k]) keep.push_back(k); }
  if (doubt) { c.counter("close_calls"); return; }
  // which of the remaining sources takes the pixels of a cleaned one
  std::vector<Set> want(n); for (int k : keep) want[k] = comp[k]; bool tie = false;
  if (!keep.empty()) for (int k = 0; k < n; ++k) if (clean[k]) { int best = -1; double bv = -1, second = -1; for (int j : keep) { double t = 0; for (auto& p : ord[k]) t += ev[j].getValue(p.m_x, p.m_y); if (t > bv) { second = bv; bv = t; best = j; } else second = std::max(second, t); } if (keep.size() > 1 && bv - second <= 1e-9 * bv) tie = true; want[best].insert(comp[k].begin(), comp[k].end()); }
  bool viaStage = c.rng.p(0.3); auto step = std::make_shared<Cleaning>(std::make_shared<SimpleSourceFactory>(), area);
  step->deblend(group);
  std::string what = vh::fmt("cleaning %d sources, area %u, %zu remain", n, area, keep.size());
  if (!keep.empty()) {
    Set seen; size_t tot = 0; std::set<unsigned> ids;
    for (auto& s : group) {
      auto p = pixelsOf(s); tot += s.getProperty<PixelCoordinateList>().getCoordinateList().size(); seen.insert(p.begin(), p.end()); unsigned id = s.getProperty<SourceId>().getDetectionId(); int k = byId.count(id) ? byId[id] : -1;
      if (!c.check(k >= 0 && ids.insert(k).second, "identity", what + ": a source of unknown or double identity")) continue;
      c.check(!clean[k], "faint-kept", what + ": a dominated source stayed"); c.check(sameFrame(s, k % 2 ? fr : fr2), "frame", what + ": the merged source changed frames");
      if (want[k] == comp[k]) c.check(s.getProperty<SourceId>().getSourceId() == sid[k], "source-changed", what + ": a source nothing was merged into was replaced");
      if (!tie) c.checkf(p == want[k], "merged-into", [&] { return what + vh::fmt(": source %d has %zu pixels, expected %zu", k, p.size(), want[k].size()); });
    }
    c.checkf(ids.size() == keep.size(), "remaining", [&] { return what + vh::fmt(": %zu sources left", ids.size()); });
    c.checkf(seen == all && tot == all.size(), "pixel-lost", [&] { return what + vh::fmt(": %zu different of %zu pixels, %zu before", seen.size(), tot, all.size()); });
  }
  c.counter("cleaned", n - keep.size()); c.counter("merges_checked", tie ? 0 : 1); c.sig(what + vh::fmt(" %zu %g", all.size(), mods[0].getMoffatI0()));
}
struct DropTagged : DeblendStep { int mod; explicit DropTagged(int m) : mod(m) {} void deblend(SourceGroupInterface& g) const override { for (auto it = g.begin(); it != g.end();) { if (it->getProperty<SourceId>().getDetectionId() % mod == 0) it = g.removeSource(it); else ++it; } } };
struct TakeG : PipelineReceiver<SourceGroupInterface> { std::vector<std::set<int>> got; std::vector<int> trace; void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { std::set<int> s; for (auto& x : *g) s.insert(x.getProperty<SourceId>().getDetectionId()); got.push_back(s); trace.push_back(0); } void receiveProcessSignal(const ProcessSourcesEvent&) override { trace.push_back(1); } };
SECTION(stage, 400, 20000) {
  std::vector<int> mods; for (int k = c.rng.i(0, 3); k > 0; --k) mods.push_back(c.rng.i(1, 5)); std::vector<std::shared_ptr<DeblendStep>> st; for (int m : mods) st.push_back(std::make_shared<DropTagged>(m));
  Deblending d(st); auto t = std::make_shared<TakeG>(); d.setNextStage(t); std::vector<std::set<int>> want; std::vector<int> trace;
  for (int k = c.rng.i(1, 12); k > 0; --k) { if (c.rng.p(0.2)) { d.receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); trace.push_back(1); continue; }
    auto g = std::make_unique<SimpleSourceGroup>(); std::set<int> in; for (int q = c.rng.i(0, 5); q > 0; --q) { int id = c.rng.i(1, 60); if (!in.insert(id).second) continue; auto s = std::make_unique<SimpleSource>(); s->setProperty<SourceId>(id); g->addSource(std::move(s)); }
    for (int m : mods) for (auto it = in.begin(); it != in.end();) it = *it % m == 0 ? in.erase(it) : std::next(it);
    d.receiveSource(std::move(g)); if (!in.empty()) { want.push_back(in); trace.push_back(0); } }
  c.check(t->got == want, "deblending-stage", "deblending steps applied wrongly, out of order, or an empty group passed"); c.check(t->trace == trace, "event-order", "flush events overtook groups"); c.counter("groups", want.size()); c.sig(vh::fmt("%zu %zu", mods.size(), trace.size()) + std::to_string(c.kase));
}
struct MatchTask : SourceTask { void computeProperties(SourceInterface&) const override {} };
SECTION(matched, 200, 5000) {
  bool required = c.rng.p(0.5); AssocModePartitionStep st(required);
  for (int k = 0; k < 20; ++k) { bool m = c.rng.p(0.5); auto s = std::make_unique<SimpleSource>(); s->setProperty<AssocMode>(m, std::vector<double>{1, 2}); auto* raw = s.get(); auto out = st.partition(std::move(s)); c.check(out.size() == (m == required ? 1u : 0u) && (out.empty() || out[0].get() == raw), "matched", vh::fmt("step for %s sources, source %s: %zu sources", required ? "matched" : "unmatched", m ? "matched" : "unmatched", out.size())); }
  c.sig(std::to_string(c.kase)); c.counter("assoc_decisions", 20);
}
VH_MAIN
