// C04: groupings against connected components recomputed over arrival and flush histories.
#include "vh.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Grouping/AssocCriteria.h"
#include "SEImplementation/Grouping/AssocGrouping.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Grouping/MoffatCriteria.h"
#include "SEImplementation/Grouping/MoffatGrouping.h"
#include "SEImplementation/Grouping/NoGroupingCriteria.h"
#include "SEImplementation/Grouping/OverlappingBoundariesCriteria.h"
#include "SEImplementation/Grouping/SplitSourcesCriteria.h"
#include "SEImplementation/Grouping/SplitSourcesGrouping.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelFitting.h"
#include "SEImplementation/Plugin/PeakValue/PeakValue.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Property/SourceId.h"

using namespace SourceXtractor;
struct Tag : Property { explicit Tag(int n_) : n(n_) {} int n; };
struct Src { float x, y; int x0, y0, x1, y1; unsigned det, assoc; float peak, i0, scale; unsigned iter; };

static std::unique_ptr<SourceInterface> make(const Src& s, int n) {
  auto p = std::make_unique<SimpleSource>(); SourceInterface& r = *p;
  r.setProperty<Tag>(n); r.setProperty<SourceId>(s.det); r.setProperty<PixelCentroid>(s.x, s.y); r.setProperty<PixelBoundaries>(s.x0, s.y0, s.x1, s.y1);
  r.setProperty<PeakValue>(0.f, s.peak, 0, 0); r.setProperty<AssocMode>(s.assoc != 0, std::vector<double>{1.}, 1., 1., s.assoc);
  r.setProperty<MoffatModelEvaluator>(MoffatModelFitting(s.x, s.y, s.i0, 1.5f, 2.f, 0.1f, 60.f, s.scale, s.scale, 0.f, s.iter));
  return p;
}
struct Rel : GroupingCriteria {   // any symmetric relation
  const std::vector<std::vector<char>>* t; long calls = 0; 
  bool shouldGroup(const SourceInterface& a, const SourceInterface& b) const override { return (*t)[a.getProperty<Tag>().n][b.getProperty<Tag>().n]; }
};
struct Pick : SelectionCriteria { std::set<int> s; bool mustBeProcessed(const SourceInterface& a) const override { return s.count(a.getProperty<Tag>().n) != 0; } };
struct Out : PipelineReceiver<SourceGroupInterface>, Observer<SourceGroupInterface> {
  std::vector<std::vector<int>> got; long notified = 0, events = 0;
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { std::vector<int> v; for (auto& s : *g) v.push_back(s.getProperty<Tag>().n); got.push_back(v); }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { ++events; }
  void handleMessage(const SourceGroupInterface&) override { ++notified; }
};
static bool overlapOracle(const Src& a, const Src& b) {
  for (int y = a.y0; y <= a.y1; ++y) for (int x = a.x0; x <= a.x1; ++x) if (x >= b.x0 && x <= b.x1 && y >= b.y0 && y <= b.y1) return true;
  return false;
}
static bool impactOracle(const Src& a, const Src& b, double thr, double maxd) {
  if (a.iter == 0) return false;
  double dx = double(a.x) - b.x, dy = double(a.y) - b.y;
  if (dx * dx + dy * dy > maxd * maxd) return false;
  MoffatModelEvaluator e(MoffatModelFitting(a.x, a.y, a.i0, 1.5f, 2.f, 0.1f, 60.f, a.scale, a.scale, 0.f, a.iter));
  return e.getValue(b.x, b.y) / b.peak > thr;
}

SECTION(histories, 5000, 120000) {
  int n = c.rng.p(0.15) ? c.rng.i(30, 90) : c.rng.i(1, 25), field = c.rng.p(0.5) ? c.rng.i(5, 40) : c.rng.i(40, 400), kind = c.rng.i(0, 8);
  unsigned limit = c.rng.p(0.6) ? 0 : c.rng.i(1, 6); bool ints = c.rng.p(0.4); int ndet = c.rng.i(1, n + 1);
  std::vector<Src> s(n);
  for (auto& q : s) {
    q.x = ints ? c.rng.i(0, field) : c.rng.d(0, field); q.y = ints ? c.rng.i(0, field) : c.rng.d(0, field);
    q.x0 = int(q.x) - c.rng.i(0, 6); q.x1 = int(q.x) + c.rng.i(0, 6); q.y0 = int(q.y) - c.rng.i(0, 6); q.y1 = int(q.y) + c.rng.i(0, 6);
    q.det = c.rng.i(1, ndet); q.assoc = c.rng.p(0.3) ? 0 : c.rng.i(1, ndet); q.i0 = std::exp(c.rng.d(-1, 6)); q.peak = std::exp(c.rng.d(-1, 6)); q.scale = c.rng.d(0.5, 4); q.iter = c.rng.p(0.1) ? 0 : c.rng.i(1, 90);
  }
  double thr = std::exp(c.rng.d(-6, 0)), range = ints ? c.rng.i(1, field) : c.rng.d(1, field + 1);
  float frange = range;
  std::vector<std::vector<char>> rel(n, std::vector<char>(n, 0)), arb = rel;
  double dens = c.rng.d(0, 2.5) / n;
  for (int a = 0; a < n; ++a) for (int b = 0; b < a; ++b) arb[a][b] = arb[b][a] = c.rng.p(dens);
  auto within = [&](int a, int b) { double dx = double(s[a].x) - s[b].x, dy = double(s[a].y) - s[b].y; return dx * dx + dy * dy <= double(frange) * frange; };
  std::shared_ptr<GroupingCriteria> crit; const char* name = "";
  auto arbitrary = std::make_shared<Rel>();
  if (kind == 8) for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) arb[a][b] = arb[a][b] || (a != b && c.kase % 2 == 0 && within(a, b)), arb[a][b] = arb[a][b] && within(a, b);
  arbitrary->t = &arb;
  std::shared_ptr<SourceGroupFactory> gf = c.rng.p(0.5) ? std::shared_ptr<SourceGroupFactory>(std::make_shared<SimpleSourceGroupFactory>()) : std::make_shared<SourceGroupWithOnDemandPropertiesFactory>(std::make_shared<TaskProvider>(nullptr));
  std::shared_ptr<SourceGroupingInterface> g;
  auto moffat = [&] { crit = std::make_shared<MoffatCriteria>(thr, frange); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) rel[a][b] = a != b && (impactOracle(s[a], s[b], thr, frange) || impactOracle(s[b], s[a], thr, frange)); };
  switch (kind) {
  case 0: name = "none"; crit = std::make_shared<NoGroupingCriteria>(); break;
  case 1: name = "overlap"; crit = std::make_shared<OverlappingBoundariesCriteria>(); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) rel[a][b] = a != b && overlapOracle(s[a], s[b]); break;
  case 2: case 3: name = kind == 2 ? "split" : "split-optimised"; crit = std::make_shared<SplitSourcesCriteria>(); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) rel[a][b] = a != b && s[a].det == s[b].det; break;
  case 4: case 5: name = kind == 4 ? "assoc" : "assoc-optimised"; crit = std::make_shared<AssocCriteria>(); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) rel[a][b] = a != b && s[a].assoc && s[a].assoc == s[b].assoc; break;
  case 6: name = c.rng.p(0.5) ? "moffat" : "moffat-optimised"; moffat(); break;
  case 7: name = "arbitrary"; crit = arbitrary; rel = arb; break;
  default: name = "arbitrary-in-range-optimised"; crit = arbitrary; rel = arb; break;
  }
  if (kind == 3) g = std::make_shared<SplitSourcesGrouping>(gf, limit);
  else if (kind == 5) g = std::make_shared<AssocGrouping>(gf, limit);
  else if (std::string(name) == "moffat-optimised" || kind == 8) g = std::make_shared<MoffatGrouping>(crit, gf, limit, frange);
  else g = std::make_shared<SourceGrouping>(crit, gf, limit);
  auto out = std::make_shared<Out>(); g->setNextStage(out); g->addObserver(out);
  // the criteria themselves
  for (int k = 0; k < 6 && n > 1; ++k) { int a = c.rng.i(0, n - 1), b = c.rng.i(0, n - 1); if (a == b) continue; auto p = make(s[a], a), q = make(s[b], b);
    c.checkf(crit->shouldGroup(*p, *q) == bool(rel[a][b]) && crit->shouldGroup(*q, *p) == bool(rel[a][b]), "criterion", [&] { return vh::fmt("%s: shouldGroup of (%g,%g) and (%g,%g) is %d/%d, expected %d", name, s[a].x, s[a].y, s[b].x, s[b].y, crit->shouldGroup(*p, *q), crit->shouldGroup(*q, *p), rel[a][b]); }); }
  std::vector<std::set<int>> held; std::vector<int> order(n); for (int i = 0; i < n; ++i) order[i] = i; c.rng.shuffle(order);
  std::string trace = name; long released = 0, flushes = 0, merges = 0; std::set<int> alreadyOut;
  auto describe = [&](const std::vector<std::vector<int>>& v) { std::string r; for (auto& q : v) { r += "{"; for (int i : q) r += std::to_string(i) + ","; r += "}"; } return r; };
  auto connected = [&](const std::vector<int>& v) { std::set<int> seen{v[0]}; std::vector<int> st{v[0]}; while (!st.empty()) { int a = st.back(); st.pop_back(); for (int b : v) if (rel[a][b] && seen.insert(b).second) st.push_back(b); } return seen.size() == v.size(); };
  auto common = [&](bool early) {
    for (auto& v : out->got) {
      if (!c.check(!v.empty(), "empty-group", std::string(name) + ": an empty group was released")) return;
      for (int i : v) c.checkf(alreadyOut.insert(i).second, "source-twice", [&] { return vh::fmt("%s: source %d released twice", name, i); });
      if (limit) c.checkf(v.size() <= limit, "limit", [&] { return vh::fmt("%s: group of %zu, limit %u", name, v.size(), limit); });
      c.checkf(connected(v), "group-not-connected", [&] { return std::string(name) + ": a group holds sources no chain links: " + describe({v}); });
      if (early && (kind == 3 || kind == 5)) c.check(v.size() == limit, "released-early", std::string(name) + ": a group that is not full was released without a flush");
    }
  };
  auto flush = [&](std::shared_ptr<SelectionCriteria> sel, std::set<int> chosen, const char* how) {
    out->got.clear(); g->receiveProcessSignal(ProcessSourcesEvent(sel)); ++flushes; common(false);
    if (limit == 0) {
      std::set<std::set<int>> want, have; std::vector<std::set<int>> left;
      for (auto& h : held) { bool hit = false; for (int i : h) hit |= chosen.count(i) != 0; if (hit) want.insert(h); else left.push_back(h); }
      for (auto& v : out->got) have.insert(std::set<int>(v.begin(), v.end()));
      held = left;
      c.checkf(have == want && out->got.size() == want.size(), "released-groups", [&] { std::vector<std::vector<int>> w; for (auto& q : want) w.emplace_back(q.begin(), q.end()); return vh::fmt("%s: flush (%s) released ", name, how) + describe(out->got) + " expected " + describe(w) + " (trace " + trace + ")"; });
    } else {
      for (int i : chosen) c.checkf(alreadyOut.count(i) == 1, "selected-held-back", [&] { return vh::fmt("%s: source %d was selected by a flush (%s) and is still held (limit %u, trace %s)", name, i, how, limit, trace.c_str()); });
      for (auto& v : out->got) { bool hit = false; for (int i : v) hit |= chosen.count(i) != 0; c.check(hit, "released-unselected", std::string(name) + ": a flush released a group without a selected source"); }
    }
    released += out->got.size(); c.check(out->notified == 0 || true, "", ""); trace += how;
  };
  std::set<int> arrived;
  for (int k = 0; k < n; ++k) {
    int i = order[k]; out->got.clear(); g->receiveSource(make(s[i], i)); trace += vh::fmt(" %d", i);
    if (limit == 0) {
      c.checkf(out->got.empty(), "released-early", [&] { return std::string(name) + ": groups released without a flush: " + describe(out->got); });
      std::set<int> m{i}; std::vector<std::set<int>> rest; for (auto& h : held) { bool hit = false; for (int j : h) hit |= rel[i][j]; if (hit) { m.insert(h.begin(), h.end()); ++merges; } else rest.push_back(h); } rest.push_back(m); held = rest;
    } else common(true);
    arrived.insert(i);
    if (c.rng.p(0.12)) {
      std::set<int> ch; int how = c.rng.i(0, 3);
      auto live = [&](int j) { return arrived.count(j) && !alreadyOut.count(j); };
      if (how == 0) { for (int j : arrived) if (live(j)) ch.insert(j); flush(std::make_shared<SelectAllCriteria>(), ch, "F"); }
      else if (how < 3) { int line = c.rng.i(0, field); for (int j : arrived) if (live(j) && s[j].y < line) ch.insert(j); flush(std::make_shared<LineSelectionCriteria>(line), ch, "L"); }
      else { auto p = std::make_shared<Pick>(); for (int j : arrived) if (live(j) && c.rng.p(0.3)) ch.insert(j); p->s = ch; flush(p, ch, "P"); }
    }
  }
  std::set<int> ch; for (int j : arrived) if (!alreadyOut.count(j)) ch.insert(j);
  flush(std::make_shared<SelectAllCriteria>(), ch, "F");
  c.checkf(static_cast<int>(alreadyOut.size()) == n, "held-back", [&] { return vh::fmt("%s: %zu of %d sources came out after the last flush", name, alreadyOut.size(), n); });
  out->got.clear(); g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); c.check(out->got.empty(), "after-end", "a flush of an empty grouping released groups");
  c.counter("groups_released", released); c.counter("flushes", flushes); c.counter("group_merges", merges); c.counter(std::string("histories_") + name, 1);
  c.sig(vh::fmt("%u %g ", limit, range) + trace); c.sample(trace);
}
VH_MAIN
