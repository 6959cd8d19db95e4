// C02: segmentation against a flood fill of the pixels above threshold.
#include "detect.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEImplementation/Segmentation/BFSSegmentation.h"
#include "SEImplementation/Segmentation/Lutz.h"
#include "SEImplementation/Segmentation/LutzSegmentation.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
using namespace SourceXtractor;
using namespace det;

struct Out : PipelineReceiver<SourceInterface> {
  std::vector<std::vector<PixelCoordinate>> src; std::vector<unsigned> ids, dets; long events = 0, afterAll = 0, noFrame = 0; bool all = false; std::vector<double> lines;
  void receiveSource(std::unique_ptr<SourceInterface> s) override {
    if (all) ++afterAll;
    src.push_back(s->getProperty<PixelCoordinateList>().getCoordinateList()); ids.push_back(s->getProperty<SourceId>().getSourceId()); dets.push_back(s->getProperty<SourceId>().getDetectionId());
    try { s->getProperty<DetectionFrame>(); } catch (...) { ++noFrame; }
  }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override { ++events; all = std::dynamic_pointer_cast<SelectAllCriteria>(e.m_selection_criteria) != nullptr; }
};
struct Prog : Observer<SegmentationProgress> { std::vector<std::pair<int, int>> p; void handleMessage(const SegmentationProgress& m) override { p.emplace_back(m.position, m.total); } };

static void compareSets(vh::Ctx& c, const std::vector<std::vector<PixelCoordinate>>& got, std::vector<Set> want, const std::string& what, const std::function<std::string()>& pic) {
  std::map<Px, int> owner; bool ok = true;
  for (size_t k = 0; k < got.size(); ++k) { if (!c.check(!got[k].empty(), "empty-source", what + ": a source without pixels")) ok = false; for (auto& p : got[k]) if (!c.checkf(owner.emplace(Px{p.m_y, p.m_x}, static_cast<int>(k)).second, "pixel-twice", [&] { return what + vh::fmt(": pixel (%d,%d) belongs to two sources or twice to one ", p.m_x, p.m_y) + pic(); })) ok = false; }
  if (!ok) return;
  std::set<Set> w(want.begin(), want.end()), g; for (auto& s : got) g.insert(pixels(s));
  size_t detected = 0; for (auto& s : want) detected += s.size();
  if (!c.checkf(g == w, "regions", [&] { for (auto& s : g) if (!w.count(s)) return what + vh::fmt(": a source of %zu pixels at (%d,%d) is not one of the %zu connected regions (%zu sources) ", s.size(), s.begin()->second, s.begin()->first, w.size(), g.size()) + pic(); return what + vh::fmt(": %zu sources for %zu connected regions, %zu of %zu pixels ", g.size(), w.size(), owner.size(), detected) + pic(); })) return;
  c.counter("regions_compared", w.size()); c.counter("pixels_labelled", owner.size());
}
static auto& provider() { static auto p = [] { auto r = std::make_shared<TaskFactoryRegistry>(); registerDetection(*r); return std::make_shared<TaskProvider>(r); }(); return p; }

SECTION(frames, 300, 30000) {
  int w = c.rng.p(0.1) ? 1 : c.rng.i(2, c.rng.p(0.15) ? 150 : 30), h = c.rng.p(0.1) ? 1 : c.rng.i(2, c.rng.p(0.15) ? 150 : 30);
  auto m = mask(c.rng, w, h); auto pic = [&] { return draw(m, w, h); };
  // values far enough from the threshold to leave no doubt, except those exactly on it (not detected)
  float thr = c.rng.i(1, 8) * 0.5f, bg = c.rng.p(0.5) ? 0 : c.rng.i(-40, 40) * 0.25f; bool vmap = c.rng.p(0.5);
  Grid img(w, h), var(w, h, 1); std::vector<float> sig(img.v.size(), 1);
  for (size_t k = 0; k < img.v.size(); ++k) {
    if (vmap) { sig[k] = c.rng.i(1, 4); var.v[k] = sig[k] * sig[k]; }
    float t = thr * sig[k];
    img.v[k] = bg + (m[k] ? t + 0.25f * c.rng.i(1, 400) : c.rng.p(0.1) ? t : t - 0.25f * c.rng.i(1, 60));
  }
  auto tm = TileManager::getInstance(); int tmin = w * h > 1500 ? 20 : 1; tm->setOptions(c.rng.i(tmin, 40), c.rng.i(tmin, 40), w * h > 1500 ? 2 : c.rng.i(0, 2));
  auto frame = std::make_shared<DetectionImageFrame>(img.image(), var.image(), 1e6f, nullptr, 0.f, 0.f, 0);
  frame->setBackgroundLevel(bg); frame->setDetectionThreshold(thr);
  auto want = components(m, w, h);
  auto sf = std::make_shared<SourceWithOnDemandPropertiesFactory>(provider());
  for (int alg = 0; alg < 3; ++alg) {
    Segmentation seg(nullptr); auto out = std::make_shared<Out>(); auto prog = std::make_shared<Prog>(); std::string what; auto w2 = want; int window = alg == 1 ? c.rng.i(1, h) : 0, delta = 1000;
    if (alg < 2) { seg.setLabelling<LutzSegmentation>(sf, window); what = vh::fmt("Lutz window %d, %dx%d", window, w, h); }
    else { delta = c.rng.p(0.6) ? 1000 : c.rng.i(0, 30); seg.setLabelling<BFSSegmentation>(sf, delta); what = vh::fmt("BFS max %d, %dx%d, tiles %dx%d", delta, w, h, tm->getTileWidth(), tm->getTileHeight());
      w2.erase(std::remove_if(w2.begin(), w2.end(), [&](const Set& s) { int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1; for (auto& p : s) { x0 = std::min(x0, p.second); x1 = std::max(x1, p.second); y0 = std::min(y0, p.first); y1 = std::max(y1, p.first); } return x1 - x0 > delta || y1 - y0 > delta; }), w2.end()); }
    seg.setNextStage(out); seg.Observable<SegmentationProgress>::addObserver(prog);
    seg.processFrame(frame);
    compareSets(c, out->src, w2, what, pic);
    std::set<unsigned> ids(out->ids.begin(), out->ids.end());
    c.check(ids.size() == out->ids.size(), "source-id", what + ": two sources share an identifier"); c.check(out->ids == out->dets, "detection-id", what + ": detection id of a fresh source");
    c.check(out->noFrame == 0, "detection-frame", what + ": a source without its detection frame"); c.check(out->afterAll == 0 && out->all, "final-flush", what + ": the final flush is missing or sources follow it");
    if (alg == 0) c.check(out->events == 1, "extra-flush", "a flush without a window");
    for (size_t k = 0; k < prog->p.size(); ++k) if (!c.check(prog->p[k].second == h && (k == 0 || prog->p[k].first > prog->p[k - 1].first), "progress", what + ": progress goes backwards")) break;
    if (alg < 2) c.check(!prog->p.empty() && prog->p.back().first == h, "progress-end", what + ": progress does not reach the end");
  }
  tm->flush();
  c.sig(vh::fmt("%d %d ", w, h) + std::to_string(std::hash<std::string>()(std::string(m.begin(), m.end())))); if (w * h < 200) c.sample(pic());
}
// the bare algorithm, with an offset, on every 0/1 image of a few small sizes (by case number) and on random ones
SECTION(lutz, 6000, 600000) {
  int w = 4, h = 4; std::vector<char> m;
  if (c.kase < 65536 && c.kase % 2 == 0) { m.resize(16); int bits = (c.kase / 2 * 40503u) & 0xffff; for (int k = 0; k < 16; ++k) m[k] = bits >> k & 1; }
  else { w = c.rng.i(1, 14); h = c.rng.i(1, 14); m = mask(c.rng, w, h); }
  Grid g(w, h); for (size_t k = 0; k < m.size(); ++k) g.v[k] = m[k] ? c.rng.d(0.01, 9) : -c.rng.d(0, 9);
  int ox = c.rng.i(-50, 50), oy = c.rng.i(-50, 50);
  LutzList l; l.labelImage(*g.image(), PixelCoordinate(ox, oy));
  std::vector<std::vector<PixelCoordinate>> got; for (auto& q : l.getGroups()) { got.push_back(q.pixel_list); for (auto& p : got.back()) p = p - PixelCoordinate(ox, oy); }
  compareSets(c, got, components(m, w, h), "Lutz with offset", [&] { return draw(m, w, h); });
  c.sig(draw(m, w, h));
}
VH_MAIN
