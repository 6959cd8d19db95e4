// Shared by the detection-side harnesses: shapes, frames, a task provider with the detection tasks, reference labelling.
#pragma once
#include "vh.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Source/SourceWithOnDemandPropertiesFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImages.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImagesTask.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValues.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStamp.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.h"
#include "SEImplementation/Plugin/PeakValue/PeakValue.h"
#include "SEImplementation/Plugin/PeakValue/PeakValueTask.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundariesTask.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroidTask.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParameters.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParametersTask.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"

namespace det {
using namespace SourceXtractor;
template <typename T> struct Simple : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return std::make_shared<T>(); } };
inline void registerDetection(TaskFactoryRegistry& r) {
  r.registerTaskFactory<Simple<DetectionFrameImagesTask>, DetectionFrameImages>(); r.registerTaskFactory<Simple<DetectionFramePixelValuesTask>, DetectionFramePixelValues>();
  r.registerTaskFactory<Simple<DetectionFrameSourceStampTask>, DetectionFrameSourceStamp>(); r.registerTaskFactory<Simple<PeakValueTask>, PeakValue>();
  r.registerTaskFactory<Simple<PixelBoundariesTask>, PixelBoundaries>(); r.registerTaskFactory<Simple<PixelBoundariesTaskHalfMaximum>, PixelBoundariesHalfMaximum>();
  r.registerTaskFactory<Simple<PixelCentroidTask>, PixelCentroid>(); r.registerTaskFactory<Simple<ShapeParametersTask>, ShapeParameters>();
}
using Px = std::pair<int, int>;   // y, x
using Set = std::set<Px>;
struct Grid {
  int w, h; std::vector<float> v;
  Grid(int w_, int h_, float x = 0) : w(w_), h(h_), v(static_cast<size_t>(w_) * h_, x) {}
  float& at(int x, int y) { return v[x + static_cast<size_t>(y) * w]; }
  float at(int x, int y) const { return v[x + static_cast<size_t>(y) * w]; }
  bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
  std::shared_ptr<VectorImage<float>> image() const { return VectorImage<float>::create(w, h, v); }
};
// a random mask: noise, blobs, spirals, combs, rings, diagonals, checkerboards, borders
inline std::vector<char> mask(vh::Rng& r, int w, int h) {
  std::vector<char> m(static_cast<size_t>(w) * h, 0); auto set = [&](int x, int y, char v = 1) { if (x >= 0 && y >= 0 && x < w && y < h) m[x + static_cast<size_t>(y) * w] = v; };
  int layers = r.i(1, 3);
  for (int l = 0; l < layers; ++l) switch (r.i(0, 9)) {
    case 0: { double p = r.d(); for (auto& c : m) c |= r.p(p); break; }
    case 1: { int x = r.i(0, w - 1), y = r.i(0, h - 1), dx = 1, dy = 0, len = 1; for (int k = 0; k < 40 && len < w + h; ++k) { for (int s = 0; s < len; ++s) { set(x, y); x += dx; y += dy; } if (k % 2) len += 2; int t = dx; dx = -dy; dy = t; } break; }
    case 2: { int st = r.i(2, 4), up = r.p(0.5); for (int x = 0; x < w; x += st) for (int y = 0; y < h; ++y) set(x, y); for (int x = 0; x < w; ++x) set(x, up ? 0 : h - 1); break; }
    case 3: { int cx = r.i(0, w - 1), cy = r.i(0, h - 1), st = r.i(2, 3); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (std::max(std::abs(x - cx), std::abs(y - cy)) % st == 0) set(x, y); break; }
    case 4: { int st = r.i(2, 5), s = r.p(0.5) ? 1 : -1; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (((x + s * y) % st + st) % st == 0) set(x, y); break; }
    case 5: for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if ((x + y) % 2) set(x, y); break;
    case 6: for (int k = r.i(1, 8); k > 0; --k) { int x0 = r.i(0, w - 1), y0 = r.i(0, h - 1), a = r.i(0, 6), b = r.i(0, 6); for (int y = -b; y <= b; ++y) for (int x = -a; x <= a; ++x) set(x0 + x, y0 + y); } break;
    case 7: for (int x = 0; x < w; ++x) { set(x, 0); set(x, h - 1); } for (int y = 0; y < h; ++y) { set(0, y); set(w - 1, y); } break;
    case 8: { double p = r.d(0, 0.3); for (auto& c : m) if (r.p(p)) c = 0; else if (l == 0) c = 1; break; }
    default: for (int k = r.i(1, 6); k > 0; --k) { int x = r.i(0, w - 1), y = r.i(0, h - 1); for (int s = r.i(1, 60); s > 0; --s) { set(x, y); x += r.i(-1, 1); y += r.i(-1, 1); } } break;
  }
  return m;
}
inline std::vector<Set> components(const std::vector<char>& m, int w, int h) {
  std::vector<char> seen(m.size(), 0); std::vector<Set> res;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    size_t k = x + static_cast<size_t>(y) * w; if (!m[k] || seen[k]) continue;
    Set s; std::vector<Px> st{{y, x}}; seen[k] = 1;
    while (!st.empty()) { Px p = st.back(); st.pop_back(); s.insert(p); for (int b = -1; b <= 1; ++b) for (int a = -1; a <= 1; ++a) { int X = p.second + a, Y = p.first + b; if (X < 0 || Y < 0 || X >= w || Y >= h) continue; size_t q = X + static_cast<size_t>(Y) * w; if (m[q] && !seen[q]) { seen[q] = 1; st.push_back({Y, X}); } } }
    res.push_back(std::move(s));
  }
  return res;
}
inline Set pixels(const std::vector<PixelCoordinate>& v) { Set s; for (auto& p : v) s.insert({p.m_y, p.m_x}); return s; }
template <typename S> Set pixelsOf(const S& s) { return pixels(s.template getProperty<PixelCoordinateList>().getCoordinateList()); }
inline std::string draw(const std::vector<char>& m, int w, int h) { if (w > 40 || h > 40) return ""; std::string r; for (int y = 0; y < h; ++y) { for (int x = 0; x < w; ++x) r += m[x + static_cast<size_t>(y) * w] ? '#' : '.'; r += '/'; } return r; }
}
