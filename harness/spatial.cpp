// C18: spatial indices against brute force, Hilbert traversal as a bijective unit-step walk.
#include "vh.h"
#include "SEUtils/QuadTree.h"
#include "SEUtils/KdTree.h"
#include "SEUtils/HilbertCurve.h"

using namespace SourceXtractor;

struct P {
  double x, y;
  int id;
  bool operator==(const P& o) const { return id == o.id; }
};
namespace SourceXtractor {
template <> struct QuadTreeTraits<P> { static double getCoord(const P& p, size_t i) { return i == 0 ? p.x : p.y; } };
template <> struct KdTreeTraits<P> { static double getCoord(const P& p, size_t i) { return i == 0 ? p.x : p.y; } };
}
struct P3 { double c[3]; int id; };
namespace SourceXtractor {
template <> struct KdTreeTraits<P3> { static double getCoord(const P3& p, size_t i) { return p.c[i]; } };
}

// points on which the decision "within range" is numerically ambiguous are excluded from both sides
template <typename T, typename F>
static void compare(vh::Ctx& c, const char* key, const std::vector<T>& got, const std::map<int, T>& live, F dist, double range, const std::string& what) {
  std::map<int, int> n;
  for (auto& g : got) ++n[g.id];
  for (auto& l : live) {
    double d = dist(l.second);
    bool ambiguous = std::fabs(d - range) <= 1e-9 * (1 + std::fabs(range) + d);
    int k = n.count(l.first) ? n[l.first] : 0;
    c.checkf(ambiguous ? k <= 1 : k == (d < range ? 1 : 0), key, [&] {
      return vh::fmt("%s: point %d at distance %.17g of a query with range %.17g was returned %d times (%zu live points)", what.c_str(), l.first, d, range, k, live.size()); });
    n.erase(l.first);
  }
  c.checkf(n.empty(), key, [&] { return what + ": returned a point that is not in the index"; });
}

static void gen(vh::Rng& r, int style, double& x, double& y, int step) {
  switch (style) {
    case 0: x = r.d(0, 100); y = r.d(0, 100); break;
    case 1: { int k = r.i(0, 3); x = 1000 * k + r.gauss(); y = -500 * k + r.gauss() * 3; break; }
    case 2: x = 7; y = r.d(-50, 50); break;                                   // a column
    case 3: x = r.i(0, 12); y = r.i(0, 12); break;                            // pixel grid, duplicates
    case 4: { double t = step * 0.3; x = t * std::cos(t); y = t * std::sin(t); break; }  // growing spiral: repeated expansion
    case 5: x = r.p(0.5) ? r.d(0, 1) : r.d(0, 1e6); y = r.p(0.5) ? r.d(0, 1) : r.d(-1e6, 0); break;
    case 6: x = -step; y = r.d(0, 5); break;                                   // marching: scanline order detection
    default: x = r.p(0.7) ? 3.25 : r.d(0, 10); y = r.p(0.7) ? 4.5 : r.d(0, 10); break;  // piles of coincident points
  }
}

SECTION(quadtree, 700, 20000) {
  int style = c.rng.i(0, 7);
  size_t cap = c.rng.pick(std::vector<int>{1, 2, 3, 4, 8, 16, 100});
  QuadTree<P> tree(cap);
  std::map<int, P> live;
  int ops = c.rng.i(1, 3) == 1 ? c.rng.i(1, 12) : c.rng.i(20, 400), queries = 0, removes = 0;
  size_t hits = 0;
  for (int k = 0; k < ops; ++k) {
    double u = c.rng.d();
    if (u < 0.6 || live.empty()) {
      P p; p.id = k; gen(c.rng, style, p.x, p.y, k);
      tree.add(p); live[k] = p;
    } else if (u < 0.75) {
      auto it = live.begin(); std::advance(it, c.rng.u64() % live.size());
      tree.remove(it->second); live.erase(it); ++removes;
    } else {
      double qx, qy; gen(c.rng, style, qx, qy, c.rng.i(0, k));
      if (c.rng.p(0.5)) { qx += c.rng.gauss() * 10; qy += c.rng.gauss() * 10; }
      double range = c.rng.p(0.2) ? c.rng.d(0, 1) : c.rng.p(0.5) ? c.rng.d(0, 30) : c.rng.d(0, 2000);
      auto got = tree.getPointsWithinRange({qx, qy}, range);
      hits += got.size(); ++queries;
      compare(c, "quadtree", got, live, [&](const P& p) { return std::hypot(p.x - qx, p.y - qy); }, range, vh::fmt("quadtree style %d capacity %zu after %d ops", style, cap, k));
    }
  }
  if (queries > 0 && hits > 0) c.sig(vh::fmt("%d/%zu/%d/%d/%zu", style, cap, ops, removes, hits));
  if (c.kase < 2) c.sample(vh::fmt("style %d capacity %zu: %d operations, %d removals, %d queries returning %zu points", style, cap, ops, removes, queries, hits));
}

template <typename Tree, typename T, size_t N>
static void kd(vh::Ctx& c, const char* what, int style, const std::vector<T>& pts, const std::map<int, T>& live, std::function<std::array<double, N>(int)> query) {
  Tree tree(pts);
  size_t hits = 0; int nq = c.rng.i(1, 25);
  for (int q = 0; q < nq; ++q) {
    auto qc = query(q);
    double range = c.rng.p(0.2) ? c.rng.d(0, 1) : c.rng.p(0.6) ? c.rng.d(0, 30) : c.rng.d(0, 2000);
    typename Tree::Coord co; for (size_t i = 0; i < N; ++i) co.coord[i] = qc[i];
    auto got = tree.findPointsWithinRadius(co, range);
    hits += got.size();
    compare(c, "kdtree", got, live, [&](const T& p) { double s = 0; for (size_t i = 0; i < N; ++i) { double d = KdTreeTraits<T>::getCoord(p, i) - qc[i]; s += d * d; } return std::sqrt(s); }, range,
            vh::fmt("%s style %d with %zu points", what, style, pts.size()));
  }
  if (hits) c.sig(vh::fmt("%s/%d/%zu/%zu", what, style, pts.size(), hits));
}

SECTION(kdtree, 500, 10000) {
  int style = c.rng.i(0, 7), n = c.rng.p(0.2) ? c.rng.i(1, 9) : c.rng.i(10, 500);
  std::vector<P> pts; std::map<int, P> live;
  for (int k = 0; k < n; ++k) { P p; p.id = k; gen(c.rng, style, p.x, p.y, k); pts.push_back(p); live[k] = p; }
  c.rng.shuffle(pts);
  std::function<std::array<double, 2>(int)> q = [&](int) { double x, y; gen(c.rng, style, x, y, c.rng.i(0, n)); if (c.rng.p(0.5)) { x += c.rng.gauss() * 10; y += c.rng.gauss() * 10; } return std::array<double, 2>{x, y}; };
  switch (c.rng.i(0, 3)) {
    case 0: kd<KdTree<P>, P, 2>(c, "kd2/100", style, pts, live, q); break;
    case 1: kd<KdTree<P, 2, 1>, P, 2>(c, "kd2/1", style, pts, live, q); break;
    case 2: kd<KdTree<P, 2, 5>, P, 2>(c, "kd2/5", style, pts, live, q); break;
    default: {
      std::vector<P3> p3; std::map<int, P3> l3;
      for (auto& p : pts) { P3 t{{p.x, p.y, c.rng.d(0, 100)}, p.id}; p3.push_back(t); l3[t.id] = t; }
      std::function<std::array<double, 3>(int)> q3 = [&](int i) { auto a = q(i); return std::array<double, 3>{a[0], a[1], c.rng.d(0, 100)}; };
      kd<KdTree<P3, 3, 7>, P3, 3>(c, "kd3/7", style, p3, l3, q3);
    }
  }
}

SECTION(hilbert, 60, 300) {
  unsigned size = c.kase < 40 ? c.kase + 1 : c.rng.i(1, 300);
  HilbertCurve hc(size);
  auto curve = hc.getCurve();
  unsigned side = static_cast<unsigned>(std::lround(std::sqrt(static_cast<double>(curve.size()))));
  c.check(side >= size && side * side == curve.size() && side < 2 * size + 1, "hilbert", vh::fmt("curve for size %u has %zu cells", size, curve.size()));
  std::vector<char> seen(curve.size(), 0);
  bool ok = true, steps = true;
  for (size_t i = 0; i < curve.size(); ++i) {
    auto p = curve[i];
    if (p.m_x < 0 || p.m_y < 0 || p.m_x >= (int)side || p.m_y >= (int)side || seen[p.m_y * side + p.m_x]) { ok = false; break; }
    seen[p.m_y * side + p.m_x] = 1;
    if (i) steps = steps && std::abs(p.m_x - curve[i - 1].m_x) + std::abs(p.m_y - curve[i - 1].m_y) == 1;
    auto q = hc.get2DCoordinate(i);
    ok = ok && q.m_x == p.m_x && q.m_y == p.m_y;
  }
  c.check(ok, "hilbert", vh::fmt("curve for size %u does not visit every cell exactly once", size));
  c.check(steps, "hilbert", vh::fmt("curve for size %u jumps", size));
  c.sig(vh::fmt("%u", size));
}
VH_MAIN
