// C12: coordinate systems read from headers against an independent evaluation of the same header.
#include "vh.h"
#include <atomic>
#include <fstream>
#include <thread>
#include <boost/filesystem.hpp>
#include "SEFramework/CoordinateSystem/WCS.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Plugin/DetectionFrameCoordinates/DetectionFrameCoordinates.h"
#include "SEImplementation/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStamp.h"
#include "SEImplementation/Plugin/Jacobian/Jacobian.h"
#include "SEImplementation/Plugin/Jacobian/JacobianTask.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinates.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangle.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroid.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTask.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangle.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinates.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroidTask.h"

using namespace SourceXtractor;
namespace fs = boost::filesystem;
static const double D = M_PI / 180;

// ---------------------------------------------------------------- an independent WCS
struct V3 { double x, y, z; };
static V3 vec(double a, double d) { return {cos(d * D) * cos(a * D), cos(d * D) * sin(a * D), sin(d * D)}; }
static double sep(V3 a, V3 b) { double x = a.x - b.x, y = a.y - b.y, z = a.z - b.z; return 2 * asin(std::min(1., sqrt(x * x + y * y + z * z) / 2)) / D; }

struct Ref {
  std::string proj = "TAN";   // "" linear
  double crpix[2], crval[2], m[2][2]; double lonpole = 180; bool swapped = false, sip = false; double A[4][4] = {}, B[4][4] = {};
  double scale = 1e-3;
  // pixel (0-based) -> intermediate
  void inter(double px, double py, double& x, double& y) const {
    double u = px + 1 - crpix[0], v = py + 1 - crpix[1];
    if (sip) { double f = 0, g = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { f += A[i][j] * pow(u, i) * pow(v, j); g += B[i][j] * pow(u, i) * pow(v, j); } u += f; v += g; }
    x = m[0][0] * u + m[0][1] * v; y = m[1][0] * u + m[1][1] * v;
    if (swapped) std::swap(x, y);  // x: longitude
  }
  // false: outside of the projection
  bool world(double px, double py, double& a, double& d) const {
    double x, y; inter(px, py, x, y);
    if (proj.empty()) { a = crval[0] + x; d = crval[1] + y; return true; }
    double R = hypot(x, y), th, ph = R == 0 ? 0 : atan2(x, -y);
    if (proj == "TAN") th = atan2(1 / D, R);
    else if (proj == "SIN") { if (R * D > 1) return false; th = acos(R * D); }
    else if (proj == "ARC") { if (R > 180) return false; th = (90 - R) * D; }
    else if (proj == "STG") th = M_PI / 2 - 2 * atan(R * D / 2);
    else { if (R * D > 2) return false; th = M_PI / 2 - 2 * asin(R * D / 2); }
    double dp = crval[1] * D, q = ph - lonpole * D;
    a = crval[0] + atan2(-cos(th) * sin(q), sin(th) * cos(dp) - cos(th) * sin(dp) * cos(q)) / D;
    // a well conditioned latitude
    double zx = sin(th) * cos(dp) - cos(th) * sin(dp) * cos(q), zy = -cos(th) * sin(q), z = sin(th) * sin(dp) + cos(th) * cos(dp) * cos(q);
    d = atan2(z, hypot(zx, zy)) / D;
    return true;
  }
  V3 sky(double px, double py) const { double a = 0, d = 0; world(px, py, a, d); return vec(a, d); }
  // native (phi, theta) in degrees -> sky
  V3 native(double ph, double th) const {
    double dp = crval[1] * D, q = ph * D - lonpole * D, t = th * D;
    double zx = sin(t) * cos(dp) - cos(t) * sin(dp) * cos(q), zy = -cos(t) * sin(q), z = sin(t) * sin(dp) + cos(t) * cos(dp) * cos(q);
    double a0 = crval[0] * D; return {zx * cos(a0) - zy * sin(a0), zx * sin(a0) + zy * cos(a0), z};
  }
  double limit() const {  // pixels from the reference pixel that stay well inside of the projection
    if (proj.empty()) return 1e5;
    double deg = proj == "TAN" ? 30 : proj == "SIN" ? 40 : 60;
    double l = deg / scale; return sip ? std::min(l, 1500.) : std::min(l, 2e4);
  }
};

struct Made { Ref r; std::vector<std::string> cards; std::string what; int naxis = 2; };
static std::string card(const std::string& k, const std::string& v) { std::string t = vh::fmt("%-8s= %s", k.c_str(), v.c_str()); t.resize(80, ' '); return t; }
static std::string card(const std::string& k, double v) { return card(k, vh::fmt("%.17G", v)); }
static std::string cards(const std::string& k, const std::string& v) { return card(k, vh::fmt("'%-8s'", v.c_str())); }

static Made make(vh::Rng& g, double a0 = -1, double d0 = 0, double scale = 0) {
  Made o; auto& r = o.r; auto& C = o.cards;
  bool near = a0 >= 0;
  r.proj = g.p(.45) ? "TAN" : g.pick(std::vector<std::string>{"SIN", "ARC", "STG", "ZEA", near ? "TAN" : ""});
  r.sip = r.proj == "TAN" && g.p(.3);
  r.scale = scale > 0 ? scale : pow(10, g.d(-5, -1.7));
  if (r.sip) r.scale = std::min(r.scale, 1e-3);
  r.crval[0] = near ? a0 : g.p(.15) ? g.pick(std::vector<double>{0, 360, 359.9999, 180, 1e-5}) : g.d(0, 360);
  r.crval[1] = near ? d0 : g.p(.15) ? g.pick(std::vector<double>{90, -90, 0, 89.999, -89.9}) : g.d(-88, 88);
  if (r.proj.empty()) { r.crval[0] = g.d(-1e3, 1e3); r.crval[1] = g.d(-1e3, 1e3); }
  double reach = std::min(3000., r.limit() / 3); if (near) reach = 300;
  r.crpix[0] = g.p(.2) ? g.i(0, 100) : g.d(-reach, reach); r.crpix[1] = g.p(.2) ? g.i(0, 100) : g.d(-reach, reach);
  r.swapped = !r.proj.empty() && g.p(.15);
  o.naxis = g.p(.12) ? 3 : 2;
  double rot = g.p(.3) ? 0 : g.d(-180, 180), sx = (g.p(.7) ? -1 : 1) * r.scale, sy = r.scale * (g.p(.5) ? 1 : g.d(.7, 1.4));
  int how = g.i(0, 3);
  if (how == 3) rot = 0;
  double c = cos(rot * D), s = sin(rot * D);
  std::string enc;
  // rows: axes of the header (1, 2)
  if (how == 0) {
    double k = g.p(.5) ? g.d(-.2, .2) : 0; double cd[2][2] = {{sx * c, -sy * s + k * r.scale}, {sx * s, sy * c}};
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { r.m[i][j] = cd[i][j]; C.push_back(card(vh::fmt("CD%d_%d", i + 1, j + 1), cd[i][j])); }
    enc = "CD"; if (o.naxis == 3) C.push_back(card("CD3_3", 2.));
  } else if (how == 1) {
    double pc[2][2] = {{c, -s}, {s, c}}, cdelt[2] = {sx, sy};
    for (int i = 0; i < 2; ++i) { C.push_back(card(vh::fmt("CDELT%d", i + 1), cdelt[i])); for (int j = 0; j < 2; ++j) { r.m[i][j] = cdelt[i] * pc[i][j]; C.push_back(card(vh::fmt("PC%d_%d", i + 1, j + 1), pc[i][j])); } }
    enc = "PC";
  } else {
    double cdelt[2] = {sx, sy};
    for (int i = 0; i < 2; ++i) C.push_back(card(vh::fmt("CDELT%d", i + 1), cdelt[i]));
    if (r.swapped || r.proj.empty()) rot = 0;  // the meaning of CROTA depends on which axis is the latitude
    c = cos(rot * D); s = sin(rot * D);
    if (how == 2 && rot != 0) C.push_back(card("CROTA2", rot)); else rot = 0, c = 1, s = 0;
    r.m[0][0] = cdelt[0] * c; r.m[0][1] = -cdelt[1] * s; r.m[1][0] = cdelt[0] * s; r.m[1][1] = cdelt[1] * c;
    enc = rot != 0 ? "CROTA" : "CDELT";
  }
  if (o.naxis == 3) { C.push_back(cards("CTYPE3", g.p(.5) ? "WAVE" : "")); C.push_back(card("CRPIX3", g.d(-3, 3))); C.push_back(card("CRVAL3", 5e-7)); if (enc != "CD") C.push_back(card("CDELT3", 1e-9)); }
  bool gal = g.p(.15);
  std::string lon = gal ? "GLON-" : "RA---", lat = gal ? "GLAT-" : "DEC--";
  if (!r.proj.empty()) {
    std::string suffix = r.sip && g.p(.7) ? "-SIP" : "";
    C.push_back(cards(r.swapped ? "CTYPE2" : "CTYPE1", lon + r.proj + suffix)); C.push_back(cards(r.swapped ? "CTYPE1" : "CTYPE2", lat + r.proj + suffix));
    if (g.p(.4)) { C.push_back(cards("CUNIT1", "deg")); C.push_back(cards("CUNIT2", "deg")); }
    r.lonpole = r.crval[1] >= 90 ? 0 : 180;
    if (g.p(.2)) { r.lonpole = g.d(-180, 180); C.push_back(card("LONPOLE", r.lonpole)); }
    if (!gal && g.p(.5)) { C.push_back(cards("RADESYS", g.p(.5) ? "ICRS" : "FK5")); if (g.p(.5)) C.push_back(card("EQUINOX", 2000.)); }
  }
  C.push_back(card("CRPIX1", r.crpix[0])); C.push_back(card("CRPIX2", r.crpix[1]));
  C.push_back(card("CRVAL1", r.crval[r.swapped])); C.push_back(card("CRVAL2", r.crval[!r.swapped]));
  if (r.sip) {
    int order = g.i(2, 3); C.push_back(card("A_ORDER", vh::fmt("%d", order))); C.push_back(card("B_ORDER", vh::fmt("%d", order)));
    for (int i = 0; i <= order; ++i) for (int j = 0; i + j <= order; ++j) if (i + j >= 2) {
      r.A[i][j] = g.d(-1, 1) * (i + j == 2 ? 3e-6 : 1e-9); r.B[i][j] = g.d(-1, 1) * (i + j == 2 ? 3e-6 : 1e-9);
      C.push_back(card(vh::fmt("A_%d_%d", i, j), r.A[i][j])); C.push_back(card(vh::fmt("B_%d_%d", i, j), r.B[i][j]));
    }
  }
  // what surrounds them in real headers
  auto pad = [](std::string s) { s.resize(80, ' '); return s; };
  if (g.p(.3)) C.push_back(pad("COMMENT CRVAL1 = 12 is not a card"));
  if (g.p(.3)) C.push_back(pad("HISTORY CRPIX1  =  3."));
  if (g.p(.3)) C.push_back(pad("HIERARCH ESO TEL AMBI FWHM START = 1.21 / [arcsec] seeing"));
  if (g.p(.3)) { C.push_back(pad("LONGSTR = 'a long text that goes on and on until it has to be continued &'")); C.push_back(pad("CONTINUE  'somewhere else' / the end")); }
  if (g.p(.3)) C.push_back(pad("UNDEF   =                      / nothing here"));
  if (g.p(.3)) C.push_back(pad("COMPLEX = (1.5, 2.5)"));
  if (g.p(.3)) C.push_back(pad("OBJECT  = 'Barnard''s star / field' / name"));
  if (g.p(.3)) C.push_back(pad("DATE-OBS= '2012-03-04T05:06:07.8'"));
  for (auto& k : C) if (k.find(".0") == std::string::npos && g.p(.1)) { auto e = k.find("E-"); if (e != std::string::npos && k.substr(0, 4) != "HIER" && k[8] == '=' && k[10] != '\'') k[e] = 'D'; }
  g.shuffle(C);
  for (size_t k = 0; k < C.size(); ++k) if (C[k].compare(0, 8, "CONTINUE") == 0) { auto t = C[k]; C.erase(C.begin() + k); for (size_t q = 0; q < C.size(); ++q) if (C[q].compare(0, 7, "LONGSTR") == 0) { C.insert(C.begin() + q + 1, t); break; } break; }
  o.what = vh::fmt("%s%s %s%s naxis %d scale %.3g crval %.8g,%.8g crpix %.6g,%.6g lonpole %g", r.proj.empty() ? "linear" : r.proj.c_str(), r.sip ? "-SIP" : "", enc.c_str(), r.swapped ? " latitude first" : "", o.naxis, r.scale, r.crval[0], r.crval[1], r.crpix[0], r.crpix[1], r.lonpole);
  return o;
}

struct Dir {
  fs::path p;
  Dir() { static std::atomic<int> n{0}; p = fs::path(vh::scratch()) / vh::fmt("wcs-%d-%d", getpid(), n++); fs::create_directories(p); }
  ~Dir() { boost::system::error_code e; fs::remove_all(p, e); }
  std::string operator/(const std::string& s) const { return (p / s).string(); }
};
static std::string fits(const Made& m) {
  std::string t = card("SIMPLE", std::string("T")) + card("BITPIX", std::string("8")) + card("NAXIS", vh::fmt("%d", m.naxis)) + card("NAXIS1", std::string("4")) + card("NAXIS2", std::string("3"));
  if (m.naxis == 3) t += card("NAXIS3", std::string("2"));
  for (auto& c : m.cards) t += c;
  t += "END"; t.resize((t.size() + 2879) / 2880 * 2880, ' ');
  return t + std::string(2880, '\1');
}
static std::shared_ptr<WCS> load(const Made& m, const Dir& d, const std::string& name) {
  std::ofstream(d / name, std::ios::binary) << fits(m);
  FitsImageSource src(d / name, 1, ImageTile::FloatImage);
  return std::make_shared<WCS>(src);
}
static V3 vecOf(const Ref& r, WorldCoordinate w) { (void)r; return vec(w.m_alpha, w.m_delta); }
static double tol(const Ref& r) { return 1e-5 * r.scale + (fabs(r.crval[1]) > 80 ? 2e-11 : 2e-12); }

// distance between a sky position of the code and of the reference
static double worldErr(const Ref& r, WorldCoordinate w, double px, double py) {
  double a, d; r.world(px, py, a, d);
  if (r.proj.empty()) return hypot(w.m_alpha - a, w.m_delta - d);
  double e = sep(vec(a, d), vecOf(r, w));
  return std::isfinite(e) ? e : 1e9;
}
static double linTol(const Ref& r) { return r.proj.empty() ? 1e-5 * r.scale + 1e-11 : tol(r); }
// the asin based latitude of a library near the pole is only good to sqrt(eps)
static double poleTol(const Ref& r, double px, double py) { double a, d; r.world(px, py, a, d); double k = 90 - fabs(d); return r.proj.empty() ? 0 : k < .01 ? 2e-6 : 1e-13 / (k * D); }

SECTION(convert, 500, 20000) {
  Dir d; auto m = make(c.rng); auto& r = m.r; auto w = load(m, d, "a.fits");
  WCS copy(*w);
  c.sig(vh::fmt("%s %d %d %d", r.proj.c_str(), r.sip, r.swapped, m.naxis) + m.what.substr(0, 12));
  c.sample(m.what);
  for (int k = 0; k < 20; ++k) {
    double L = r.limit() * pow(10, c.rng.d(-4, 0)), t = c.rng.d(0, 2 * M_PI);
    double px = r.crpix[0] - 1 + L * cos(t), py = r.crpix[1] - 1 + L * sin(t);
    if (k < 3) { px = k; py = k / 2; } if (k == 3) { px = r.crpix[0] - 1; py = r.crpix[1] - 1; }
    if (k < 3 && hypot(px - r.crpix[0], py - r.crpix[1]) > r.limit()) continue;
    auto what = [&] { return m.what + vh::fmt(" pixel %.9g,%.9g", px, py); };
    try {
      auto s = w->imageToWorld({px, py});
      double e = worldErr(r, s, px, py), lim = linTol(r) + poleTol(r, px, py);
      c.checkf(e <= lim, "image-to-world", [&] { double a, dd; r.world(px, py, a, dd); return what() + vh::fmt(": %.12g,%.12g instead of %.12g,%.12g (%.3g px)", s.m_alpha, s.m_delta, a, dd, e / r.scale); });
      auto b = w->worldToImage(s);
      double back = hypot(b.m_x - px, b.m_y - py), bl = (r.sip ? 1e-4 : 1e-5) + 3 * lim / r.scale;
      c.checkf(back <= bl, "round-trip", [&] { return what() + vh::fmt(" comes back as %.12g,%.12g", b.m_x, b.m_y); });
      // the position on the sky as computed here
      double a, dd; r.world(px, py, a, dd); if (!r.proj.empty()) { a = fmod(a, 360); if (a < 0) a += 360; if (c.rng.p(.2)) a -= 360; }
      auto b2 = w->worldToImage({a, dd});
      c.checkf(hypot(b2.m_x - px, b2.m_y - py) <= bl, "world-to-image", [&] { return what() + vh::fmt(": %.12g,%.12g is at pixel %.12g,%.12g", a, dd, b2.m_x, b2.m_y); });
      auto s2 = copy.imageToWorld({px, py});
      double e2 = worldErr(r, s2, px, py), cl = lim + 1e-9 + 1e-3 * r.scale + (r.proj.empty() ? 1e-7 : 0);
      c.checkf(e2 <= cl, "copy", [&] { return what() + vh::fmt(": a copy converts to %.12g,%.12g, the original to %.12g,%.12g", s2.m_alpha, s2.m_delta, s.m_alpha, s.m_delta); });
    } catch (const std::exception& e) { c.fail("converts", what() + ": " + e.what()); }
  }
}

SECTION(offset, 150, 4000) {
  Dir d; auto m = make(c.rng); auto& r = m.r; auto w = load(m, d, "a.fits"), o = load(m, d, "b.fits");
  long sx = 0, sy = 0;
  c.sig(m.what.substr(0, 12));
  for (int q = 0; q < 3; ++q) {
    int dx = c.rng.i(-500, 500), dy = c.rng.i(-500, 500); if (c.rng.p(.3)) dx = 0; if (c.rng.p(.3)) dy = 0;
    o->addOffset(PixelCoordinate(dx, dy)); sx += dx; sy += dy;
    for (int k = 0; k < 5; ++k) {
      double L = r.limit() * .5 * pow(10, c.rng.d(-4, 0)), t = c.rng.d(0, 2 * M_PI), px = r.crpix[0] - 1 + L * cos(t), py = r.crpix[1] - 1 + L * sin(t);
      auto what = [&] { return m.what + vh::fmt(" offset by %ld,%ld, pixel %.9g,%.9g", sx, sy, px, py); };
      try {
        auto a = w->imageToWorld({px, py}), b = o->imageToWorld({px - sx, py - sy});
        double e = r.proj.empty() ? hypot(a.m_alpha - b.m_alpha, a.m_delta - b.m_delta) : sep(vec(a.m_alpha, a.m_delta), vec(b.m_alpha, b.m_delta));
        c.checkf(e <= linTol(r) + poleTol(r, px, py), "offset", [&] { return what() + vh::fmt(" is at %.12g,%.12g instead of %.12g,%.12g", b.m_alpha, b.m_delta, a.m_alpha, a.m_delta); });
        auto back = o->worldToImage(a);
        c.checkf(hypot(back.m_x - (px - sx), back.m_y - (py - sy)) <= (r.sip ? 1e-4 : 1e-5) + 3 * (linTol(r) + poleTol(r, px, py)) / r.scale, "offset-back", [&] { return what() + vh::fmt(": %.12g,%.12g is at %.12g,%.12g", a.m_alpha, a.m_delta, back.m_x, back.m_y); });
      } catch (const std::exception& e) { c.fail("converts", what() + ": " + e.what()); }
    }
  }
  // the headers handed to files describe the same system
  auto h = o->getFitsHeaders();
  for (int i = 0; i < 2; ++i) {
    auto key = vh::fmt("CRPIX%d", i + 1); double want = r.crpix[i] - (i ? sy : sx);
    auto at = h.find(key); double got = at == h.end() ? 0 : atof(at->second.c_str());
    c.checkf(fabs(got - want) <= 1e-9 * std::max(1e4, fabs(want)), "headers", [&] { return m.what + vh::fmt(": %s is %s instead of %.10g", key.c_str(), at == h.end() ? "missing" : at->second.c_str(), want); });
  }
}

SECTION(outside, 200, 4000) {
  Dir d; Made m; do m = make(c.rng); while (m.r.proj.empty() || m.r.sip); auto& r = m.r; auto w = load(m, d, "a.fits");
  c.sig(m.what.substr(0, 12));
  for (int k = 0; k < 10; ++k) {
    // beyond the edge of the projection
    double R = r.proj == "SIN" ? 1 / D : r.proj == "ZEA" ? 2 / D : r.proj == "ARC" ? 180 : 0;
    if (R > 0) {
      double t = c.rng.d(0, 2 * M_PI), far = R * (1 + pow(10, c.rng.d(-3, 1))), x = far * cos(t), y = far * sin(t); if (r.swapped) std::swap(x, y);
      double det = r.m[0][0] * r.m[1][1] - r.m[0][1] * r.m[1][0], u = (r.m[1][1] * x - r.m[0][1] * y) / det, v = (r.m[0][0] * y - r.m[1][0] * x) / det;
      double px = u + r.crpix[0] - 1, py = v + r.crpix[1] - 1;
      std::string got; bool refused = false;
      try { auto s = w->imageToWorld({px, py}); got = vh::fmt("%.9g,%.9g", s.m_alpha, s.m_delta); refused = !std::isfinite(s.m_alpha) && !std::isfinite(s.m_delta); }
      catch (const InvalidCoordinatesException&) { refused = true; }
      c.checkf(refused, "outside-image", [&] { return m.what + vh::fmt(" pixel %.9g,%.9g is %.4g of the radius of the projection, at ", px, py, far / R) + got; });
    }
    // the side of the sky that is not in the projection
    if (r.proj == "TAN" || r.proj == "SIN") {
      double th = -pow(10, c.rng.d(-1, 1.95)), ph = c.rng.d(-180, 180); V3 v = r.native(ph, th);
      double a = atan2(v.y, v.x) / D, dd = atan2(v.z, hypot(v.x, v.y)) / D; if (a < 0) a += 360;
      bool refused = false; std::string got;
      try { auto s = w->worldToImage({a, dd}); refused = !std::isfinite(s.m_x) && !std::isfinite(s.m_y); got = vh::fmt("%.9g,%.9g", s.m_x, s.m_y); } catch (const InvalidCoordinatesException&) { refused = true; }
      c.checkf(refused, "outside-world", [&] { return m.what + vh::fmt(": position %.9g,%.9g (native latitude %.4g) is at pixel ", a, dd, th) + got; });
    }
    // and what is inside still works afterwards
    double L = r.limit() * .3 * c.rng.d(), t = c.rng.d(0, 2 * M_PI), px = r.crpix[0] - 1 + L * cos(t), py = r.crpix[1] - 1 + L * sin(t);
    try { auto s = w->imageToWorld({px, py}); double e = worldErr(r, s, px, py); c.checkf(e <= linTol(r) + poleTol(r, px, py), "after-error", [&] { return m.what + vh::fmt(" pixel %.9g,%.9g after an error: off by %.3g px", px, py, e / r.scale); }); }
    catch (const std::exception& e) { c.fail("after-error", m.what + ": " + e.what()); }
  }
}

SECTION(threads, 25, 400) {
  Dir d; std::vector<Made> ms; std::vector<std::shared_ptr<WCS>> ws; int n = c.rng.i(1, 3);
  for (int k = 0; k < n; ++k) { ms.push_back(make(c.rng)); ws.push_back(load(ms[k], d, vh::fmt("%d.fits", k))); }
  struct Q { int k; double x, y; bool bad; WorldCoordinate w; ImageCoordinate b; };
  std::vector<Q> qs;
  for (int k = 0; k < 60; ++k) {
    Q q; q.k = c.rng.i(0, n - 1); auto& r = ms[q.k].r; double L = r.limit() * c.rng.d(), t = c.rng.d(0, 2 * M_PI); q.x = r.crpix[0] - 1 + L * cos(t); q.y = r.crpix[1] - 1 + L * sin(t);
    q.bad = false; if ((r.proj == "SIN" || r.proj == "ZEA") && !r.sip && c.rng.p(.2)) { q.bad = true; q.x = 1e9 / r.scale; }
    if (!q.bad) { q.w = ws[q.k]->imageToWorld({q.x, q.y}); q.b = ws[q.k]->worldToImage(q.w); }
    qs.push_back(q);
  }
  c.sig(vh::fmt("%d %s", n, ms[0].what.substr(0, 12).c_str()));
  std::atomic<int> go{0}; int T = c.rng.i(2, 8); std::vector<std::thread> ts;
  std::atomic<int> bad{0}; std::mutex mu; std::string first;
  for (int t = 0; t < T; ++t) {
    uint64_t seed = c.rng.u64();
    ts.emplace_back([&, seed] {
      vh::Rng g(seed); auto order = qs; g.shuffle(order); ++go; while (go < T) std::this_thread::yield();
      for (int rep = 0; rep < 3; ++rep) for (auto& q : order) {
        std::string why;
        try {
          auto w = ws[q.k]->imageToWorld({q.x, q.y});
          if (q.bad) why = "an error is missing";
          else { auto b = ws[q.k]->worldToImage(w); if (w.m_alpha != q.w.m_alpha || w.m_delta != q.w.m_delta || b.m_x != q.b.m_x || b.m_y != q.b.m_y) why = vh::fmt("%.15g,%.15g and %.15g,%.15g instead of %.15g,%.15g and %.15g,%.15g", w.m_alpha, w.m_delta, b.m_x, b.m_y, q.w.m_alpha, q.w.m_delta, q.b.m_x, q.b.m_y); }
          if (g.p(.02)) { auto h = ws[q.k]->getFitsHeaders(); if (h.count("CRPIX1") + h.count("CRPIX2") != 2) why = "headers incomplete"; }
        } catch (const std::exception& e) { if (!q.bad) why = e.what(); }
        if (!why.empty()) { std::lock_guard<std::mutex> l(mu); if (!bad++) first = ms[q.k].what + vh::fmt(" pixel %.9g,%.9g in %d threads: ", q.x, q.y, T) + why; }
      }
    });
  }
  for (auto& t : ts) t.join();
  c.count(T * 180); c.checkf(bad == 0, "threads", [&] { return first; });
}

// own map from reference pixels to measurement pixels by Newton on the independent systems
static bool mapTo(const Ref& ref, const Ref& mea, double px, double py, double& ox, double& oy) {
  V3 s = ref.sky(px, py);
  auto f = [&](double x, double y, double& a, double& b) {  // tangential offsets in units of the pixel scale
    V3 v = mea.sky(x, y); double al = atan2(s.y, s.x), de = atan2(s.z, hypot(s.x, s.y));
    V3 e1{-sin(al), cos(al), 0}, e2{-sin(de) * cos(al), -sin(de) * sin(al), cos(de)};
    a = ((v.x - s.x) * e1.x + (v.y - s.y) * e1.y + (v.z - s.z) * e1.z) / (mea.scale * D); b = ((v.x - s.x) * e2.x + (v.y - s.y) * e2.y + (v.z - s.z) * e2.z) / (mea.scale * D);
  };
  ox = mea.crpix[0] - 1; oy = mea.crpix[1] - 1;
  for (int k = 0; k < 60; ++k) {
    double a, b, ax, bx, ay, by; f(ox, oy, a, b); f(ox + .5, oy, ax, bx); f(ox, oy + .5, ay, by);
    double j00 = (ax - a) / .5, j10 = (bx - b) / .5, j01 = (ay - a) / .5, j11 = (by - b) / .5, det = j00 * j11 - j01 * j10; if (fabs(det) < 1e-12) return false;
    double ux = (j11 * a - j01 * b) / det, uy = (j00 * b - j10 * a) / det; ox -= ux; oy -= uy;
    if (hypot(ux, uy) < 1e-9) return hypot(ox - mea.crpix[0], oy - mea.crpix[1]) < mea.limit();
  }
  return false;
}

SECTION(mapping, 250, 8000) {
  Dir d; double a0 = c.rng.d(0, 360), d0 = c.rng.d(-75, 75), sc = pow(10, c.rng.d(-4.5, -3));
  auto mr = make(c.rng, a0, d0, sc), mm = make(c.rng, fmod(a0 + c.rng.d(-60, 60) * sc / cos(d0 * D) + 360, 360), d0 + c.rng.d(-60, 60) * sc, sc * c.rng.d(.5, 2));
  auto& R = mr.r; auto& M = mm.r;
  std::shared_ptr<CoordinateSystem> wr = load(mr, d, "r.fits"), wm = load(mm, d, "m.fits");
  double cx = static_cast<float>(R.crpix[0] - 1 + c.rng.d(-100, 100)), cy = static_cast<float>(R.crpix[1] - 1 + c.rng.d(-100, 100));
  c.sig(mr.what.substr(0, 8) + mm.what.substr(0, 8)); c.sample(mr.what + " onto " + mm.what);
  auto what = [&] { return "reference " + mr.what + " measurement " + mm.what + vh::fmt(" source at %.9g,%.9g", cx, cy); };
  double ox, oy, x1, y1, x2, y2;
  if (!mapTo(R, M, cx, cy, ox, oy)) return;
  int inst = c.rng.i(0, 5);
  auto src = std::make_unique<SimpleSource>(); auto& s = *src;
  s.setIndexedProperty<MeasurementFrameCoordinates>(inst, wm); s.setIndexedProperty<MeasurementFrameCoordinates>(inst + 1, wr);
  s.setProperty<DetectionFrameCoordinates>(wr); s.setProperty<ReferenceCoordinates>(wr); s.setProperty<PixelCentroid>(cx, cy);
  try {
    WorldCentroidTask().computeProperties(s);
    auto wc = s.getProperty<WorldCentroid>().getCentroid(); float ra = s.getProperty<WorldCentroid>().getCentroidAlpha(); (void)ra;
    double e = worldErr(R, wc, cx, cy); c.checkf(e <= linTol(R), "world-centroid", [&] { return what() + vh::fmt(": off by %.3g px", e / R.scale); });
    MeasurementFramePixelCentroidTask(inst).computeProperties(s);
    auto& pc = s.getProperty<MeasurementFramePixelCentroid>(inst);
    c.checkf(!pc.badProjection() && hypot(pc.getCentroidX() - ox, pc.getCentroidY() - oy) < 1e-3, "measurement-centroid", [&] { return what() + vh::fmt(": %.9g,%.9g instead of %.9g,%.9g", pc.getCentroidX(), pc.getCentroidY(), ox, oy); });
    auto jac = [&](const char* key, const Jacobian& j, double x, double y) {
      double px, py, qx, qy; const double h = .5;
      if (!mapTo(R, M, x + h, y, px, py) || !mapTo(R, M, x - h, y, qx, qy)) return; double xx = px - qx, xy = py - qy;
      if (!mapTo(R, M, x, y + h, px, py) || !mapTo(R, M, x, y - h, qx, qy)) return; double yx = px - qx, yy = py - qy;
      double g0 = std::get<0>(j.asTuple()), g1 = std::get<1>(j.asTuple()), g2 = std::get<2>(j.asTuple()), g3 = std::get<3>(j.asTuple());
      double n = std::max({fabs(xx), fabs(xy), fabs(yx), fabs(yy)}), e = std::max({fabs(g0 - xx), fabs(g1 - xy), fabs(g2 - yx), fabs(g3 - yy)});
      c.checkf(e < 1e-3 * n, key, [&] { return what() + vh::fmt(" at %.6g,%.6g: %.6g,%.6g,%.6g,%.6g instead of %.6g,%.6g,%.6g,%.6g", x, y, g0, g1, g2, g3, xx, xy, yx, yy); });
    };
    JacobianSourceTask(inst).computeProperties(s); jac("jacobian-source", s.getProperty<JacobianSource>(inst), cx, cy);
    // group: somewhere on its stamp
    int gw = c.rng.i(1, 40), gh = c.rng.i(1, 40), gx = static_cast<int>(cx) - c.rng.i(0, gw), gy = static_cast<int>(cy) - c.rng.i(0, gh);
    int bx0 = static_cast<int>(floor(cx)) - c.rng.i(0, 20), by0 = static_cast<int>(floor(cy)) - c.rng.i(0, 20), bx1 = bx0 + c.rng.i(0, 40), by1 = by0 + c.rng.i(0, 40);
    int fw = c.rng.p(.7) ? 1000 : c.rng.i(1, 400), fh = c.rng.p(.7) ? 1000 : c.rng.i(1, 400);
    s.setProperty<PixelBoundaries>(bx0, by0, bx1, by1);
    s.setIndexedProperty<MeasurementFrameInfo>(inst, fw, fh, 1., 1e9, 1e9, 1.);
    // a measurement frame that has the source in it
    auto rect = [&](const char* key, bool bad, PixelCoordinate lo, PixelCoordinate hi, double x0, double y0, double w, double h) {
      double mnx = 1e30, mny = 1e30, mxx = -1e30, mxy = -1e30;
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { if (!mapTo(R, M, x0 + i * w, y0 + j * h, x1, y1)) return; mnx = std::min(mnx, x1); mny = std::min(mny, y1); mxx = std::max(mxx, x1); mxy = std::max(mxy, y1); }
      bool out = mxx < -2 || mxy < -2 || mnx > fw + 1 || mny > fh + 1, in = mxx > 0 && mxy > 0 && mnx < fw - 1 && mny < fh - 1;
      std::string got = bad ? "none" : vh::fmt("%d,%d..%d,%d", lo.m_x, lo.m_y, hi.m_x, hi.m_y);
      auto msg = [&] { return what() + vh::fmt(": corners span %.4f,%.4f..%.4f,%.4f in a frame of %dx%d, rectangle %s", mnx, mny, mxx, mxy, fw, fh, got.c_str()); };
      c.checkf(!(out && !bad) && !(in && bad), key, msg);
      if (!bad && in) {
        auto near = [](double v, double want) { return fabs(v - want) <= 2.01; };
        auto cl = [](double v, double m) { return std::min(std::max(v, 0.), m); };
        c.checkf(lo.m_x >= 0 && lo.m_y >= 0 && hi.m_x < fw && hi.m_y < fh && lo.m_x <= hi.m_x && lo.m_y <= hi.m_y, key, msg);
        c.checkf(near(lo.m_x, cl(mnx, fw - 1)) && near(lo.m_y, cl(mny, fh - 1)) && near(hi.m_x, cl(mxx, fw - 1)) && near(hi.m_y, cl(mxy, fh - 1)) , key, msg);
        c.checkf(lo.m_x <= cl(mnx, fw - 1) + 1e-6 && lo.m_y <= cl(mny, fh - 1) + 1e-6 && hi.m_x >= cl(mxx, fw - 1) - 1e-6 && hi.m_y >= cl(mxy, fh - 1) - 1e-6, key, msg);
      }
    };
    MeasurementFrameRectangleTask(inst).computeProperties(s);
    { auto& q = s.getProperty<MeasurementFrameRectangle>(inst); bool bad = q.getWidth() <= 0 || q.getHeight() <= 0; rect("rectangle", bad, bad ? PixelCoordinate() : q.getTopLeft(), bad ? PixelCoordinate() : q.getBottomRight(), bx0, by0, bx1 - bx0 + 1, by1 - by0 + 1); }
    SimpleSourceGroup g; g.addSource(std::move(src));
    auto stamp = VectorImage<SeFloat>::create(gw, gh);
    g.setProperty<DetectionFrameGroupStamp>(stamp, stamp, PixelCoordinate(gx, gy), stamp);
    JacobianGroupTask(inst).computeProperties(g); jac("jacobian-group", g.getProperty<JacobianGroup>(inst), gx + gw / 2., gy + gh / 2.);
    MeasurementFrameGroupRectangleTask(inst).computeProperties(g);
    { auto& q = g.getProperty<MeasurementFrameGroupRectangle>(inst); bool bad = q.getWidth() <= 0 || q.getHeight() <= 0; rect("group-rectangle", bad, bad ? PixelCoordinate() : q.getTopLeft(), bad ? PixelCoordinate() : q.getBottomRight(), gx, gy, gw, gh); }
  } catch (const std::exception& e) { c.fail("mapping", what() + ": " + e.what()); }
}
VH_MAIN
