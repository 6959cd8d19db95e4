// C07: the FITS layer against an independent reader/writer of FITS bytes.
#include "vh.h"
#include <atomic>
#include <thread>
#include <fstream>
#include <boost/filesystem.hpp>
#include "SEFramework/CoordinateSystem/CoordinateSystem.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/FITS/FitsReader.h"
#include "SEFramework/FITS/FitsWriter.h"
#include "SEFramework/FITS/TemporaryFitsImageSource.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/WriteableBufferedImage.h"

using namespace SourceXtractor;
namespace fs = boost::filesystem;

struct Dir {
  fs::path p;
  Dir() { static std::atomic<int> n{0}; p = fs::path(vh::scratch()) / vh::fmt("fits-%d-%d", getpid(), n++); fs::create_directories(p); }
  ~Dir() { try { TileManager::getInstance()->flush(); } catch (...) {} boost::system::error_code e; fs::remove_all(p, e); }
  std::string operator/(const std::string& s) const { return (p / s).string(); }
};

// ---------------------------------------------------------------- independent FITS bytes
struct Card { std::string key, value, comment; int kind = 0; };  // kind: 0 key=value, 1 commentary (key + text)
static std::string cardText(const Card& k) {
  std::string t;
  if (k.kind == 1) t = vh::fmt("%-8s", k.key.c_str()) + k.value;
  else { t = vh::fmt("%-8s= ", k.key.c_str()) + k.value; if (!k.comment.empty()) t += " / " + k.comment; }
  if (t.size() > 80) t.resize(80);
  return t + std::string(80 - t.size(), ' ');
}
static std::string quote(const std::string& s) { std::string r = "'"; for (char ch : s) { r += ch; if (ch == '\'') r += ch; } while (r.size() < 9) r += ' '; return r + "'"; }
static Card ci(const std::string& k, long long v) { return {k, vh::fmt("%20lld", v), ""}; }
static Card cl(const std::string& k, bool v) { return {k, vh::fmt("%20s", v ? "T" : "F"), ""}; }
struct Hdu {
  bool table = false; int bitpix = 16; std::vector<long> axes; std::vector<Card> cards; double bscale = 1, bzero = 0;
  std::vector<double> phys;  // what a reader has to find
  std::string data;          // big endian bytes
};
static void put(std::string& s, uint64_t v, int n) { for (int b = n - 1; b >= 0; --b) s += static_cast<char>(v >> (8 * b)); }
static std::string fileBytes(const std::vector<Hdu>& hs) {
  std::string out;
  for (size_t k = 0; k < hs.size(); ++k) {
    auto& h = hs[k]; std::string t;
    if (h.table) {
      t += cardText({"XTENSION", "'BINTABLE'", ""}) + cardText(ci("BITPIX", 8)) + cardText(ci("NAXIS", 2)) + cardText(ci("NAXIS1", 4)) + cardText(ci("NAXIS2", 3)) + cardText(ci("PCOUNT", 0)) + cardText(ci("GCOUNT", 1)) + cardText(ci("TFIELDS", 1)) + cardText({"TTYPE1", "'COL     '", ""}) + cardText({"TFORM1", "'1J      '", ""});
    } else {
      t += k == 0 ? cardText(cl("SIMPLE", true)) : cardText({"XTENSION", "'IMAGE   '", ""});
      t += cardText(ci("BITPIX", h.bitpix)) + cardText(ci("NAXIS", h.axes.size()));
      for (size_t a = 0; a < h.axes.size(); ++a) t += cardText(ci(vh::fmt("NAXIS%zu", a + 1), h.axes[a]));
      if (k == 0) t += cardText(cl("EXTEND", true)); else t += cardText(ci("PCOUNT", 0)) + cardText(ci("GCOUNT", 1));
      if (h.bscale != 1 || h.bzero != 0) t += cardText({"BSCALE", vh::fmt("%.10G", h.bscale), ""}) + cardText({"BZERO", vh::fmt("%.10G", h.bzero), ""});
    }
    for (auto& c : h.cards) t += cardText(c);
    t += "END" + std::string(77, ' ');
    while (t.size() % 2880) t += ' ';
    out += t;
    std::string d = h.table ? std::string(12, '\1') : h.data;
    while (d.size() % 2880) d += '\0';
    out += d;
  }
  return out;
}
static void writeBytes(const std::string& p, const std::string& b) { std::ofstream f(p, std::ios::binary); f << b; }
static std::string readBytes(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }

struct RHdu { std::map<std::string, std::string> cards; int bitpix = 0; std::vector<long> axes; double bzero = 0, bscale = 1; std::string data; bool image = true; };
static bool parse(const std::string& b, std::vector<RHdu>& out, std::string& why) {
  size_t pos = 0;
  while (pos < b.size()) {
    RHdu h; bool end = false; bool any = false;
    for (; !end; pos += 2880) {
      if (pos + 2880 > b.size()) { why = "header runs past the end of the file"; return false; }
      for (int k = 0; k < 36; ++k) {
        std::string c = b.substr(pos + 80 * k, 80);
        if (c.substr(0, 8) == "END     ") { end = true; break; }
        for (char ch : c) if (ch < 0x20 || ch > 0x7e) { why = "a header card holds a non-printable character"; return false; }
        any = true;
        if (c[8] == '=' ) { std::string key = c.substr(0, 8); key.erase(key.find_last_not_of(' ') + 1); if (!h.cards.count(key)) h.cards[key] = c.substr(9); }
      }
    }
    if (!any) { why = "empty header"; return false; }
    auto num = [&](const std::string& k, double d) { return h.cards.count(k) ? atof(h.cards[k].c_str()) : d; };
    h.bitpix = num("BITPIX", 0); int n = num("NAXIS", 0); long size = n ? std::abs(h.bitpix) / 8 : 0;
    for (int a = 0; a < n; ++a) { h.axes.push_back(num(vh::fmt("NAXIS%d", a + 1), 0)); size *= h.axes.back(); }
    h.bzero = num("BZERO", 0); h.bscale = num("BSCALE", 1);
    if (pos + size > b.size()) { why = "data run past the end of the file"; return false; }
    h.data = b.substr(pos, size);
    pos += (size + 2879) / 2880 * 2880;
    if (pos > b.size()) { why = "data are not padded"; return false; }
    out.push_back(h);
  }
  return true;
}
static uint64_t be(const std::string& d, size_t i, int n) { uint64_t v = 0; for (int b = 0; b < n; ++b) v = v << 8 | static_cast<unsigned char>(d[i * n + b]); return v; }
template <typename T> static bool pixelIs(const RHdu& h, size_t i, T v);
template <> bool pixelIs<float>(const RHdu& h, size_t i, float v) { if (h.bitpix != -32) return false; uint32_t u = be(h.data, i, 4); float f; memcpy(&f, &u, 4); return std::isnan(v) ? std::isnan(f) : memcmp(&f, &v, 4) == 0; }
template <> bool pixelIs<double>(const RHdu& h, size_t i, double v) { if (h.bitpix != -64) return false; uint64_t u = be(h.data, i, 8); double f; memcpy(&f, &u, 8); return std::isnan(v) ? std::isnan(f) : memcmp(&f, &v, 8) == 0; }
template <> bool pixelIs<int>(const RHdu& h, size_t i, int v) { return h.bitpix == 32 && h.bzero == 0 && static_cast<int32_t>(be(h.data, i, 4)) == v; }
template <> bool pixelIs<unsigned int>(const RHdu& h, size_t i, unsigned int v) { return h.bitpix == 32 && h.bzero == 2147483648.0 && static_cast<int64_t>(static_cast<int32_t>(be(h.data, i, 4))) + 2147483648LL == static_cast<int64_t>(v); }
template <> bool pixelIs<std::int64_t>(const RHdu& h, size_t i, std::int64_t v) { return h.bitpix == 64 && h.bzero == 0 && static_cast<int64_t>(be(h.data, i, 8)) == v; }

template <typename T> static bool same(T a, T b) { return a == b || (a != a && b != b); }
template <typename T> static T randomPixel(vh::Rng& r);
template <> float randomPixel<float>(vh::Rng& r) { switch (r.i(0, 12)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 1.4e-45f; case 4: return 3.4e38f; case 5: return 0; default: return static_cast<float>(r.d(-1e4, 1e4)); } }
template <> double randomPixel<double>(vh::Rng& r) { switch (r.i(0, 12)) { case 0: return NAN; case 1: return INFINITY; case 2: return 5e-324; case 3: return -1.7e308; default: return r.d(-1e4, 1e4); } }
template <> int randomPixel<int>(vh::Rng& r) { switch (r.i(0, 6)) { case 0: return INT32_MIN; case 1: return INT32_MAX; case 2: return 0; default: return r.i(-100000, 100000); } }
template <> unsigned int randomPixel<unsigned int>(vh::Rng& r) { switch (r.i(0, 6)) { case 0: return UINT32_MAX; case 1: return 0; case 2: return 0x80000000u; default: return static_cast<unsigned>(r.u64()); } }
template <> std::int64_t randomPixel<std::int64_t>(vh::Rng& r) { switch (r.i(0, 6)) { case 0: return INT64_MIN; case 1: return INT64_MAX; case 2: return (1LL << 53) + 1; default: return static_cast<int64_t>(r.u64()); } }

// a double without fraction may come back as the integer it equals
static bool sameValue(const MetadataEntry::value_t& a, const MetadataEntry::value_t& b) {
  auto ia = boost::get<int64_t>(&a); auto db = boost::get<double>(&b);
  if (ia && db) return static_cast<double>(*ia) == *db;
  return a == b;
}
struct FakeWcs : CoordinateSystem {
  std::map<std::string, std::string> h;
  WorldCoordinate imageToWorld(ImageCoordinate i) const override { return {i.m_x, i.m_y}; }
  ImageCoordinate worldToImage(WorldCoordinate w) const override { return {w.m_alpha, w.m_delta}; }
  std::map<std::string, std::string> getFitsHeaders() const override { return h; }
};

// one image extension of a file under test, with the array it has to hold
struct Ext {
  virtual ~Ext() = default;
  int w = 1, hgt = 1, hdu = 1; std::map<std::string, std::string> wcs; std::map<std::string, MetadataEntry::value_t> meta;
  virtual void create(vh::Ctx& c, const std::string& f, bool append) = 0;
  virtual void modify(vh::Ctx& c, const std::string& f) = 0;
  virtual void bytes(vh::Ctx& c, const std::vector<RHdu>& hs, const std::string& ctx) = 0;
  virtual void read(vh::Ctx& c, const std::string& f, bool alone) = 0;
  virtual const char* type() = 0;
};
static std::shared_ptr<FakeWcs> randomWcs(vh::Rng& r) {
  auto w = std::make_shared<FakeWcs>();
  w->h["CTYPE1"] = "'RA---TAN'"; w->h["CTYPE2"] = "'DEC--TAN'"; w->h["CRVAL1"] = vh::fmt("%.10G", r.d(0, 360)); w->h["CRVAL2"] = vh::fmt("%.10G", r.d(-90, 90));
  if (r.p(.5)) w->h["CD1_1"] = vh::fmt("%.12E", r.d(-1e-3, 1e-3));
  return w;
}
template <typename T> struct ExtT : Ext {
  std::vector<T> data;
  T& at(int x, int y) { return data[x + static_cast<size_t>(y) * w]; }
  const char* type() override { static const char* n[] = {"float", "double", "int", "uint", "int64"}; return n[ImageTile::getTypeValue(T())]; }
  void create(vh::Ctx& c, const std::string& f, bool append) override {
    data.assign(static_cast<size_t>(w) * hgt, T(0));
    std::shared_ptr<FakeWcs> cs; if (c.rng.p(.4)) { cs = randomWcs(c.rng); wcs = cs->h; }
    if (c.rng.p(.5)) {
      for (auto& v : data) v = randomPixel<T>(c.rng);
      FitsWriter::writeFile(*VectorImage<T>::create(w, hgt, data), f, cs, append);
    } else {
      auto img = FitsWriter::newImage<T>(f, w, hgt, cs, append);
      scribble(c, *img);
    }
  }
  void scribble(vh::Ctx& c, WriteableImage<T>& img) {
    int n = std::min(c.rng.i(0, 2 * w * hgt), 150);
    for (int k = 0; k < n; ++k) {
      int x = c.rng.i(0, w - 1), y = c.rng.i(0, hgt - 1); T v = randomPixel<T>(c.rng);
      img.setValue(x, y, v); at(x, y) = v;
      if (k % 64 == 63 && c.rng.p(.1)) TileManager::getInstance()->flush();
    }
  }
  void modify(vh::Ctx& c, const std::string& f) override {
    auto src = std::make_shared<FitsImageSource>(f, hdu, ImageTile::getTypeValue(T()));
    auto img = WriteableBufferedImage<T>::create(src);
    scribble(c, *img);
    TileManager::getInstance()->flush();
  }
  void bytes(vh::Ctx& c, const std::vector<RHdu>& hs, const std::string& ctx) override {
    if (!c.check(static_cast<size_t>(hdu) <= hs.size(), "hdu-count", vh::fmt("%zu HDUs in the file, HDU %d was written; %s", hs.size(), hdu, ctx.c_str()))) return;
    auto& h = hs[hdu - 1];
    if (!c.check(h.axes.size() == 2 && h.axes[0] == w && h.axes[1] == hgt, "dimensions", "wrong axes in HDU " + std::to_string(hdu) + "; " + ctx)) return;
    for (size_t i = 0; i < data.size(); ++i) if (!pixelIs<T>(h, i, data[i])) { c.fail("written-pixels", vh::fmt("HDU %d (%s): pixel %zu,%zu is not in the file as written; %s", hdu, type(), i % w, i / w, ctx.c_str())); break; }
    c.count(data.size());
    for (auto& k : wcs) { auto it = h.cards.find(k.first); std::string got = it == h.cards.end() ? "(missing)" : it->second; c.check(got.find(k.second) != std::string::npos, "written-wcs", "keyword " + k.first + " of the coordinate system: " + got + " instead of " + k.second); }
    for (auto& k : meta) {
      auto it = h.cards.find(k.first); std::string got = it == h.cards.end() ? "(missing)" : it->second, want;
      if (auto s = boost::get<std::string>(&k.second)) { want = "'"; for (char ch : *s) { want += ch; if (ch == '\'') want += ch; } if (got.find(want) == std::string::npos || got[got.find_first_not_of(' ')] != '\'') c.fail("written-metadata", "keyword " + k.first + " in the file: " + got + " instead of string " + *s); }
      else if (auto d = boost::get<double>(&k.second)) c.check(atof(got.c_str()) == *d, "written-metadata", "keyword " + k.first + " in the file: " + got + vh::fmt(" instead of %.17g", *d));
      else if (auto i = boost::get<int64_t>(&k.second)) c.check(atoll(got.c_str()) == *i, "written-metadata", "keyword " + k.first + " in the file: " + got + vh::fmt(" instead of %lld", static_cast<long long>(*i)));
      c.count();
    }
  }
  void read(vh::Ctx& c, const std::string& f, bool alone) override {
    std::shared_ptr<Image<T>> img;
    int how = c.rng.i(0, alone ? 2 : 1);
    bool automatic = false;
    std::shared_ptr<FitsImageSource> src;
    if (how == 2) img = FitsReader<T>::readFile(f);
    else {
      // unsigned images have to be asked for by type
      automatic = !std::is_same<T, unsigned int>::value && c.rng.p(.4);
      std::string name = f; int n = hdu;
      if (c.rng.p(.3)) { name += vh::fmt("[%d]", hdu - 1); n = c.rng.p(.5) ? hdu : 0; }
      src = std::make_shared<FitsImageSource>(name, n, automatic ? ImageTile::AutoType : ImageTile::getTypeValue(T()));
      c.check(src->getWidth() == w && src->getHeight() == hgt, "dimensions", vh::fmt("%s HDU %d reported as %dx%d instead of %dx%d", name.c_str(), n, src->getWidth(), src->getHeight(), w, hgt));
      c.check(src->getType() == ImageTile::getTypeValue(T()), "type", vh::fmt("HDU of %s found as type %d", type(), src->getType()));
      c.check(src->getHDU() == hdu, "hdu", vh::fmt("HDU %d found as %d", hdu, src->getHDU()));
      img = BufferedImage<T>::create(src);
    }
    if (!c.check(img->getWidth() == w && img->getHeight() == hgt, "dimensions", "image has the wrong size")) return;
    int reads = c.rng.i(1, 5);
    for (int k = 0; k < reads; ++k) {
      int x = k ? c.rng.i(0, w - 1) : 0, y = k ? c.rng.i(0, hgt - 1) : 0, ww = k ? c.rng.i(1, w - x) : w, hh = k ? c.rng.i(1, hgt - y) : hgt;
      bool tile = src && c.rng.p(.5);
      std::shared_ptr<ImageTile> t; std::shared_ptr<ImageChunk<T>> ch;
      if (tile) { t = src->getImageTile(x, y, ww, hh); c.check(t->getPosX() == x && t->getPosY() == y && t->getWidth() == ww && t->getHeight() == hh, "tile-geometry", "tile is not the rectangle asked for"); }
      else ch = img->getChunk(x, y, ww, hh);
      c.count(static_cast<uint64_t>(ww) * hh);
      for (int j = 0; j < hh; ++j) for (int i = 0; i < ww; ++i) {
        T v = tile ? t->getValue<T>(x + i, y + j) : ch->getValue(i, j);
        if (!same(v, at(x + i, y + j))) { c.fail("read-pixels", vh::fmt("HDU %d (%s, how %d, automatic %d): pixel %d,%d of rectangle %d,%d %dx%d reads %.17g instead of %.17g", hdu, type(), how, automatic, x + i, y + j, x, y, ww, hh, static_cast<double>(v), static_cast<double>(at(x + i, y + j)))); j = hh; break; }
      }
    }
  }
};
static std::unique_ptr<Ext> randomExt(vh::Rng& r) {
  std::unique_ptr<Ext> e;
  switch (r.i(0, 4)) { case 0: e.reset(new ExtT<float>); break; case 1: e.reset(new ExtT<double>); break; case 2: e.reset(new ExtT<int>); break; case 3: e.reset(new ExtT<unsigned int>); break; default: e.reset(new ExtT<std::int64_t>); }
  e->w = r.p(.2) ? 1 : r.i(1, 40); e->hgt = r.p(.2) ? 1 : r.i(1, 40); if (r.p(.1)) { e->w = r.i(300, 600); e->hgt = r.i(1, 12); }
  return e;
}

SECTION(write_read, 90, 2500) {
  Dir d; auto& r = c.rng;
  bool tight = r.p(.3);  // every tile evicted at once: costly, so larger tiles
  TileManager::getInstance()->setOptions(tight ? r.i(100, 300) : r.i(10, 60), tight ? r.i(8, 40) : r.i(10, 60), tight ? 0 : 10);
  std::string f = d / (r.p(.5) ? "a.fits" : "im 1.fits");
  std::vector<std::unique_ptr<Ext>> exts; std::string trace;
  try {
  if (r.p(.2)) { auto junk = randomExt(r); junk->create(c, f, false); TileManager::getInstance()->flush(); trace += "over "; }
  int ops = r.i(1, 8);
  auto verify = [&](bool quick) {
    TileManager::getInstance()->flush();
    std::vector<RHdu> hs; std::string why;
    if (!c.check(parse(readBytes(f), hs, why), "file-valid", "not a FITS file: " + why + "; " + trace)) return;
    c.check(hs.size() == exts.size(), "hdu-count", vh::fmt("%zu HDUs for %zu images; ", hs.size(), exts.size()) + trace);
    for (auto& e : exts) { e->bytes(c, hs, trace); if (!quick) e->read(c, f, e->hdu == 1); }
  };
  for (int k = 0; k < ops; ++k) {
    int op = exts.empty() ? 0 : r.i(0, 4);
    if (op <= 1) {
      auto e = randomExt(r); e->hdu = exts.size() + 1; trace += vh::fmt("new(%s %dx%d) ", e->type(), e->w, e->hgt);
      e->create(c, f, !exts.empty()); exts.push_back(std::move(e));
      if (r.p(.5)) TileManager::getInstance()->flush();
    } else if (op == 2) { TileManager::getInstance()->flush(); auto& e = r.pick(exts); trace += vh::fmt("mod(%d) ", e->hdu); e->modify(c, f); }
    else if (op == 3) { TileManager::getInstance()->flush(); auto& e = r.pick(exts); trace += vh::fmt("read(%d) ", e->hdu); e->read(c, f, e->hdu == 1); TileManager::getInstance()->flush(); }
    else {
      TileManager::getInstance()->flush();
      auto& e = r.pick(exts); trace += vh::fmt("meta(%d) ", e->hdu);
      auto src = std::make_shared<FitsImageSource>(f, e->hdu);
      for (int m = r.i(1, 3); m > 0; --m) {
        std::string key = vh::fmt("%sK%d", r.p(.3) ? "LONG_" : "", r.i(0, 4)); MetadataEntry::value_t v;
        static const std::vector<std::string> strings{"abc", "it's", "a/b", "T", "12", "1.5E3", "two words", "''", "km/s / day"};
        switch (r.i(0, 2)) { case 0: v = static_cast<int64_t>(r.i(-100000, 100000)); break; case 1: v = r.d(-10, 10) * std::pow(10, r.i(-20, 20)); break; default: v = r.pick(strings); }
        src->setMetadata(key, MetadataEntry{v, {}}); e->meta[key] = v;
        auto got = src->getMetadata(); c.check(got.count(key) && sameValue(got[key].m_value, v), "metadata-set", "keyword " + key + " not found as set");
      }
      auto again = std::make_shared<FitsImageSource>(f, e->hdu); auto got = again->getMetadata();
      for (auto& m : e->meta) c.check(got.count(m.first) && sameValue(got[m.first].m_value, m.second), "metadata-reread", "keyword " + m.first + " not reread as set");
    }
  }
  verify(false);
  verify(true);
  for (auto& e : exts) {
    TileManager::getInstance()->flush();
    auto got = FitsImageSource(f, e->hdu).getMetadata();
    for (auto& m : e->meta) c.checkf(got.count(m.first) && sameValue(got[m.first].m_value, m.second), "metadata-reread", [&] { return "keyword " + m.first + " not reread as set from a new source: " + (got.count(m.first) ? VariantCast<std::string>(got[m.first].m_value) : "(missing)"); });
  }
  } catch (const std::exception& e) { c.fail("history-error", std::string(e.what()) + "; " + trace); }
  c.sig(trace);
  if (c.kase < 2) c.sample(trace);
}

// ---------------------------------------------------------------- files made elsewhere
struct Want { int type; int64_t i; double d; std::string s; std::string comment; bool any = false; };  // 0 int 1 double 2 string 3 char(logical)
static std::string trimr(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static std::string trim(std::string s) { s = trimr(s); size_t k = s.find_first_not_of(' '); return k == std::string::npos ? "" : s.substr(k); }
static Card randomCard(vh::Rng& r, std::string key, Want& w, size_t room) {
  Card k; k.key = key;
  static const std::vector<std::string> texts{"", "abc", "it's", "a/b", "/", "/ no comment", "T", "12", "1.5E3", "two words", "''", "'", "km/s / day", "RA---TAN", "2021-01-01T00:00:00", "http://a.b/c?d=e", "x = 3", "=", "END", "a very long string value that fills the card to its end, or nearly s"};
  static const std::vector<std::string> comments{"", "", "a comment", "[m/s] velocity", "a / b", "it's", "= 5", "'quoted'", "1.0"};
  switch (r.i(0, 8)) {
    case 0: { w.type = 0; w.i = r.p(.3) ? r.i(-9, 9) : r.p(.5) ? r.i(-1000000, 1000000) : static_cast<int64_t>(r.u64()); k.value = r.p(.5) ? vh::fmt("%20lld", static_cast<long long>(w.i)) : r.p(.5) && w.i >= 0 ? vh::fmt("+%lld", static_cast<long long>(w.i)) : vh::fmt("%lld", static_cast<long long>(w.i)); break; }
    case 1: case 2: {
      w.type = 1; double v = r.p(.2) ? r.i(-5, 5) : r.d(-10, 10) * std::pow(10, r.i(-30, 30));
      std::string t; switch (r.i(0, 4)) { case 0: t = vh::fmt("%.15E", v); break; case 1: t = vh::fmt("%.3e", v); break; case 2: t = vh::fmt("%.6f", std::fmod(v, 1e6)); break; case 3: t = vh::fmt("%d.", r.i(-99, 99)); break; default: t = vh::fmt("%.17G", v); if (t.find('.') == std::string::npos && t.find('E') == std::string::npos) t += ".0"; }
      w.d = strtod(t.c_str(), nullptr);
      if (r.p(.25)) for (auto& ch : t) if (ch == 'E' || ch == 'e') ch = r.p(.8) ? 'D' : 'd';
      k.value = r.p(.5) ? vh::fmt("%20s", t.c_str()) : t; break;
    }
    case 3: case 4: case 5: { w.type = 2; w.s = r.pick(texts); k.value = quote(w.s); break; }
    case 6: w.type = 3; w.s = r.p(.5) ? "T" : "F"; k.value = vh::fmt("%20s", w.s.c_str()); break;
    case 7: w.type = 2; w.s = ""; k.value = ""; break;
    default: { w.type = 2; int n = r.i(0, 30); for (int j = 0; j < n; ++j) w.s += static_cast<char>(r.i(32, 126)); while (!w.s.empty() && w.s.back() == ' ') w.s.pop_back(); k.value = quote(w.s); }
  }
  k.comment = r.pick(comments);
  if (10 + k.value.size() + 3 + k.comment.size() > room) k.comment.clear();
  w.comment = k.comment;
  return k;
}
static std::string randomKey(vh::Rng& r) {
  static const std::vector<std::string> special{"GAIN", "SATURATE", "CRVAL1", "CD1_1", "ENDTIME", "END_DATE", "DATE-OBS", "FLXSCALE", "MAGZEROP", "A", "HIERARCH", "EXPTIME"};
  if (r.p(.4)) { auto k = r.pick(special); return k == "HIERARCH" ? "HIER" : k; }
  std::string s = "Z"; int n = r.i(1, 7); for (int j = 0; j < n; ++j) s += "ABCXYZ0123456789_-"[r.i(0, 17)]; return s;
}
static void checkEntry(vh::Ctx& c, const std::map<std::string, MetadataEntry>& got, const std::string& key, const Want& w, const char* check, const std::string& ctx) {
  auto it = got.find(key);
  if (!c.check(it != got.end(), check, "keyword " + key + " is missing; " + ctx)) return;
  auto& v = it->second.m_value; bool ok = false; std::string text = VariantCast<std::string>(v);
  switch (w.type) {
    case 0: if (auto p = boost::get<int64_t>(&v)) ok = *p == w.i; break;
    case 1: if (auto p = boost::get<double>(&v)) ok = *p == w.d; break;
    case 2: if (auto p = boost::get<std::string>(&v)) ok = trimr(*p) == trimr(w.s); break;
    case 3: if (auto p = boost::get<char>(&v)) ok = *p == w.s[0]; break;
  }
  c.check(ok, check, "keyword " + key + " reads '" + text + vh::fmt("' (variant %d), wanted type %d int %lld double %.17g string '%s'; ", v.which(), w.type, static_cast<long long>(w.i), w.d, w.s.c_str()) + ctx);
  auto cm = it->second.m_extra.find("comment");
  c.check(cm != it->second.m_extra.end() && trim(cm->second) == trim(w.comment), check, "comment of " + key + " reads '" + (cm == it->second.m_extra.end() ? "" : cm->second) + "' instead of '" + w.comment + "'; " + ctx);
}
static Hdu randomImage(vh::Rng& r, bool cube) {
  Hdu h; static const std::vector<int> bp{8, 16, 32, 64, -32, -64}; h.bitpix = r.pick(bp);
  h.axes = {r.i(1, 30), r.i(1, 30)}; if (cube) h.axes.push_back(r.i(1, 5));
  if (h.bitpix == 16 && r.p(.3)) h.bzero = 32768; else if (h.bitpix > 0 && h.bitpix < 64 && r.p(.3)) { h.bscale = r.p(.5) ? .5 : 2; h.bzero = r.i(-10, 10); }
  size_t n = 1; for (auto a : h.axes) n *= a;
  for (size_t k = 0; k < n; ++k) {
    double raw = 0; 
    switch (h.bitpix) {
      case 8: { int v = r.i(0, 255); raw = v; put(h.data, v, 1); break; }
      case 16: { int v = r.i(-32768, 32767); raw = v; put(h.data, static_cast<uint16_t>(v), 2); break; }
      case 32: { int v = r.i(-1000000, 1000000); raw = v; put(h.data, static_cast<uint32_t>(v), 4); break; }
      case 64: { int64_t v = r.i(-1000000, 1000000); raw = v; put(h.data, static_cast<uint64_t>(v), 8); break; }
      case -32: { float v = static_cast<float>(r.d(-1e3, 1e3)); if (r.p(.02)) v = NAN; raw = v; uint32_t u; memcpy(&u, &v, 4); put(h.data, u, 4); break; }
      default: { double v = static_cast<float>(r.d(-1e3, 1e3)); if (r.p(.02)) v = NAN; raw = v; uint64_t u; memcpy(&u, &v, 8); put(h.data, u, 8); }
    }
    h.phys.push_back(raw * h.bscale + h.bzero);
  }
  return h;
}
static Hdu emptyPrimary() { Hdu h; h.bitpix = 8; return h; }
static void readHdu(vh::Ctx& c, const std::string& f, const Hdu& h, int number, const std::string& ctx) {
  auto& r = c.rng;
  bool dbl = r.p(.5), integer = h.bitpix > 0 && h.bscale != .5 && r.p(.3);
  auto src = std::make_shared<FitsImageSource>(f, number, integer ? ImageTile::IntImage : dbl ? ImageTile::DoubleImage : ImageTile::FloatImage);
  int w = h.axes[0], hg = h.axes[1], dep = h.axes.size() > 2 ? h.axes[2] : 1;
  if (!c.check(src->getWidth() == w && src->getHeight() == hg && src->getDepth() == dep, "dimensions", vh::fmt("HDU %d is %dx%dx%d, found %dx%dx%d; ", number, w, hg, dep, src->getWidth(), src->getHeight(), src->getDepth()) + ctx)) return;
  for (int k = 0; k < 4; ++k) {
    int layer = 0;
    if (h.axes.size() > 2) {
      layer = r.i(0, dep - 1); if (k || r.p(.5)) src->setLayer(layer); else layer = 0;  // the first layer unless told otherwise
      int bad = r.p(.5) ? dep + r.i(0, 2) : -r.i(1, 3); bool refused = false;
      try { src->setLayer(bad); } catch (const std::exception&) { refused = true; }
      c.check(refused, "layer-refused", vh::fmt("layer %d of %d accepted", bad, dep));
      if (!refused) src->setLayer(layer);
    }
    int x = r.i(0, w - 1), y = r.i(0, hg - 1), ww = r.i(1, w - x), hh = r.i(1, hg - y); if (k == 0) { x = y = 0; ww = w; hh = hg; }
    auto t = src->getImageTile(x, y, ww, hh);
    c.count(static_cast<uint64_t>(ww) * hh);
    for (int j = 0; j < hh; ++j) for (int i = 0; i < ww; ++i) {
      double want = h.phys[(x + i) + static_cast<size_t>(y + j) * w + static_cast<size_t>(layer) * w * hg], got = t->getValue<double>(x + i, y + j);
      if (!same(got, want)) { c.fail("external-pixels", vh::fmt("HDU %d bitpix %d scale %g zero %g layer %d: pixel %d,%d is %.9g, read as %.9g; ", number, h.bitpix, h.bscale, h.bzero, layer, x + i, y + j, want, got) + ctx); return; }
    }
  }
}

SECTION(external, 250, 4000) {
  Dir d; auto& r = c.rng;
  TileManager::getInstance()->setOptions(r.i(2, 40), r.i(2, 40), 10);
  std::vector<Hdu> hs; std::vector<int> kinds; std::vector<std::map<std::string, Want>> want; std::string trace;
  int n = r.i(1, 5);
  for (int k = 0; k < n; ++k) {
    int kind = k == 0 ? (r.p(.3) ? 2 : r.p(.8) ? 0 : 1) : r.i(0, 9) < 6 ? 0 : r.i(1, 4);  // image, cube, empty, table, one dimension
    Hdu h = kind == 0 ? randomImage(r, false) : kind == 1 ? randomImage(r, true) : emptyPrimary();
    if (kind == 3) h.table = true;
    if (kind == 4) { h.axes = {r.i(1, 20)}; h.data = std::string(h.axes[0], '\3'); }
    std::map<std::string, Want> ws;
    for (int m = r.i(0, 25); m > 0; --m) {
      if (r.p(.15)) {
        static const std::vector<std::string> com{"a / b = c", "it's GAIN = 5", "", "  = / '"};
        h.cards.push_back({r.p(.5) ? "HISTORY" : r.p(.5) ? "COMMENT" : "", " " + r.pick(com), "", 1}); continue;
      }
      auto key = randomKey(r); Want w{}; auto card = randomCard(r, key, w, 80);
      if (card.value.size() > 70) continue;
      h.cards.push_back(card);
      ws.emplace(key, w);  // the first one counts
    }
    hs.push_back(h); kinds.push_back(kind); want.push_back(ws); trace += vh::fmt("%d/%d ", kind, kind < 2 ? h.bitpix : 0);
  }
  auto f = d / "ext.fits";
  writeBytes(f, fileBytes(hs));
  // .head: one section for each image HDU, in order, possibly fewer or more
  bool head = r.p(.5);
  if (head) {
    std::ofstream o(d / "ext.head"); std::vector<size_t> images; for (size_t k = 0; k < hs.size(); ++k) if (kinds[k] < 2) images.push_back(k);
    size_t sections = r.i(0, static_cast<int>(images.size()) + 1); std::string eol = r.p(.15) ? "\r\n" : "\n"; trace += vh::fmt("head %zu of %zu ", sections, images.size());
    for (size_t s = 0; s < sections; ++s) {
      if (r.p(.3)) o << "COMMENT   made by a monitor" << eol;
      for (int m = r.i(0, 5); m > 0; --m) {
        std::string key = randomKey(r); if (s < images.size() && !want[images[s]].empty() && r.p(.5)) { auto it = want[images[s]].begin(); std::advance(it, r.i(0, static_cast<int>(want[images[s]].size()) - 1)); key = it->first; }
        Want w{}; auto card = randomCard(r, key, w, 80); if (card.value.size() > 70) continue;
        bool hasnon = false; (void)hasnon;
        std::string t = trimr(cardText(card)); if (r.p(.3)) { t = key + "= " + card.value + (card.comment.empty() ? "" : " / " + card.comment); if (r.p(.5)) for (size_t q = 0; q < key.size(); ++q) t[q] = tolower(t[q]); }
        o << t << eol; if (r.p(.1)) o << eol;
        if (s < images.size()) want[images[s]][key] = w;
      }
      if (s + 1 < sections || r.p(.8)) o << (r.p(.8) ? "END" : "END     ") << eol;
    }
  }
  c.counter(head ? "files with .head" : "files without .head");
  for (size_t k = 0; k < hs.size(); ++k) {
    int number = k + 1;
    if (kinds[k] >= 2) {
      bool refused = false; try { FitsImageSource s(f, number, ImageTile::FloatImage); s.getImageTile(0, 0, 1, 1); } catch (const std::exception&) { refused = true; }
      c.check(refused, "non-image-refused", vh::fmt("HDU %d is no image (%d) but was opened; ", number, kinds[k]) + trace);
      continue;
    }
    readHdu(c, f, hs[k], number, trace);
    FitsImageSource src(f, number, ImageTile::FloatImage);
    auto got = src.getMetadata();
    for (auto& w : want[k]) checkEntry(c, got, w.first, w.second, head ? "head-keyword" : "keyword", vh::fmt("HDU %d; ", number) + trace);
    // keywords of another HDU must not leak into this one
    for (size_t o = 0; o < hs.size(); ++o) if (o != k) for (auto& w : want[o]) if (!want[k].count(w.first)) c.check(!got.count(w.first), "keyword-leak", vh::fmt("HDU %d has keyword %s of HDU %zu; ", number, w.first.c_str(), o + 1) + trace);
    for (auto& w : want[k]) if (w.second.type == 0 || w.second.type == 1) {
      double v = -12345; bool found = src.readFitsKeyword(w.first, v);
      c.check(found && v == (w.second.type ? w.second.d : static_cast<double>(w.second.i)), "read-keyword", vh::fmt("readFitsKeyword(%s) gives %.17g", w.first.c_str(), v));
    }
    double none = 7; c.check(!src.readFitsKeyword("NOTTHERE", none) && none == 7, "read-keyword", "a keyword that is not there was found");
    // the header handed to wcslib
    int records = 0; std::unique_ptr<std::vector<char>> text;
    text = src.getFitsHeaders(records);
    std::string s(text->begin(), text->end());
    if (c.check(s.size() == 80u * (records + 1) + 1 && s.back() == 0 && s.substr(80 * records, 3) == "END", "header-block", vh::fmt("%zu bytes for %d records", s.size(), records))) {
      std::map<std::string, std::string> cards; for (int q = 0; q < records; ++q) cards[trimr(s.substr(80 * q, 8))] = s.substr(80 * q + 8, 72);
      c.check(cards.size() == static_cast<size_t>(records) && cards.size() == got.size(), "header-block", "keywords lost");
      for (auto& w : want[k]) {
        if (!cards.count(w.first)) { c.fail("header-block", "keyword " + w.first + " missing"); continue; }
        auto v = cards[w.first]; bool ok = v.substr(0, 2) == "= "; v = v.substr(2);
        if (w.second.type == 0) ok &= atoll(v.c_str()) == w.second.i; else if (w.second.type == 1) ok &= strtod(v.c_str(), nullptr) == w.second.d;
        else if (w.second.type == 3) ok &= trim(v) == w.second.s;
        else { auto q = quote(w.second.s); while (q.size() > 2 && q[q.size() - 2] == ' ') q.erase(q.size() - 2, 1); auto g = trim(v); if (g.size() >= 2) while (g.size() > 2 && g[g.size() - 2] == ' ') g.erase(g.size() - 2, 1); ok &= g == q; }
        c.check(ok, "header-block", "card of " + w.first + " is " + cards[w.first] + " for '" + w.second.s + "'");
      }
    }
  }
  { bool refused = false; try { FitsImageSource s(f, n + 1 + r.i(0, 2), ImageTile::FloatImage); } catch (const std::exception&) { refused = true; } c.check(refused, "hdu-refused", "an HDU past the end was opened; " + trace); }
  c.sig(trace + std::to_string(c.kase));
  if (c.kase < 2) c.sample(trace);
}

SECTION(broken, 150, 3000) {
  Dir d; auto& r = c.rng; auto f = d / "b.fits";
  TileManager::getInstance()->setOptions(32, 32, 10);
  auto tryAll = [&](const std::string& name, int hdu, std::vector<double>* out) -> bool {
    try {
      auto s = std::make_shared<FitsImageSource>(name, hdu, ImageTile::DoubleImage);
      if (s->getWidth() < 1 || s->getHeight() < 1) return true;  // nothing to read
      auto t = s->getImageTile(0, 0, s->getWidth(), s->getHeight());
      if (out) for (int y = 0; y < s->getHeight(); ++y) for (int x = 0; x < s->getWidth(); ++x) out->push_back(t->getValue<double>(x, y));
      return true;
    } catch (const std::exception&) { return false; }
  };
  int kind = r.i(0, 7);
  Hdu h = randomImage(r, false); h.axes = {r.i(5, 80), r.i(5, 80)}; h.bitpix = -32; h.bzero = 0; h.bscale = 1; h.data.clear(); h.phys.clear();
  for (int k = 0; k < h.axes[0] * h.axes[1]; ++k) { float v = r.i(1, 100000); uint32_t u; memcpy(&u, &v, 4); put(h.data, u, 4); h.phys.push_back(v); }
  std::vector<Hdu> hs; if (r.p(.4)) hs.push_back(emptyPrimary()); hs.push_back(h); int hdu = hs.size();
  auto good = fileBytes(hs); std::string what;
  bool must = true;
  switch (kind) {
    case 0: what = "missing"; if (r.p(.5)) f = d / "no/such/dir.fits"; break;
    case 1: what = "empty"; writeBytes(f, ""); break;
    case 2: { what = "directory"; fs::create_directories(f); break; }
    case 3: { what = "text"; std::string s; for (int k = r.i(1, 9000); k > 0; --k) s += static_cast<char>(r.p(.1) ? '\n' : r.i(32, 126)); writeBytes(f, s); break; }
    case 4: case 5: { // truncated: either refused, or what is returned is what the whole file has
      size_t header = good.size() - (h.data.size() + 2879) / 2880 * 2880;
      size_t at = r.p(.3) ? static_cast<size_t>(r.i(1, static_cast<int>(header))) : header + r.i(0, static_cast<int>(h.data.size()));
      what = vh::fmt("truncated at %zu (data %zu..%zu)", at, header, header + h.data.size());
      writeBytes(f, good.substr(0, at)); must = at < header + h.data.size();
      break;
    }
    case 6: { what = "random bytes"; std::string s; for (int k = r.i(1, 9000); k > 0; --k) s += static_cast<char>(r.u64()); writeBytes(f, s); break; }
    default: { // damaged header: no crash, nothing else expected
      auto b = good; size_t header = good.size() - (h.data.size() + 2879) / 2880 * 2880; for (int k = r.i(1, 6); k > 0; --k) b[r.i(0, static_cast<int>(header) - 1)] = static_cast<char>(r.p(.7) ? r.i(32, 126) : r.i(0, 255)); what = "damaged header"; writeBytes(f, b); must = false;
      // keep the declared size within reason
      std::vector<RHdu> hh; std::string why; if (!parse(b, hh, why)) { c.counter("unparsable damaged headers"); }
    }
  }
  std::vector<double> got; bool opened = tryAll(f, kind >= 4 && kind != 6 ? hdu : 0, &got);
  if (must) c.check(!opened, "broken-refused", "a file that is " + what + " was read without an error");
  else if (kind <= 5) { c.check(opened && got == h.phys, "broken-same", "the file " + what + " reads differently"); }
  if (opened && kind <= 5 && must) { size_t bad = 0; while (bad < got.size() && got[bad] == h.phys[bad]) ++bad; c.fail("broken-invented", vh::fmt("%s: %zu pixels, the first wrong one is %zu", what.c_str(), got.size(), bad)); }
  if (kind <= 1) { bool refused = false; try { FitsReader<float>::readFile(f)->getChunk(0, 0, 1, 1); } catch (const std::exception&) { refused = true; } c.check(refused, "broken-refused", what + ": FitsReader accepted it"); }
  if (kind == 0) { bool refused = false; try { FitsWriter::newImage<float>(d / "no/such/dir.fits", 4, 4); } catch (const std::exception&) { refused = true; } c.check(refused, "write-refused", "a file in a directory that does not exist was created without an error"); }
  c.counter(std::string("broken kind ") + std::to_string(kind)); c.counter(opened ? "opened" : "refused");
  c.sig(what);
}

SECTION(temporary, 20, 200) {
  auto& r = c.rng; Dir d;
  TileManager::getInstance()->setOptions(r.i(4, 30), r.i(4, 30), r.p(.5) ? 0 : 10);
  std::vector<std::string> paths;
  {
    std::vector<std::shared_ptr<TemporaryFitsImageSource>> srcs; std::vector<std::shared_ptr<WriteableBufferedImage<float>>> imgs; std::vector<std::vector<float>> model; std::vector<std::pair<int, int>> size;
    for (int k = 0; k < 3; ++k) {
      int w = r.i(1, 60), h = r.i(1, 60); srcs.push_back(r.p(.5) ? std::make_shared<TemporaryFitsImageSource>(w, h, ImageTile::FloatImage) : std::make_shared<TemporaryFitsImageSource>("vh_%%%%%%.fits", w, h, ImageTile::FloatImage));
      paths.push_back(srcs.back()->getFullPath()); imgs.push_back(WriteableBufferedImage<float>::create(srcs.back())); model.emplace_back(w * h, 0.f); size.push_back({w, h});
    }
    c.check(paths[0] != paths[1] && paths[1] != paths[2] && paths[0] != paths[2], "temporary-distinct", "two temporary images share a file");
    for (int k = 0; k < 250; ++k) { int q = r.i(0, 2), x = r.i(0, size[q].first - 1), y = r.i(0, size[q].second - 1); if (r.p(.5)) { float v = r.i(0, 99999); imgs[q]->setValue(x, y, v); model[q][x + y * size[q].first] = v; } else { auto v = imgs[q]->getChunk(x, y, 1, 1)->getValue(0, 0); if (!c.check(v == model[q][x + y * size[q].first], "temporary-pixels", vh::fmt("pixel %d,%d of temporary image %d reads %g", x, y, q, v))) return; } }
    for (auto& p : paths) c.check(fs::exists(p), "temporary-exists", "the temporary file does not exist while in use");
    TileManager::getInstance()->flush();
    for (size_t q = 0; q < 3; ++q) { auto ch = imgs[q]->getChunk(0, 0, size[q].first, size[q].second); for (int y = 0; y < size[q].second; ++y) for (int x = 0; x < size[q].first; ++x) if (ch->getValue(x, y) != model[q][x + y * size[q].first]) { c.fail("temporary-pixels", "a pixel is wrong after flushing"); return; } c.count(model[q].size()); }
    TileManager::getInstance()->flush();
  }
  for (auto& p : paths) c.check(!fs::exists(p), "temporary-removed", "temporary file " + p + " is left behind");
  c.sig(std::to_string(c.kase));
}

// readers of several HDUs of one file, and a writer of another file, at the same time
SECTION(concurrent, 8, 80) {
  Dir d; auto& r = c.rng; auto f = d / "c.fits";
  TileManager::getInstance()->setOptions(r.i(4, 16), r.i(4, 16), r.p(.5) ? 0 : 10);
  std::vector<Hdu> hs; for (int k = 0; k < 3; ++k) { auto h = randomImage(r, false); hs.push_back(h); }
  writeBytes(f, fileBytes(hs));
  std::vector<std::shared_ptr<Image<float>>> imgs; for (int k = 0; k < 3; ++k) imgs.push_back(BufferedImage<float>::create(std::make_shared<FitsImageSource>(f, k + 1, ImageTile::FloatImage)));
  auto out = FitsWriter::newImage<float>(d / "o.fits", 40, 40);
  std::atomic<int> bad{0}; std::atomic<uint64_t> reads{0}; std::string err; std::mutex em;
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t) { uint64_t seed = r.u64(); ts.emplace_back([&, seed, t] {
    vh::Rng q(seed);
    try {
      for (int k = 0; k < 150; ++k) {
        int i = q.i(0, 2); auto& h = hs[i]; int w = h.axes[0], hg = h.axes[1], x = q.i(0, w - 1), y = q.i(0, hg - 1), ww = q.i(1, w - x), hh = q.i(1, hg - y);
        auto ch = imgs[i]->getChunk(x, y, ww, hh); ++reads;
        for (int b = 0; b < hh; ++b) for (int a = 0; a < ww; ++a) if (!same<float>(ch->getValue(a, b), static_cast<float>(h.phys[(x + a) + (y + b) * w]))) ++bad;
        if (t == 0) out->setValue(k % 40, k / 40, k);
        if (q.p(.02)) { FitsImageSource s(f, i + 1, ImageTile::FloatImage); if (s.getWidth() != w) ++bad; }
      }
    } catch (const std::exception& e) { std::lock_guard<std::mutex> l(em); err = e.what(); }
  }); }
  for (auto& t : ts) t.join();
  c.check(err.empty(), "concurrent-error", "a reader failed: " + err);
  c.check(bad == 0, "concurrent-pixels", vh::fmt("%d wrong pixels read by concurrent readers", bad.load()));
  c.counter("concurrent reads", reads); out.reset(); imgs.clear();
  TileManager::getInstance()->flush();
  auto back = FitsReader<float>::readFile(d / "o.fits"); for (int k = 0; k < 150; ++k) if (back->getChunk(k % 40, k / 40, 1, 1)->getValue(0, 0) != k) { c.fail("concurrent-written", vh::fmt("pixel %d of the written image is lost", k)); break; }
  c.sig(std::to_string(c.kase));
}
VH_MAIN
