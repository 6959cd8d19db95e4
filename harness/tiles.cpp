// C06 (and, built with TSan, C21): tiled cached images against a plain array, over histories of reads, writes, evictions and flushes.
#include "vh.h"
#include <atomic>
#include <condition_variable>
#include <thread>
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/ImageSource.h"
#include "SEFramework/Image/ImageTile.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/WriteableBufferedImage.h"
#include "SEImplementation/Image/LockedWriteableImage.h"

using namespace SourceXtractor;

template <typename T>
struct MemSource : ImageSource, std::enable_shared_from_this<MemSource<T>> {
  int w, h; bool writable, slow;
  mutable std::mutex m; std::vector<T> data;
  std::atomic<uint64_t> saves{0}; std::atomic<int> fail_saves{0}; mutable std::atomic<uint64_t> loads{0}, reload{0}; mutable std::atomic<int> inflight{0}; mutable std::atomic<bool> overlapped{false}, outside{false};
  mutable std::map<std::pair<int, int>, int> per_tile; mutable std::vector<std::weak_ptr<ImageTile>> alive;
  MemSource(int w_, int h_, bool wr, bool s) : w(w_), h(h_), writable(wr), slow(s), data(static_cast<size_t>(w_) * h_) {}
  std::string getRepr() const override { return "MemSource"; }
  int getWidth() const override { return w; }
  int getHeight() const override { return h; }
  ImageTile::ImageType getType() const override { return ImageTile::getTypeValue(T()); }
  std::shared_ptr<ImageTile> getImageTile(int x, int y, int tw, int th) const override {
    if (++inflight > 1) overlapped = true;
    if (slow) std::this_thread::sleep_for(std::chrono::microseconds(30));
    if (x < 0 || y < 0 || tw <= 0 || th <= 0 || x + tw > w || y + th > h) { outside = true; --inflight; throw std::runtime_error("tile outside of the source"); }
    auto t = ImageTile::create(getType(), x, y, tw, th, std::const_pointer_cast<MemSource<T>>(this->shared_from_this()));
    {
      std::lock_guard<std::mutex> l(m);
      T* p = static_cast<T*>(t->getDataPtr());
      for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) p[i + static_cast<size_t>(j) * tw] = data[x + i + static_cast<size_t>(y + j) * w];
      if (++per_tile[{x, y}] > 1) ++reload;
      alive.push_back(t);
    }
    ++loads; --inflight;
    return t;
  }
  void saveTile(ImageTile& t) override {
    if (fail_saves > 0) { --fail_saves; throw std::runtime_error("injected: device full"); }
    ++saves; std::lock_guard<std::mutex> l(m);
    T* p = static_cast<T*>(t.getDataPtr());
    for (int j = 0; j < t.getHeight(); ++j) for (int i = 0; i < t.getWidth(); ++i) data[t.getPosX() + i + static_cast<size_t>(t.getPosY() + j) * w] = p[i + static_cast<size_t>(j) * t.getWidth()];
  }
  long aliveBytes() const { std::lock_guard<std::mutex> l(m); long n = 0; for (auto& a : alive) if (auto t = a.lock()) n += t->getTileMemorySize(); alive.erase(std::remove_if(alive.begin(), alive.end(), [](const std::weak_ptr<ImageTile>& p) { return p.expired(); }), alive.end()); return n; }
};

struct Any {
  virtual ~Any() = default;
  virtual void read(vh::Ctx& c, bool whole) = 0;
  virtual void accessor(vh::Ctx& c) = 0;
  virtual void write(vh::Ctx& c, int n) = 0;
  virtual void backing(vh::Ctx& c, const char* key) = 0;
  virtual void untouched(vh::Ctx& c) = 0;
  virtual long bytes() = 0;
  virtual size_t pixels() = 0;
  virtual uint64_t loads() = 0;
  virtual uint64_t reloads() = 0;
};

template <typename T>
struct Img : Any {
  std::shared_ptr<MemSource<T>> src; std::vector<T> model;
  std::shared_ptr<BufferedImage<T>> a, b; std::vector<std::shared_ptr<WriteableImage<T>>> writers; std::shared_ptr<TileManager> tm;
  bool writable;
  std::vector<std::tuple<std::shared_ptr<ImageChunk<T>>, int, int>> kept;
  T val(vh::Ctx& c) { return static_cast<T>(c.rng.i(std::is_unsigned<T>::value ? 0 : -1000000, 1000000)); }
  Img(vh::Ctx& c, std::shared_ptr<TileManager> t, int w, int h, bool wr) : tm(t), writable(wr) {
    src = std::make_shared<MemSource<T>>(w, h, wr, false);
    for (auto& x : src->data) x = val(c);
    model = src->data;
    a = BufferedImage<T>::create(src, t); b = BufferedImage<T>::create(src, t);
    if (wr) { for (int i = c.rng.i(1, 2); i > 0; --i) writers.push_back(WriteableBufferedImage<T>::create(src, t)); }
  }
  std::shared_ptr<Image<T>> reader(vh::Ctx& c) { if (!writers.empty() && c.rng.p(0.4)) return c.rng.pick(writers); return c.rng.p(0.5) ? a : b; }
  void compare(vh::Ctx& c, const ImageChunk<T>& ch, int x, int y, const char* key) {
    for (int j = 0; j < ch.getHeight(); ++j) for (int i = 0; i < ch.getWidth(); ++i) {
      T g = ch.getValue(i, j), r = model[x + i + static_cast<size_t>(y + j) * src->w];
      if (!c.checkf(g == r, key, [&] { return vh::fmt("%dx%d image, tiles %dx%d: pixel (%d,%d) of chunk (%d,%d)+%dx%d reads %g, last written %g", src->w, src->h, tm->getTileWidth(), tm->getTileHeight(), x + i, y + j, x, y, ch.getWidth(), ch.getHeight(), double(g), double(r)); })) return;
    }
  }
  void read(vh::Ctx& c, bool whole) override {
    int w = whole ? src->w : c.rng.i(1, std::min(src->w, c.rng.p(0.5) ? 6 : 80)), h = whole ? src->h : c.rng.i(1, std::min(src->h, c.rng.p(0.5) ? 6 : 80)), x = c.rng.i(0, src->w - w), y = c.rng.i(0, src->h - h);
    auto im = reader(c); auto ch = im->getChunk(x, y, w, h);
    if (!c.check(ch->getWidth() == w && ch->getHeight() == h, "chunk-size", "size of a chunk")) return;
    compare(c, *ch, x, y, "read");
    // a chunk of a read-only image stays valid and constant whatever happens to its tile
    if (!writable) { if (kept.size() < 6) kept.emplace_back(ch, x, y); for (auto& k : kept) if (c.rng.p(0.2)) compare(c, *std::get<0>(k), std::get<1>(k), std::get<2>(k), "kept-chunk"); }
  }
  void accessor(vh::Ctx& c) override {
    using A = ImageAccessor<T>;
    A acc(reader(c), c.rng.p(0.5) ? A::CENTERED : A::BOTTOM_RIGHT, c.rng.i(1, 30), c.rng.i(1, 30));
    for (int k = 0; k < 12; ++k) { int x = c.rng.i(0, src->w - 1), y = c.rng.i(0, src->h - 1); T g = acc.getValue(x, y), r = model[x + static_cast<size_t>(y) * src->w]; c.checkf(g == r, "read", [&] { return vh::fmt("accessor at (%d,%d): %g, last written %g", x, y, double(g), double(r)); }); }
  }
  void write(vh::Ctx& c, int n) override {
    if (writers.empty()) return;
    int x = c.rng.i(0, src->w - 1), y = c.rng.i(0, src->h - 1); auto& wr = c.rng.pick(writers);
    for (int k = 0; k < n; ++k) {
      T v = val(c); wr->setValue(x, y, v); model[x + static_cast<size_t>(y) * src->w] = v;
      if (c.rng.p(0.7)) { x = std::min(std::max(x + c.rng.i(-1, 1), 0), src->w - 1); y = std::min(std::max(y + c.rng.i(-1, 1), 0), src->h - 1); } else { x = c.rng.i(0, src->w - 1); y = c.rng.i(0, src->h - 1); }
    }
  }
  void backing(vh::Ctx& c, const char* key) override {
    for (size_t i = 0; i < model.size(); ++i) if (!c.checkf(src->data[i] == model[i], key, [&] { return vh::fmt("backing store at (%zu,%zu) of %dx%d holds %g, last written %g", i % src->w, i / src->w, src->w, src->h, double(src->data[i]), double(model[i])); })) return;
  }
  void untouched(vh::Ctx& c) override { c.check(writable || src->saves == 0, "read-only-saved", "a tile that was only read was written back"); c.check(!src->overlapped, "source-reentered", "two tiles of one source were requested at once"); c.check(!src->outside, "tile-outside", "a tile outside of the source was requested"); }
  long bytes() override { return src->aliveBytes(); }
  size_t pixels() override { return model.size() * sizeof(T); }
  uint64_t loads() override { return src->loads; }
  uint64_t reloads() override { return src->reload; }
};

static std::unique_ptr<Any> mk(vh::Ctx& c, std::shared_ptr<TileManager> tm, int w, int h, bool wr) {
  switch (c.rng.i(0, 4)) {
  case 0: return std::make_unique<Img<float>>(c, tm, w, h, wr);
  case 1: return std::make_unique<Img<double>>(c, tm, w, h, wr);
  case 2: return std::make_unique<Img<int>>(c, tm, w, h, wr);
  case 3: return std::make_unique<Img<unsigned int>>(c, tm, w, h, wr);
  default: return std::make_unique<Img<std::int64_t>>(c, tm, w, h, wr);
  }
}

// small images, everything evicted at once or nothing evicted at all
static void history(vh::Ctx& c, bool big) {
  auto tm = std::make_shared<TileManager>();
  auto tdim = [&] { return big ? c.rng.i(40, 140) : c.rng.p(0.2) ? 1 : c.rng.i(2, 16); };
  long limit = big ? c.rng.i(0, 1) : (c.rng.p(0.5) ? 0 : 100);
  auto opts = [&] { tm->setOptions(tdim(), tdim(), static_cast<int>(limit)); };
  opts();
  std::vector<std::unique_ptr<Any>> im;
  int n = big ? 3 : c.rng.i(1, 4);
  for (int i = 0; i < n; ++i) im.push_back(mk(c, tm, big ? c.rng.i(300, 700) : c.rng.i(1, 40), big ? c.rng.i(300, 700) : c.rng.i(1, 40), c.rng.p(0.6)));
  bool changed = false; std::string trace;
  auto limitHeld = [&] { long t = 0; for (auto& i : im) t += i->bytes(); c.checkf(t <= limit * 1024 * 1024, "memory-limit", [&] { return vh::fmt("%ld bytes of tiles alive, limit %ld MB", t, limit); }); };
  int steps = big ? 60 : c.rng.i(10, 80);
  for (int s = 0; s < steps; ++s) {
    auto& i = im[c.rng.i(0, n - 1)]; int op = c.rng.i(0, 19);
    if (op < 8) { i->read(c, !big && c.rng.p(0.1)); trace += 'r'; }
    else if (op < 10) { i->accessor(c); trace += 'a'; }
    else if (op < 17) { i->write(c, c.rng.p(0.5) ? 1 : c.rng.i(2, 40)); trace += 'w'; }
    else if (op == 17) { tm->flush(); for (auto& k : im) k->backing(c, "backing-after-flush"); trace += 'f'; }
    else if (op == 18) { tm->saveAllTiles(); for (auto& k : im) k->backing(c, "backing-after-save"); trace += 's'; }
    else if (c.rng.p(0.5)) { if (c.rng.p(0.4)) limit = limit ? 0 : (big ? 1 : 100); opts(); changed = true; for (auto& k : im) k->backing(c, "backing-after-flush"); trace += 'o'; }
    limitHeld();
  }
  for (auto& k : im) k->read(c, true);
  // with room for everything and no flush, every tile comes from the source once
  if (!big && limit == 100 && !changed && trace.find_first_of("f") == std::string::npos)
    for (auto& k : im) c.check(k->reloads() == 0, "tile-reloaded", "a tile was loaded twice although everything fits in the cache");
  tm->flush();
  for (auto& k : im) { k->backing(c, "backing-after-flush"); k->untouched(c); c.counter("tiles_loaded", k->loads()); c.counter("tiles_reloaded", k->reloads()); }
  c.sig(vh::fmt("%d %ld ", n, limit) + trace); c.sample(trace);
}
SECTION(history, 700, 40000) { history(c, false); }
SECTION(history_big, 24, 500) { history(c, true); }

// a save that fails loses nothing: the writes stay readable and a later flush stores them
SECTION(save_faults, 300, 15000) {
  auto tm = std::make_shared<TileManager>();
  tm->setOptions(c.rng.i(2, 16), c.rng.i(2, 16), c.rng.p(0.6) ? 0 : 100);
  int w = c.rng.i(2, 40), h = c.rng.i(2, 40);
  auto src = std::make_shared<MemSource<float>>(w, h, true, false);
  for (auto& x : src->data) x = c.rng.i(-1000, 1000);
  auto model = src->data;
  auto im = WriteableBufferedImage<float>::create(src, tm);
  int thrown = 0; std::string trace;
  auto guarded = [&](auto f) { int before = src->fail_saves; try { f(); return true; } catch (const std::exception& e) { ++thrown; trace += '!'; c.check(before > src->fail_saves, "unexpected-error", std::string("threw without a fault: ") + e.what()); return false; } };
  for (int s = c.rng.i(10, 60); s > 0; --s) {
    if (c.rng.p(0.15)) src->fail_saves = c.rng.i(1, 3);
    int op = c.rng.i(0, 9), x = c.rng.i(0, w - 1), y = c.rng.i(0, h - 1); auto& ref = model[x + static_cast<size_t>(y) * w];
    if (op < 5) {
      float v = c.rng.i(-1000, 1000);
      if (!guarded([&] { im->setValue(x, y, v); })) {
        src->fail_saves = 0; float g = im->getChunk(x, y, 1, 1)->getValue(0, 0);
        c.checkf(g == v || g == ref, "write-after-fault", [&] { return vh::fmt("pixel is %g, neither the old %g nor the new %g", g, ref, v); }); ref = g;
      } else ref = v;
      trace += 'w';
    } else if (op < 8) {
      float g = 0; if (guarded([&] { g = im->getChunk(x, y, 1, 1)->getValue(0, 0); })) c.checkf(g == ref, "read-after-fault", [&] { return vh::fmt("pixel (%d,%d) reads %g, last written %g (trace %s)", x, y, g, ref, trace.c_str()); });
      trace += 'r';
    } else if (op == 8) { guarded([&] { tm->flush(); }); trace += 'f'; }
    else { guarded([&] { tm->saveAllTiles(); }); trace += 's'; }
  }
  src->fail_saves = 0; tm->flush();
  for (size_t i = 0; i < model.size(); ++i) if (!c.checkf(src->data[i] == model[i], "lost-after-fault", [&] { return vh::fmt("after faults and a flush that succeeded the backing store holds %g at (%zu,%zu), last written %g (trace %s)", src->data[i], i % w, i / w, model[i], trace.c_str()); })) break;
  c.counter("injected_faults_seen", thrown); c.sig(trace);
}

// the manager's destruction writes back what is left
SECTION(destruction, 60, 1500) {
  std::unique_ptr<Any> im;
  auto tm = std::make_shared<TileManager>(); tm->setOptions(c.rng.i(1, 9), c.rng.i(1, 9), 10);
  auto i = std::make_unique<Img<int>>(c, tm, c.rng.i(1, 30), c.rng.i(1, 30), true);
  i->write(c, 50); i->read(c, true);
  i->a.reset(); i->b.reset(); i->writers.clear(); i->tm.reset(); tm.reset();
  i->backing(c, "backing-after-destruction");
  c.sig(vh::fmt("%d %d", i->src->w, i->src->h));
}

template <typename T, typename U> static void conv(vh::Ctx& c, const char* what) {
  int x0 = c.rng.i(0, 100), y0 = c.rng.i(0, 100), w = c.rng.i(1, 20), h = c.rng.i(1, 20);
  auto t = ImageTile::create(ImageTile::getTypeValue(T()), x0, y0, w, h);
  c.check(t->getType() == ImageTile::getTypeValue(T()) && t->getPosX() == x0 && t->getPosY() == y0 && t->getWidth() == w && t->getHeight() == h, "tile-geometry", what);
  c.check(t->getTileMemorySize() == static_cast<int>(w * h * sizeof(T)) && ImageTile::getTypeSize(t->getType()) == sizeof(T), "tile-memory", what);
  std::map<std::pair<int, int>, double> m;
  for (int k = 0; k < 30; ++k) {
    int x = x0 + c.rng.i(0, w - 1), y = y0 + c.rng.i(0, h - 1); double v = c.rng.i(0, 1000000);
    if (std::is_floating_point<T>::value && std::is_floating_point<U>::value) v += 0.5; if (!std::is_unsigned<T>::value && !std::is_unsigned<U>::value && c.rng.p(0.5)) v = -v;
    t->setValue(x, y, static_cast<U>(v)); m[{x, y}] = v;
  }
  for (auto& e : m) {
    double g = static_cast<double>(t->template getValue<U>(e.first.first, e.first.second)), g2 = static_cast<double>(t->template getValue<T>(e.first.first, e.first.second)), g3 = static_cast<double>(static_cast<T*>(t->getDataPtr())[e.first.first - x0 + (e.first.second - y0) * w]);
    c.checkf(g == e.second && g2 == e.second && g3 == e.second, "tile-value", [&] { return vh::fmt("%s tile at (%d,%d)+%dx%d: pixel (%d,%d) reads %g/%g/%g, written %g", what, x0, y0, w, h, e.first.first, e.first.second, g, g2, g3, e.second); });
  }
  for (int k = 0; k < 40; ++k) { int x = x0 + c.rng.i(-2, w + 1), y = y0 + c.rng.i(-2, h + 1); c.check(t->isPixelInTile(x, y) == (x >= x0 && y >= y0 && x < x0 + w && y < y0 + h), "pixel-in-tile", what); }
}
template <typename T> static void conv1(vh::Ctx& c, const char* n) { conv<T, float>(c, n); conv<T, double>(c, n); conv<T, int>(c, n); conv<T, unsigned>(c, n); conv<T, std::int64_t>(c, n); }
SECTION(tile_types, 40, 1000) { conv1<float>(c, "float"); conv1<double>(c, "double"); conv1<int>(c, "int"); conv1<unsigned>(c, "uint"); conv1<std::int64_t>(c, "int64"); c.sig(std::to_string(c.kase)); }

// readers and writers in many threads; every writer owns its rows
static void storm(vh::Ctx& c, int threads, int rounds) {
  auto tm = std::make_shared<TileManager>();
  int limit = c.rng.i(0, 1); tm->setOptions(c.rng.i(4, 40), c.rng.i(4, 40), limit);
  int nimg = c.rng.i(1, 3), w = c.rng.i(40, 300), h = c.rng.i(40, 300);
  std::vector<std::shared_ptr<MemSource<float>>> src; std::vector<std::shared_ptr<BufferedImage<float>>> im;
  auto pat = [](int k, int x, int y) { return static_cast<float>(k * 1000003 % 977 + x * 7 + y * 1013 % 7919); };
  for (int k = 0; k < nimg; ++k) {
    src.push_back(std::make_shared<MemSource<float>>(w, h, false, c.rng.p(0.5)));
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) src.back()->data[x + static_cast<size_t>(y) * w] = pat(k, x, y);
    im.push_back(BufferedImage<float>::create(src.back(), tm));
  }
  auto wsrc = std::make_shared<MemSource<int>>(w, h, true, c.rng.p(0.3)); auto wimg = WriteableBufferedImage<int>::create(wsrc, tm);
  std::vector<int> expect(static_cast<size_t>(w) * h, 0); int nw = std::min(3, threads / 2);
  std::atomic<bool> go{false}; std::atomic<uint64_t> bad{0}, reads{0}, writes{0}; std::mutex bm; std::string first;
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t, seed = c.rng.u64()] {
    vh::Rng r(seed); while (!go) std::this_thread::yield();
    for (int k = 0; k < rounds; ++k) {
      if (t < nw) {
        auto lw = LockedWriteableImage<int>::create(wimg);
        int y = r.i(0, h - 1); y -= y % nw; y += t; if (y >= h) y = t;
        for (int q = r.i(1, 20); q > 0; --q) { int x = r.i(0, w - 1), v = r.i(1, 1 << 30); lw->setValue(x, y, v); expect[x + static_cast<size_t>(y) * w] = v; ++writes; }
      }
      if (t >= nw || r.p(0.3)) {
        int i = r.i(0, nimg - 1), cw = r.i(1, std::min(w, 60)), ch = r.i(1, std::min(h, 60)), x = r.i(0, w - cw), y = r.i(0, h - ch); auto chunk = im[i]->getChunk(x, y, cw, ch); ++reads;
        for (int q = 0; q < 10; ++q) { int a = r.i(0, cw - 1), b = r.i(0, ch - 1); float g = chunk->getValue(a, b); if (g != pat(i, x + a, y + b)) { ++bad; std::lock_guard<std::mutex> l(bm); if (first.empty()) first = vh::fmt("image %d pixel (%d,%d) reads %g, source has %g", i, x + a, y + b, g, pat(i, x + a, y + b)); } }
      }
    }
  });
  go = true; for (auto& t : ts) t.join();
  c.checkf(bad == 0, "concurrent-read", [&] { return first; }); c.count(reads * 10);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { size_t i = x + static_cast<size_t>(y) * w; }
  auto back = wimg->getChunk(0, 0, w, h);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { size_t i = x + static_cast<size_t>(y) * w; c.checkf(back->getValue(x, y) == expect[i], "concurrent-write-lost", [&] { return vh::fmt("after concurrent writes and evictions pixel (%d,%d) reads %d, last written %d", x, y, back->getValue(x, y), expect[i]); }); }
  back.reset(); wimg.reset(); tm->flush();
  for (size_t i = 0; i < expect.size(); ++i) c.checkf(wsrc->data[i] == expect[i], "concurrent-write-lost", [&] { return vh::fmt("after flush the backing store has %d at (%zu,%zu), last written %d", wsrc->data[i], i % w, i / w, expect[i]); });
  for (auto& s : src) { c.check(!s->overlapped, "source-reentered", "two tiles of one source were requested at once"); c.check(s->saves == 0, "read-only-saved", "read-only source written"); long b = s->aliveBytes(); c.check(b == 0, "memory-limit", vh::fmt("%ld bytes of tiles alive after a flush", b)); if (limit && size_t(w) * h * 4 * nimg + size_t(w) * h * 4 < 900000) c.check(s->reload == 0, "tile-reloaded", "a tile was loaded twice although everything fits in the cache"); c.counter("tiles_loaded", s->loads); c.counter("tiles_reloaded", s->reload); }
  c.counter("concurrent_reads", reads); c.counter("concurrent_writes", writes);
  c.sig(vh::fmt("%d %d %d %d %d", threads, w, h, limit, nimg));
}
SECTION(storm, 48, 1500) { storm(c, c.rng.i(2, 8), 150); }

VH_MAIN
