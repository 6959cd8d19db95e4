// C19: rows, buffering and parts of the catalogue against a plain record of what was registered and handed over.
#include "vh.h"
#include <fstream>
#include <boost/filesystem.hpp>
#include "SEFramework/Output/OutputRegistry.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/ImageSource.h"
#include "SEImplementation/Output/AsciiOutput.h"
#include "SEImplementation/Output/FitsOutput.h"
#include "SEImplementation/Output/FlushableOutput.h"
#include "SEImplementation/Output/LdacOutput.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"

using namespace SourceXtractor;
using Euclid::Table::Row;
namespace fs = boost::filesystem;

template <int K> struct P : Property { explicit P(long v_) : v(v_) {} long v; };
using Cell = Row::cell_type;
// conversion number n of a value
static Cell convert(int type, long v, int n) {
  long x = v * 31 + n;
  switch (type) {
    case 0: return static_cast<int32_t>(x);
    case 1: return static_cast<int64_t>(x) * 1000003;
    case 2: return static_cast<float>(x) / 8;
    case 3: return static_cast<double>(x) / 7;
    case 4: return (x & 1) != 0;
    case 5: return std::string("s") + std::to_string(x);
    case 6: return std::vector<double>{x / 3., static_cast<double>(n)};
    case 7: return std::vector<int32_t>{static_cast<int32_t>(x), n, 7};
    default: { Euclid::NdArray::NdArray<float> a({2, 1}); a.at(0, 0) = x; a.at(1, 0) = n; return a; }
  }
}
static const std::vector<std::type_index>& types() { static std::vector<std::type_index> t{typeid(int32_t), typeid(int64_t), typeid(float), typeid(double), typeid(bool), typeid(std::string), typeid(std::vector<double>), typeid(std::vector<int32_t>), typeid(Euclid::NdArray::NdArray<float>)}; return t; }
static std::string str(const Cell& c) { return std::to_string(c.which()) + ":" + boost::apply_visitor(Euclid::Table::vshim::Str{}, c); }

struct Kind {
  std::function<void(OutputRegistry&, const std::string&, int, int, const std::string&, const std::string&)> column;
  std::function<void(OutputRegistry&, const std::vector<std::pair<std::string, unsigned>>&)> instances;
  std::function<void(OutputRegistry&, const std::string&, const std::vector<std::pair<std::string, unsigned>>&)> named;
  std::function<void(OutputRegistry&, const std::string&, bool)> enable;
  std::function<void(SourceInterface&, unsigned, long)> set;
};
template <int K, typename T> static void reg(OutputRegistry& r, const std::string& name, int type, int n, const std::string& u, const std::string& d) {
  r.registerColumnConverter<P<K>, T>(name, [type, n](const P<K>& p) { return boost::get<T>(convert(type, p.v, n)); }, u, d);
}
template <int K> static Kind mk() {
  return {[](OutputRegistry& r, const std::string& name, int t, int n, const std::string& u, const std::string& d) {
            switch (t) { case 0: return reg<K, int32_t>(r, name, t, n, u, d); case 1: return reg<K, int64_t>(r, name, t, n, u, d); case 2: return reg<K, float>(r, name, t, n, u, d); case 3: return reg<K, double>(r, name, t, n, u, d); case 4: return reg<K, bool>(r, name, t, n, u, d);
              case 5: return reg<K, std::string>(r, name, t, n, u, d); case 6: return reg<K, std::vector<double>>(r, name, t, n, u, d); case 7: return reg<K, std::vector<int32_t>>(r, name, t, n, u, d); default: return reg<K, Euclid::NdArray::NdArray<float>>(r, name, t, n, u, d); } },
          [](OutputRegistry& r, const std::vector<std::pair<std::string, unsigned>>& i) { r.registerPropertyInstances<P<K>>(i); },
          [](OutputRegistry& r, const std::string& c, const std::vector<std::pair<std::string, unsigned>>& i) { r.registerPropertyInstances<P<K>>(c, i); },
          [](OutputRegistry& r, const std::string& a, bool conf) { r.enableOutput<P<K>>(a, conf); },
          [](SourceInterface& s, unsigned i, long v) { s.setIndexedProperty<P<K>>(i, v); }};
}
static const int NK = 6;
static const std::vector<Kind>& kinds() { static std::vector<Kind> k{mk<0>(), mk<1>(), mk<2>(), mk<3>(), mk<4>(), mk<5>()}; return k; }

struct Col { std::string name; int kind, type, n; unsigned index; std::string unit, desc; };
struct Model {
  std::map<int, std::vector<Col>> cols;                        // per kind, in order
  std::vector<std::pair<std::string, int>> aliases;            // in order
  std::vector<Col> selected(const std::vector<std::string>& names) const {
    std::vector<int> ks;
    for (auto& n : names) for (auto& a : aliases) if (a.first == n && std::find(ks.begin(), ks.end(), a.second) == ks.end()) ks.push_back(a.second);
    std::vector<Col> r; for (int k : ks) { auto it = cols.find(k); if (it != cols.end()) r.insert(r.end(), it->second.begin(), it->second.end()); } return r;
  }
};
struct World {
  OutputRegistry reg; Model m; int serial = 0; std::string log;
  std::shared_ptr<OutputRegistry> shared;
  explicit World(vh::Rng& g) {
    std::vector<int> order{0, 1, 2, 3, 4, 5}; g.shuffle(order); int use = g.i(1, NK); order.resize(use);
    for (int k : order) {
      int nc = g.i(1, 4);
      for (int q = 0; q < nc; ++q) {
        Col col{vh::fmt("c%d", serial), k, g.i(0, 8), serial, 0, g.p(.5) ? "u" + std::to_string(g.i(0, 9)) : "", g.p(.5) ? "text " + std::to_string(serial) : ""}; ++serial;
        kinds()[k].column(reg, col.name, col.type, col.n, col.unit, col.desc); m.cols[k].push_back(col); log += vh::fmt("column %s of %d type %d; ", col.name.c_str(), k, col.type);
      }
    }
    for (int k : order) {
      auto& cs = m.cols[k];
      if (g.p(.35)) {  // every column for several images
        std::vector<std::pair<std::string, unsigned>> in; int n = g.i(1, 3); std::vector<unsigned> ix{0, 1, 2, 3, 4}; g.shuffle(ix); for (int q = 0; q < n; ++q) in.push_back({vh::fmt("i%u", ix[q]), ix[q]});
        std::vector<Col> nw; for (auto& c : cs) for (auto& i : in) { Col d = c; d.name += "_" + i.first; d.index = i.second; nw.push_back(d); }
        kinds()[k].instances(reg, in); cs = nw; log += vh::fmt("%d instances of %d; ", n, k);
      } else if (g.p(.4)) {  // some columns under names of their own
        int times = g.i(1, static_cast<int>(cs.size())); std::vector<std::string> todo; for (auto& c : cs) todo.push_back(c.name); g.shuffle(todo); todo.resize(times);
        for (auto& name : todo) {
          size_t at = 0; while (cs[at].name != name) ++at; Col base = cs[at]; std::vector<std::pair<std::string, unsigned>> in; int n = g.i(1, 3); std::vector<unsigned> ix{0, 1, 2, 3, 4}; g.shuffle(ix);
          for (int q = 0; q < n; ++q) in.push_back({q == 0 && g.p(.3) ? name : vh::fmt("n%d", serial++), ix[q]});
          kinds()[k].named(reg, name, in); cs.erase(cs.begin() + at); for (auto& i : in) { Col d = base; d.name = i.first; d.index = i.second; cs.push_back(d); }
          log += name + vh::fmt(" named %d times; ", n);
        }
      }
      int al = g.i(1, 2); for (int q = 0; q < al; ++q) { std::string a = vh::fmt("Alias%d", g.i(0, 4)); kinds()[k].enable(reg, a, g.p(.2)); m.aliases.push_back({a, k}); log += a + vh::fmt("=%d; ", k); }
    }
  }
  std::vector<std::string> pick(vh::Rng& g) { std::vector<std::string> r; int n = g.i(1, 5); for (int q = 0; q < n; ++q) r.push_back(g.pick(m.aliases).first); return r; }
};
static void fill(SourceInterface& s, long tag) { for (int k = 0; k < NK; ++k) for (unsigned i = 0; i < 5; ++i) kinds()[k].set(s, i, tag * 100 + k * 10 + i); }
static long valueOf(const Col& c, long tag) { return tag * 100 + c.kind * 10 + c.index; }
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + ","; return r; }

SECTION(rows, 400, 20000) {
  auto& g = c.rng; World w(g);
  for (int rep = 0; rep < 3; ++rep) {
    auto names = w.pick(g); auto want = w.m.selected(names);
    auto what = [&] { return w.log + "selected " + join(names); };
    try {
      auto conv = w.reg.getSourceToRowConverter(names);
      for (int k = 0; k < 2; ++k) {
        long tag = g.i(-1000, 100000); SimpleSource s; fill(s, tag); auto row = conv(s); auto info = row.getColumnInfo();
        // exactly the columns, each once, with their types, units and texts
        std::map<std::string, int> seen; for (size_t i = 0; i < info->size(); ++i) seen[info->getDescription(i).name]++;
        bool ok = seen.size() == want.size() && info->size() == want.size(); for (auto& x : want) ok = ok && seen[x.name] == 1;
        if (!c.checkf(ok, "columns", [&] { std::string r; for (auto& s2 : seen) r += s2.first + vh::fmt("(%d) ", s2.second); std::string e; for (auto& x : want) e += x.name + " "; return what() + ": columns " + r + "instead of " + e; })) break;
        for (auto& x : want) {
          size_t i = *info->find(x.name); auto& d = info->getDescription(i); auto exp = convert(x.type, valueOf(x, tag), x.n);
          c.checkf(d.type == types()[x.type] && d.unit == x.unit && d.description == x.desc, "column-info", [&] { return what() + ": column " + x.name + " has type " + d.type.name() + " unit '" + d.unit + "' text '" + d.description + "'"; });
          c.checkf(str(row[i]) == str(exp), "values", [&] { return what() + ": column " + x.name + vh::fmt(" (instance %u) holds ", x.index) + str(row[i]) + " instead of " + str(exp); });
        }
      }
      c.sig(what().substr(0, 200));
    } catch (const std::exception& e) { c.fail("rows", what() + ": " + e.what()); }
  }
  bool refused = false; try { w.reg.getSourceToRowConverter({"Alias0x"}); } catch (const Elements::Exception&) { refused = true; } c.check(refused, "unknown-property", "an unknown output property is accepted");
  auto n = w.reg.getOutputPropertyNames(); std::set<std::string> e; for (auto& a : w.m.aliases) e.insert(a.first); c.check(n == e, "names", "getOutputPropertyNames differs: " + w.log);
}

struct Capture : FlushableOutput {
  using FlushableOutput::FlushableOutput; std::vector<std::vector<std::string>> batches; std::vector<size_t> parts{0};
  void nextPart() override { parts.push_back(0); }
  void writeRows(const std::vector<Row>& rows) override { std::vector<std::string> b; for (auto& r : rows) { std::string s; for (auto& x : r) s += str(x) + "|"; b.push_back(s); } batches.push_back(b); parts.back() += b.size(); }
};
static std::string rowText(const std::vector<Col>& cols, long tag) { std::string s; for (auto& x : cols) s += str(convert(x.type, valueOf(x, tag), x.n)) + "|"; return s; }

SECTION(flushing, 400, 20000) {
  auto& g = c.rng; World w(g); auto names = w.pick(g); auto cols = w.m.selected(names); if (cols.empty()) return;
  size_t fl = g.pick(std::vector<size_t>{0, 0, 1, 2, 3, 5, 7, 100}); Capture out(w.reg.getSourceToRowConverter(names), fl);
  std::vector<std::string> want; std::vector<size_t> parts{0}; long tag = 0; std::string log; size_t pending = 0; int n = g.i(1, 40);
  for (int k = 0; k < n; ++k) {
    double p = g.d();
    if (p < .8) { auto grp = std::make_unique<SimpleSourceGroup>(); int m = g.i(0, 6); for (int q = 0; q < m; ++q) { auto s = std::make_unique<SimpleSource>(); fill(*s, ++tag); grp->addSource(std::move(s)); }
      std::vector<long> order; for (long q = tag - m + 1; q <= tag; ++q) order.push_back(q); for (long q : order) want.push_back(rowText(cols, q)); parts.back() += m; pending += m; if (fl) pending %= fl; out.receiveSource(std::move(grp)); log += vh::fmt("group of %d; ", m); }
    else if (p < .9) { size_t r = out.flush(); pending = 0; c.checkf(r == want.size(), "flush-count", [&] { return vh::fmt("flush size %zu, %s: flush returns %zu of %zu rows", fl, log.c_str(), r, want.size()); }); log += "flush; "; }
    else { out.flush(); pending = 0; out.nextPart(); parts.push_back(0); log += "part; "; }
    size_t done = 0; for (auto& b : out.batches) done += b.size();
    c.checkf(done == want.size() - pending, "flush-size", [&] { return vh::fmt("flush size %zu, %s: %zu rows written of %zu", fl, log.c_str(), done, want.size()); });
  }
  out.flush(); size_t twice = out.flush();
  std::vector<std::string> got; for (auto& b : out.batches) { c.check(!b.empty(), "empty-batch", "an empty set of rows is written: " + log); got.insert(got.end(), b.begin(), b.end()); }
  c.checkf(got == want && twice == want.size(), "rows-written", [&] { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; return vh::fmt("flush size %zu, %s: %zu rows written of %zu, first difference at %zu", fl, log.c_str(), got.size(), want.size(), k); });
  c.checkf(out.parts == parts, "parts", [&] { return "rows are in the wrong part: " + log; });
  c.sig(log.substr(0, 100)); c.counter("rows", want.size());
}

// text written by the stand-in of the table writers
struct Part { std::string hdu; std::vector<std::string> columns, rows; };
static std::vector<Part> readParts(const std::string& f) {
  std::vector<Part> r; std::ifstream in(f); std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 5, "#HDU ") == 0) { r.push_back({}); std::istringstream s(l.substr(5)); std::string t; std::getline(s, r.back().hdu, '\t'); while (std::getline(s, t, '\t')) r.back().columns.push_back(t); }
    else if (l.compare(0, 6, "#TYPES") != 0 && !l.empty() && !r.empty()) r.back().rows.push_back(l);
  }
  return r;
}
SECTION(formats, 120, 3000) {
  auto& g = c.rng; World w(g); auto names = w.pick(g); auto cols = w.m.selected(names); if (cols.empty()) return;
  auto dir = fs::path(vh::scratch()) / vh::fmt("out-%d", getpid()); fs::create_directories(dir); auto file = (dir / "cat.fits").string();
  size_t fl = g.pick(std::vector<size_t>{0, 1, 2, 3, 7, 100}); int fmtN = g.i(0, 2); auto conv = w.reg.getSourceToRowConverter(names);
  auto text = [&](long tag) { std::string s; for (auto& x : cols) s += boost::apply_visitor(Euclid::Table::vshim::Str{}, convert(x.type, valueOf(x, tag), x.n)) + "\t"; return s; };
  std::vector<std::vector<long>> parts; std::string log = vh::fmt("format %d flush size %zu: ", fmtN, fl); std::vector<std::map<std::string, MetadataEntry>> metas; std::vector<double> gains; std::vector<float> rmss;
  if (g.p(.3)) std::ofstream(file) << "#HDU OLD\tx\nold\t\n";  // something left from before
  {
    std::shared_ptr<FlushableOutput> out;
    if (fmtN == 0) out = std::make_shared<AsciiOutput>(file, conv, fl); else if (fmtN == 1) out = std::make_shared<FitsOutput>(file, conv, fl); else { std::ofstream{file}; out = std::make_shared<LdacOutput>(file, conv, fl); }
    long tag = 0; int np = g.i(1, 4);
    for (int p = 0; p < np; ++p) {
      parts.push_back({}); std::map<std::string, MetadataEntry> meta; double gain = g.i(1, 100) / 4.; float rms = g.i(1, 1000) / 8.f; 
      for (int q = g.i(0, 4); q > 0; --q) { MetadataEntry e; int t = g.i(0, 3); if (t == 0) e.m_value = int64_t(g.i(-99, 99)); else if (t == 1) e.m_value = g.d(-360, 360); else if (t == 2) e.m_value = std::string(g.i(0, 68), 'x') ; else e.m_value = std::string("it's"); if (g.p(.5)) e.m_extra["comment"] = std::string(g.i(0, 70), 'c'); meta[vh::fmt("KEY%d", q)] = e; }
      metas.push_back(meta); gains.push_back(gain); rmss.push_back(rms);
      int n = g.p(.2) ? 0 : g.i(1, 12); log += vh::fmt("%d rows; ", n);
      for (int q = 0; q < n; ++q) { SimpleSource s; fill(s, ++tag); s.setProperty<DetectionFrameInfo>(10, 10, gain, 1e9, 1e9, rms, meta); 
        try { out->outputSource(s); } catch (const std::exception& e) { c.fail("output", log + e.what()); fs::remove_all(dir); return; } parts.back().push_back(tag); if (g.p(.05)) out->flush(); }
      out->flush(); out->nextPart();
    }
  }
  auto got = readParts(file); fs::remove_all(dir);
  std::vector<std::pair<std::string, std::vector<std::string>>> want;
  for (size_t p = 0; p < parts.size(); ++p) {
    if (parts[p].empty()) continue; std::vector<std::string> rows; for (long t : parts[p]) rows.push_back(text(t));
    std::string suffix = p ? vh::fmt("_%zu", p) : "";
    if (fmtN == 0) { if (want.empty()) want.push_back({"", {}}); for (auto& r : rows) want[0].second.push_back(r); } else if (fmtN == 1) want.push_back({"CATALOG" + suffix, rows}); else { want.push_back({"LDAC_IMHEAD" + suffix, {}}); want.push_back({"LDAC_OBJECTS" + suffix, rows}); }
  }
  std::vector<Part> seen; for (auto& p : got) if (p.hdu != "OLD") seen.push_back(p);
  if (parts.front().empty() == false || fmtN != 2) c.check(seen.size() == got.size(), "overwrite", log + "an old catalogue is still there");
  bool ok = seen.size() == want.size();
  std::string gotText, wantText; for (auto& p : seen) gotText += p.hdu + vh::fmt("(%zu) ", p.rows.size()); for (auto& p : want) wantText += p.first + vh::fmt("(%zu) ", p.second.size());
  for (size_t k = 0; ok && k < want.size(); ++k) {
    ok = (fmtN == 0 || seen[k].hdu == want[k].first);
    if (!ok) break;
    if (seen[k].hdu.compare(0, 11, "LDAC_IMHEAD") != 0) {
      c.checkf(seen[k].rows == want[k].second, "file-rows", [&] { return log + "part " + want[k].first + vh::fmt(" holds %zu rows, not the %zu handed over", seen[k].rows.size(), want[k].second.size()); });
      std::vector<std::string> cn; for (auto& x : cols) cn.push_back(x.name); auto a = cn, b = seen[k].columns; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.check(a == b, "file-columns", log + "columns " + join(seen[k].columns) + " instead of " + join(cn));
    } else {
      std::string h = seen[k].rows.empty() ? "" : seen[k].rows[0]; if (!h.empty()) h.pop_back();
      size_t p = k + 1 < want.size() ? 0 : 0; { std::string nm = want[k].first; auto u = nm.rfind('_'); p = nm == "LDAC_IMHEAD" ? 0 : std::stoul(nm.substr(u + 1)); }
      auto at = [&](const std::string& key) { for (size_t q = 0; q + 80 <= h.size(); q += 80) if (h.compare(q, 8, vh::fmt("%-8s", key.c_str())) == 0) return h.substr(q, 80); return std::string(); };
      c.check(h.size() % 80 == 0 && at("END").size() == 80, "ldac-header", log + "the image header is not made of cards of 80 characters");
      auto val = [&](const std::string& key) { auto s = at(key); return s.size() > 10 ? atof(s.substr(10).c_str()) : -1e300; };
      c.checkf(fabs(val("SPPGAIN") - gains[p]) < 1e-5 * gains[p] && fabs(val("SPPBKDEV") - rmss[p]) < 1e-5 * rmss[p], "ldac-values", [&] { return log + vh::fmt("part %zu: gain %g rms %g, header has ", p, gains[p], rmss[p]) + at("SPPGAIN") + at("SPPBKDEV"); });
      for (auto& m : metas[p]) {
        auto card = at(m.first); bool good = card.size() == 80;
        if (good) {
          auto body = card.substr(10);
          if (auto s = boost::get<std::string>(&m.second.m_value)) { std::string v; size_t q = 1; good = body[0] == '\''; while (good && q < body.size()) { if (body[q] == '\'') { if (q + 1 < body.size() && body[q + 1] == '\'') { v += '\''; q += 2; continue; } break; } v += body[q++]; } while (!v.empty() && v.back() == ' ') v.pop_back(); good = good && v == *s; }
          else if (auto d = boost::get<double>(&m.second.m_value)) good = fabs(atof(body.c_str()) - *d) <= 1e-12 * fabs(*d);
          else if (auto i = boost::get<int64_t>(&m.second.m_value)) good = atoll(body.c_str()) == *i;
        }
        c.checkf(good, "ldac-card", [&] { std::ostringstream o; o << m.second.m_value; return log + "header value " + m.first + " = " + o.str() + " is written as [" + card + "]"; });
      }
    }
  }
  c.check(ok, "file-parts", log + "parts " + gotText + "instead of " + wantText);
  c.sig(log); c.sample(log);
}
VH_MAIN
