// Common machinery of the runtime monitors: seeded cases, event/violation recorder, crash breadcrumbs.
#pragma once
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h); }

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t u64() { return g(); }
  int i(int lo, int hi) { return lo + static_cast<int>(g() % static_cast<uint64_t>(static_cast<int64_t>(hi) - lo + 1)); }  // inclusive
  double d() { return static_cast<double>(g() >> 11) * (1.0 / 9007199254740992.0); }
  double d(double lo, double hi) { return lo + (hi - lo) * d(); }
  bool p(double prob) { return d() < prob; }
  double gauss() { double u = d(), v = d(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[g() % v.size()]; }
  template <typename T> T& pick(std::vector<T>& v) { return v[g() % v.size()]; }
  template <typename T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g() % k]); }
};

struct Recorder {
  std::mutex m;
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  struct V { std::string key, msg, section; uint64_t kase; };
  std::vector<V> violations;
  std::map<std::string, uint64_t> per_key;
  std::map<std::string, uint64_t> counters;
};
inline Recorder& rec() { static Recorder r; return r; }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct Ctx {
  Rng rng;
  std::string section;
  uint64_t kase;
  bool thorough;
  Ctx(uint64_t s, std::string sec, uint64_t k, bool t) : rng(s), section(std::move(sec)), kase(k), thorough(t) {}
  void fail(const std::string& key, const std::string& msg) {
    auto& r = rec(); std::lock_guard<std::mutex> l(r.m);
    if (++r.per_key[key] <= 3) r.violations.push_back({key, msg, section, kase});
  }
  // one oracle evaluation
  bool check(bool ok, const char* key, const std::string& msg) { count(); if (!ok) fail(key, msg); return ok; }
  template <typename F> bool checkf(bool ok, const char* key, F&& msg) { count(); if (!ok) fail(key, msg()); return ok; }
  void count(uint64_t n = 1) { auto& r = rec(); std::lock_guard<std::mutex> l(r.m); r.evaluations += n; }
  void sig(const std::string& s) { auto& r = rec(); std::lock_guard<std::mutex> l(r.m); r.sigs.insert(hashStr(section + "|" + s)); }
  void sample(const std::string& s) { auto& r = rec(); std::lock_guard<std::mutex> l(r.m); if (r.samples.size() < 4) r.samples.push_back(section + ": " + s); }
  void counter(const std::string& n, uint64_t v = 1) { auto& r = rec(); std::lock_guard<std::mutex> l(r.m); r.counters[n] += v; }
};

struct Section { std::string name; uint64_t quick, thorough; std::function<void(Ctx&)> fn; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Ctx&)> f) { sections().push_back({n, q, t, std::move(f)}); } };
#define SECTION(name, quick, thorough)              \
  static void sec_##name(vh::Ctx& c);               \
  static vh::Reg reg_##name(#name, quick, thorough, sec_##name); \
  static void sec_##name(vh::Ctx& c)

inline std::string jesc(const std::string& s) {
  std::string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 0x20 || ch >= 0x7f) r += fmt("\\u%04x", ch); else r += ch; } return r;
}

// per-process scratch directory, removed by the runner
inline std::string scratch() { const char* e = getenv("VH_SCRATCH"); return e ? e : "/tmp"; }

inline bool near(double a, double b, double rel, double abs) { if (a == b) return true; if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }

struct Options { uint64_t seed = 1; bool thorough = false; std::string section, out, crumb; uint64_t from = 0, to = UINT64_MAX; double scale = 1; bool list = false; };

inline void writeOut(const Options& o, bool complete) {
  auto& r = rec(); std::lock_guard<std::mutex> l(r.m);
  if (o.out.empty()) {
    printf("evaluations=%" PRIu64 " distinct=%zu violations=%zu\n", r.evaluations, r.sigs.size(), r.violations.size());
    for (auto& v : r.violations) printf("  FAIL [%s] %s#%" PRIu64 ": %s\n", v.key.c_str(), v.section.c_str(), v.kase, v.msg.c_str());
    for (auto& v : r.per_key) printf("  %s x%" PRIu64 "\n", v.first.c_str(), v.second);
    for (auto& s : r.samples) printf("  sample %s\n", s.c_str());
    for (auto& s : r.counters) printf("  counter %s = %" PRIu64 "\n", s.first.c_str(), s.second);
    return;
  }
  FILE* f = fopen(o.out.c_str(), "w"); if (!f) { perror("out"); _exit(99); }
  fprintf(f, "{\"complete\":%s,\"evaluations\":%" PRIu64 ",\"violations\":[", complete ? "true" : "false", r.evaluations);
  for (size_t i = 0; i < r.violations.size(); ++i) { auto& v = r.violations[i]; fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"section\":\"%s\",\"case\":%" PRIu64 "}", i ? "," : "", jesc(v.key).c_str(), jesc(v.msg).c_str(), jesc(v.section).c_str(), v.kase); }
  fprintf(f, "],\"samples\":["); for (size_t i = 0; i < r.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(r.samples[i]).c_str());
  fprintf(f, "],\"counters\":{"); { bool first = true; for (auto& k : r.counters) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; } }
  fprintf(f, "},\"sigs\":["); { bool first = true; for (auto s : r.sigs) { fprintf(f, "%s\"%" PRIx64 "\"", first ? "" : ",", s); first = false; } }
  fprintf(f, "]}\n"); fclose(f);
}

inline int runMain(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto next = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); _exit(99); } return std::string(argv[++i]); };
    if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--tier") o.thorough = next() == "thorough";
    else if (a == "--section") o.section = next();
    else if (a == "--from") o.from = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--to") o.to = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--case") { o.from = strtoull(next().c_str(), nullptr, 0); o.to = o.from + 1; }
    else if (a == "--out") o.out = next();
    else if (a == "--crumb") o.crumb = next();
    else if (a == "--list") o.list = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 99; }
  }
  if (o.list) { for (auto& s : sections()) printf("%s %" PRIu64 " %" PRIu64 "\n", s.name.c_str(), s.quick, s.thorough); return 0; }
  int crumb = -1;
  if (!o.crumb.empty()) crumb = open(o.crumb.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  for (auto& s : sections()) {
    if (!o.section.empty() && o.section != s.name) continue;
    uint64_t n = o.thorough ? s.thorough : s.quick, to = std::min(n, o.to);
    if (o.to == o.from + 1) to = o.to;
    for (uint64_t k = o.from; k < to; ++k) {
      if (crumb >= 0) { auto b = fmt("%-60s %20" PRIu64 "\n", s.name.c_str(), k); if (pwrite(crumb, b.data(), b.size(), 0) < 0) {} }
      Ctx c(mix(o.seed * 1000003 + mix(hashStr(s.name) ^ (k * 0x9e3779b97f4a7c15ULL))), s.name, k, o.thorough);
      try { s.fn(c); }
      catch (const std::exception& e) { c.fail("exception:" + s.name, std::string("unexpected exception: ") + e.what()); }
      catch (...) { c.fail("exception:" + s.name, "unexpected non-standard exception"); }
      bool stop; { std::lock_guard<std::mutex> l(rec().m); stop = rec().violations.size() >= 40; }
      if (stop) break;
    }
  }
  writeOut(o, true);
  fflush(nullptr);
  return 0;
}
}  // namespace vh
#define VH_MAIN int main(int argc, char** argv) { return vh::runMain(argc, argv); }
