// C05: on-demand properties of sources and groups against a model of the caches, over histories of get/set/add/remove/merge.
#include "vh.h"
#include <thread>
#include <unordered_map>
#include "SEFramework/Property/Property.h"
#include "SEFramework/Property/PropertyHolder.h"
#include "SEFramework/Property/PropertyId.h"
#include "SEFramework/Property/PropertyNotFoundException.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceFactory.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandProperties.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Source/SourceWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/GroupTask.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"

using namespace SourceXtractor;

template <int K> struct P : Property { explicit P(double v_) : v(v_) {} double v; };
struct Kinds { std::function<double(const SourceInterface&, unsigned)> get; std::function<double(const SourceGroupInterface&, unsigned)> gget; std::function<const Property*(const SourceInterface&, unsigned)> addr;
  std::function<void(SourceInterface&, unsigned, double)> set; std::function<void(SourceGroupInterface&, unsigned, double)> gset; std::function<PropertyId(unsigned)> id; };
template <int K> static Kinds mkKind() {
  return {[](const SourceInterface& s, unsigned i) { return s.getProperty<P<K>>(i).v; }, [](const SourceGroupInterface& s, unsigned i) { return s.getProperty<P<K>>(i).v; },
          [](const SourceInterface& s, unsigned i) { return static_cast<const Property*>(&s.getProperty(PropertyId::create<P<K>>(i))); },
          [](SourceInterface& s, unsigned i, double v) { s.setIndexedProperty<P<K>>(i, v); }, [](SourceGroupInterface& s, unsigned i, double v) { s.setIndexedProperty<P<K>>(i, v); },
          [](unsigned i) { return PropertyId::create<P<K>>(i); }};
}
static const int NK = 14;
static const std::vector<Kinds>& kinds() {
  static const std::vector<Kinds> k{mkKind<0>(), mkKind<1>(), mkKind<2>(), mkKind<3>(), mkKind<4>(), mkKind<5>(), mkKind<6>(), mkKind<7>(), mkKind<8>(), mkKind<9>(), mkKind<10>(), mkKind<11>(), mkKind<12>(), mkKind<13>()};
  return k;
}
// 0,1,2 set from outside; 3+4 and 5 computed per source; 6 on the group; 7 on members; 8 on the group with 9 on members;
// 10 and 12 have tasks that fail; 11 nobody computes; 13 has a factory without a task
static std::atomic<long> runs[NK], created[NK];
static double f3(double a, unsigned i) { return a * 3 + i; }
static double f4(double a, unsigned i) { return a * 5 - 7. * i; }
struct T34 : SourceTask { unsigned i; explicit T34(unsigned i_) : i(i_) {} void computeProperties(SourceInterface& s) const override { ++runs[3]; double a = kinds()[0].get(s, 0); kinds()[3].set(s, i, f3(a, i)); kinds()[4].set(s, i, f4(a, i)); } };
struct T5 : SourceTask { unsigned i; explicit T5(unsigned i_) : i(i_) {} void computeProperties(SourceInterface& s) const override { ++runs[5]; double a = kinds()[3].get(s, i), b = kinds()[1].get(s, 0); kinds()[5].set(s, i, a + 11 * b); } };
struct T6 : GroupTask { unsigned i; explicit T6(unsigned i_) : i(i_) {} void computeProperties(SourceGroupInterface& g) const override { ++runs[6]; double t = 0; int k = 1; for (auto& s : g) t += k++ * kinds()[5].get(s, i); kinds()[6].gset(g, i, t); } };
struct T7 : GroupTask { unsigned i; explicit T7(unsigned i_) : i(i_) {} void computeProperties(SourceGroupInterface& g) const override { ++runs[7]; for (auto& s : g) { double v = kinds()[4].get(s, i) + kinds()[6].gget(g, i); kinds()[7].set(s, i, v); } } };
struct T89 : GroupTask { unsigned i; explicit T89(unsigned i_) : i(i_) {} void computeProperties(SourceGroupInterface& g) const override { ++runs[8]; kinds()[8].gset(g, i, 1000. + g.size() + i); double k = 0; for (auto& s : g) kinds()[9].set(s, i, kinds()[3].get(s, 0) + k++); } };
struct TBadS : SourceTask { void computeProperties(SourceInterface&) const override { ++runs[10]; throw Elements::Exception() << "cannot measure"; } };
struct TBadG : GroupTask { void computeProperties(SourceGroupInterface&) const override { ++runs[12]; throw Elements::Exception() << "cannot measure the group"; } };
template <int K, typename T> struct F : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId& id) const override { ++created[K]; return std::make_shared<T>(id.getIndex()); } };
template <int K, typename T> struct F0 : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { ++created[K]; return std::make_shared<T>(); } };
struct FNone : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return nullptr; } };

static std::shared_ptr<TaskFactoryRegistry> registry() {
  auto r = std::make_shared<TaskFactoryRegistry>();
  r->registerTaskFactory<F<3, T34>, P<3>, P<4>>(); r->registerTaskFactory<F<5, T5>, P<5>>(); r->registerTaskFactory<F<6, T6>, P<6>>(); r->registerTaskFactory<F<7, T7>, P<7>>();
  r->registerTaskFactory<F<8, T89>, P<8>, P<9>>(); r->registerTaskFactory<F0<10, TBadS>, P<10>>(); r->registerTaskFactory<F0<12, TBadG>, P<12>>(); r->registerTaskFactory<FNone, P<13>>();
  return r;
}
struct NotFound {};
using Key = std::pair<int, unsigned>; using Cache = std::map<Key, double>;
struct MG;
struct MS { Cache own, over; };
struct MG { std::vector<std::shared_ptr<MS>> m; Cache g; };
struct Model {
  bool tasks = true; std::map<int, long> runs;
  double get(MS& s, Key k) {
    auto it = s.own.find(k); if (it != s.own.end()) return it->second;
    if (!tasks) throw NotFound();
    switch (k.first) {
    case 3: case 4: { ++runs[3]; double a = get(s, {0, 0}); s.own[{3, k.second}] = f3(a, k.second); s.own[{4, k.second}] = f4(a, k.second); return s.own.at(k); }
    case 5: { ++runs[5]; double a = get(s, {3, k.second}), b = get(s, {1, 0}); return s.own[k] = a + 11 * b; }
    case 10: ++runs[10]; throw NotFound();
    default: throw NotFound();
    }
  }
  void task(MG& g, Key k) {
    unsigned i = k.second;
    switch (k.first) {
    case 6: { ++runs[6]; double t = 0; int n = 1; for (auto& s : g.m) t += n++ * get(g, *s, {5, i}); g.g[k] = t; break; }
    case 7: ++runs[7]; for (auto& s : g.m) { double v = get(g, *s, {4, i}); v += get(g, {6, i}); s->over[k] = v; } break;
    case 8: case 9: { ++runs[8]; g.g[{8, i}] = 1000. + g.m.size() + i; double n = 0; for (auto& s : g.m) s->over[{9, i}] = get(g, *s, {3, 0}) + n++; break; }
    case 12: ++runs[12]; throw NotFound();
    default: throw NotFound();
    }
  }
  double get(MG& g, Key k) { auto it = g.g.find(k); if (it != g.g.end()) return it->second; if (!tasks) throw NotFound(); task(g, k); it = g.g.find(k); if (it == g.g.end()) throw NotFound(); return it->second; }
  double get(MG& g, MS& s, Key k) {
    auto it = s.over.find(k); if (it != s.over.end()) return it->second;
    it = g.g.find(k); if (it != g.g.end()) return it->second;
    try { return get(s, k); } catch (NotFound&) {}
    if (!tasks) throw NotFound();
    task(g, k); it = s.over.find(k); if (it != s.over.end()) return it->second;
    it = g.g.find(k); if (it == g.g.end()) throw NotFound(); return it->second;
  }
  static void clear(MG& g) { g.g.clear(); for (auto& s : g.m) s->over.clear(); }
};

struct Real { std::unique_ptr<SourceInterface> s; std::shared_ptr<MS> m; };
struct RealG { std::unique_ptr<SourceGroupInterface> g; MG m; };

SECTION(histories, 2500, 120000) {
  for (auto& r : runs) r = 0;
  Model md; md.tasks = !c.rng.p(0.05);
  auto prov = std::make_shared<TaskProvider>(md.tasks ? registry() : nullptr);
  SourceWithOnDemandPropertiesFactory sf(prov); SourceGroupWithOnDemandPropertiesFactory gf(prov);
  std::vector<Real> free_; std::vector<RealG> groups; std::string trace; long hits = 0, misses = 0;
  auto idx = [&] { return c.rng.p(0.6) ? 0u : static_cast<unsigned>(c.rng.i(1, 3)); };
  auto member = [](RealG& g, size_t n) -> SourceInterface& { auto it = g.g->begin(); std::advance(it, n); return *it; };
  auto ask = [&](const char* who, int k, unsigned i, auto real, auto model) {
    bool rf = false, mf = false, other = false; double rv = 0, mv = 0; std::string what;
    try { rv = real(); } catch (const PropertyNotFoundException&) { rf = true; } catch (const std::exception& e) { other = true; what = e.what(); }
    try { mv = model(); } catch (NotFound&) { mf = true; }
    // the error of a group task that fails may reach the caller as it is
    if (other && mf && k == 12) { rf = true; other = false; }
    if (!c.checkf(!other, "error-type", [&] { return vh::fmt("%s: asking for property %d[%u] fails with '%s' instead of not-found (trace %s)", who, k, i, what.c_str(), trace.c_str()); })) return;
    if (!c.checkf(rf == mf, rf ? "not-found" : "found-unexpectedly", [&] { return vh::fmt("%s: property %d[%u] %s (value %g), expected %s %g (trace %s)", who, k, i, rf ? "not found" : "found", rv, mf ? "not found" : "found", mv, trace.c_str()); })) return;
    (rf ? misses : hits)++;
    if (!rf) c.checkf(rv == mv, "value", [&] { return vh::fmt("%s: property %d[%u] is %.17g, expected %.17g (trace %s)", who, k, i, rv, mv, trace.c_str()); });
    for (int q = 0; q < NK; ++q) if (!c.checkf(runs[q] <= md.runs[q], "recomputed", [&] { return vh::fmt("%s: after asking for %d[%u] the task of property %d ran %ld times, %ld needed (trace %s)", who, k, i, q, runs[q].load(), md.runs[q], trace.c_str()); })) break;
    c.counter("tasks_run", 0);
  };
  for (int step = c.rng.i(8, 60); step > 0; --step) {
    int op = c.rng.i(0, 19), k = c.rng.i(0, NK - 1); unsigned i = idx();
    auto& K = kinds()[k];
    if (op == 0 || (free_.empty() && groups.empty())) {
      Real r{sf.createSource(), std::make_shared<MS>()};
      for (int q = 0; q < 3; ++q) if (c.rng.p(0.85)) { double v = c.rng.i(-50, 50); kinds()[q].set(*r.s, 0, v); r.m->own[{q, 0}] = v; }
      free_.push_back(std::move(r)); trace += 'n';
    } else if (op < 5 && !free_.empty()) {
      auto& r = c.rng.pick(free_); trace += vh::fmt("s%d.%u ", k, i);
      ask("source", k, i, [&] { return K.get(*r.s, i); }, [&] { return md.get(*r.m, {k, i}); });
    } else if (op < 6 && !free_.empty()) {
      auto& r = c.rng.pick(free_); int q = c.rng.p(0.8) ? c.rng.i(0, 2) : 5; double v = c.rng.i(-50, 50); kinds()[q].set(*r.s, i, v); r.m->own[{q, i}] = v; trace += vh::fmt("S%d.%u ", q, i);
    } else if (op == 6) { RealG g; g.g = gf.createSourceGroup(); groups.push_back(std::move(g)); trace += 'g'; }
    else if (op < 9 && !groups.empty() && !free_.empty()) {
      auto& g = c.rng.pick(groups); size_t n = c.rng.i(0, static_cast<int>(free_.size()) - 1);
      if (c.rng.p(0.2)) { std::vector<std::unique_ptr<SourceInterface>> all; for (auto& r : free_) { all.push_back(std::move(r.s)); g.m.m.push_back(r.m); } g.g->addAllSources(std::move(all)); c.check(all.empty(), "collection-left", "addAllSources left sources in the collection"); free_.clear(); trace += 'A'; }
      else { g.g->addSource(std::move(free_[n].s)); g.m.m.push_back(free_[n].m); free_.erase(free_.begin() + n); trace += 'a'; }
      Model::clear(g.m);
    } else if (op < 10 && !groups.empty()) {
      auto& g = c.rng.pick(groups); if (g.m.m.empty()) continue;
      size_t n = c.rng.i(0, static_cast<int>(g.m.m.size()) - 1); auto it = g.g->begin(); std::advance(it, n); auto nx = g.g->removeSource(it);
      c.check(static_cast<size_t>(std::distance(g.g->begin(), nx)) == n, "iterator-after-remove", "removeSource does not return the next member");
      g.m.m.erase(g.m.m.begin() + n); Model::clear(g.m); trace += 'r';
    } else if (op < 12 && groups.size() > 1) {
      size_t a = c.rng.i(0, static_cast<int>(groups.size()) - 1), b = c.rng.i(0, static_cast<int>(groups.size()) - 2); if (b >= a) ++b;
      groups[a].g->merge(std::move(*groups[b].g)); for (auto& s : groups[b].m.m) groups[a].m.m.push_back(s); Model::clear(groups[a].m); groups[b].m.m.clear();
      c.check(groups[b].g->size() == 0 && groups[b].g->begin() == groups[b].g->end(), "merged-left", "a merged group keeps sources"); groups.erase(groups.begin() + b); trace += 'm';
    } else if (op < 17 && !groups.empty()) {
      auto& g = c.rng.pick(groups); if (g.m.m.empty()) continue; size_t n = c.rng.i(0, static_cast<int>(g.m.m.size()) - 1); trace += vh::fmt("e%d.%u ", k, i);
      ask("member", k, i, [&] { return K.get(member(g, n), i); }, [&] { return md.get(g.m, *g.m.m[n], {k, i}); });
    } else if (op < 18 && !groups.empty()) {
      auto& g = c.rng.pick(groups); if (g.m.m.empty()) continue; size_t n = c.rng.i(0, static_cast<int>(g.m.m.size()) - 1); double v = c.rng.i(-50, 50); int q = c.rng.i(0, 2);
      kinds()[q].set(member(g, n), i, v); g.m.m[n]->over[{q, i}] = v; trace += vh::fmt("E%d.%u ", q, i);
    } else if (!groups.empty()) {
      auto& g = c.rng.pick(groups); trace += vh::fmt("G%d.%u ", k, i);
      if (c.rng.p(0.1)) { kinds()[6].gset(*g.g, i, 77.); g.m.g[{6, i}] = 77.; trace += '='; }
      ask("group", k, i, [&] { return K.gget(*g.g, i); }, [&] { return md.get(g.m, {k, i}); });
    }
    for (auto& g : groups) c.check(g.g->size() == g.m.m.size() && static_cast<size_t>(std::distance(g.g->cbegin(), g.g->cend())) == g.m.m.size(), "group-size", "size of a group");
  }
  // the same object is returned as long as nothing changed
  for (auto& r : free_) for (int k = 0; k < 6; ++k) { try { auto* a = kinds()[k].addr(*r.s, 0); (void)kinds()[(k + 1) % 6].id(0); c.check(a == kinds()[k].addr(*r.s, 0), "address", "two requests return different objects"); } catch (const PropertyNotFoundException&) {} }
  c.counter("values_compared", hits); c.counter("not_found_compared", misses); c.sig(trace); c.sample(trace);
}

SECTION(simple, 300, 10000) {
  SimpleSourceFactory sf; SimpleSourceGroupFactory gf; std::vector<std::unique_ptr<SourceGroupInterface>> gs; std::vector<MG> ms; std::string trace;
  for (int i = 0; i < 3; ++i) { gs.push_back(gf.createSourceGroup()); ms.emplace_back(); }
  for (int st = c.rng.i(5, 40); st > 0; --st) {
    int a = c.rng.i(0, 2), op = c.rng.i(0, 9); auto& g = *gs[a]; auto& m = ms[a]; unsigned i = c.rng.i(0, 2); int k = c.rng.i(0, NK - 1);
    if (op < 3) { auto s = sf.createSource(); auto x = std::make_shared<MS>(); double v = c.rng.i(0, 99); kinds()[k].set(*s, i, v); x->own[{k, i}] = v; g.addSource(std::move(s)); m.m.push_back(x); trace += 'a'; }
    else if (op < 5 && !m.m.empty()) { size_t n = c.rng.i(0, static_cast<int>(m.m.size()) - 1); auto it = g.begin(); std::advance(it, n); if (c.rng.p(0.5)) { double v = c.rng.i(0, 99); kinds()[k].set(*it, i, v); m.m[n]->own[{k, i}] = v; trace += 's'; } else { g.removeSource(it); m.m.erase(m.m.begin() + n); trace += 'r'; } }
    else if (op == 5) { int b = (a + 1) % 3; g.merge(std::move(*gs[b])); for (auto& s : ms[b].m) m.m.push_back(s); ms[b] = MG(); m.g.clear(); gs[b] = gf.createSourceGroup(); trace += 'm'; }
    else if (op == 6) { kinds()[k].gset(g, i, st); m.g[{k, i}] = st; trace += 'g'; }
    c.check(g.size() == m.m.size(), "group-size", "size of a group");
    size_t n = 0;
    for (auto& s : g) { for (int q = 0; q < NK; ++q) for (unsigned j = 0; j < 3; ++j) { auto it = m.m[n]->own.find({q, j}); double v = -1; try { v = kinds()[q].get(s, j); } catch (const PropertyNotFoundException&) {} c.check(v == (it == m.m[n]->own.end() ? -1 : it->second), "simple-value", "property of a member of a simple group"); } ++n; }
    if (op == 6) for (int q = 0; q < NK; ++q) { auto it = m.g.find({q, i}); double v = -1; try { v = kinds()[q].gget(g, i); } catch (const PropertyNotFoundException&) {} c.check(v == (it == m.g.end() ? -1 : it->second), "simple-group-value", "property of a simple group"); }
  }
  c.sig(trace);
}

SECTION(identity, 200, 5000) {
  std::vector<PropertyId> ids; std::vector<Key> keys;
  for (int n = 0; n < 60; ++n) { int k = c.rng.i(0, NK - 1); unsigned i = c.rng.p(0.7) ? c.rng.i(0, 5) : c.rng.p(0.5) ? static_cast<unsigned>(c.rng.i(0, 1 << 30)) * 4u + 3 : 0xffffffffu - c.rng.i(0, 2); ids.push_back(kinds()[k].id(i)); keys.push_back({k, i}); }
  for (size_t a = 0; a < ids.size(); ++a) {
    c.check(ids[a].getIndex() == keys[a].second, "index", "index of an id");
    for (size_t b = 0; b < ids.size(); ++b) {
      bool eq = keys[a] == keys[b];
      c.checkf((ids[a] == ids[b]) == eq, "equality", [&] { return vh::fmt("ids of %d[%u] and %d[%u] compare %s", keys[a].first, keys[a].second, keys[b].first, keys[b].second, eq ? "different" : "equal"); });
      c.checkf((ids[a] < ids[b] || ids[b] < ids[a]) != eq && !(ids[a] < ids[b] && ids[b] < ids[a]), "order", [&] { return vh::fmt("%d[%u] and %d[%u] are not ordered", keys[a].first, keys[a].second, keys[b].first, keys[b].second); });
      if (eq) c.check(std::hash<PropertyId>()(ids[a]) == std::hash<PropertyId>()(ids[b]), "hash", "equal ids with different hashes");
      c.check((ids[a].getString() == ids[b].getString()) == eq, "string", "the string of an id does not identify it: " + ids[a].getString());
      size_t d = c.rng.i(0, static_cast<int>(ids.size()) - 1);
      if (ids[a] < ids[b] && ids[b] < ids[d]) c.check(ids[a] < ids[d], "order-transitive", "order of ids is not transitive");
    }
  }
  std::set<PropertyId> s(ids.begin(), ids.end()); std::set<Key> ks(keys.begin(), keys.end()); c.check(s.size() == ks.size(), "set", "set of ids");
  PropertyHolder h; Cache m;
  for (size_t a = 0; a < ids.size(); ++a) { if (c.rng.p(0.6)) { h.setProperty(std::make_unique<P<0>>(a), ids[a]); m[keys[a]] = a; } if (c.rng.p(0.02)) { h.clear(); m.clear(); } }
  for (size_t a = 0; a < ids.size(); ++a) { c.check(h.isPropertySet(ids[a]) == (m.count(keys[a]) == 1), "holder-set", "isPropertySet"); if (m.count(keys[a])) c.check(static_cast<const P<0>&>(h.getProperty(ids[a])).v == m[keys[a]], "holder-value", "value kept in the holder"); }
  c.sig(vh::fmt("%zu", ks.size()) + std::to_string(c.kase));
}

// sources of several threads share one provider: values right, one task per property id
SECTION(threads, 40, 1500) {
  for (auto& r : created) r = 0;
  for (auto& r : runs) r = 0;
  auto prov = std::make_shared<TaskProvider>(registry()); SourceWithOnDemandPropertiesFactory sf(prov); SourceGroupWithOnDemandPropertiesFactory gf(prov);
  int nt = c.rng.i(2, 6), per = 12; std::atomic<int> bad{0}, go{0}; std::vector<std::thread> th; auto seed = c.rng.i(0, 1 << 30);
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
    vh::Rng r(seed + t); ++go; while (go < nt) {}
    for (int n = 0; n < per; ++n) {
      auto g = gf.createSourceGroup(); std::vector<double> in; int m = r.i(1, 4); double sum = 0; unsigned i = r.i(0, 3);
      for (int q = 0; q < m; ++q) { auto s = sf.createSource(); double a = r.i(0, 50); kinds()[0].set(*s, 0, a); kinds()[1].set(*s, 0, a + 1); if (r.p(0.3) && kinds()[5].get(*s, i) != f3(a, i) + 11 * (a + 1)) ++bad; in.push_back(a); sum += (q + 1) * (f3(a, i) + 11 * (a + 1)); g->addSource(std::move(s)); }
      int q = 0; for (auto& s : *g) { if (kinds()[7].get(s, i) != f4(in[q], i) + sum) ++bad; ++q; }
    }
  });
  for (auto& t : th) t.join();
  c.check(bad == 0, "threads-value", "wrong value with a provider shared by threads");
  for (int k : {3, 5, 6, 7}) c.checkf(created[k] <= (k == 3 ? 8 : 4), "task-created-twice", [&] { return vh::fmt("the factory of property %d was asked for %ld tasks, at most one per index needed", k, created[k].load()); });
  c.checkf(runs[5] <= nt * per * 4 && runs[6] <= nt * per && runs[7] <= nt * per, "recomputed", [&] { return vh::fmt("%ld/%ld/%ld task runs", runs[5].load(), runs[6].load(), runs[7].load()); });
  c.counter("tasks_run", runs[3] + runs[5] + runs[6] + runs[7]); c.sig(vh::fmt("%d %d", nt, seed));
}
VH_MAIN
