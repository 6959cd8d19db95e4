// C01/C22/C21: prefetcher, grouping, deblending, threaded measurement, sorter and flushed output, each case in a process of its own
// whose event log (what entered, what came out, what failed) is judged afterwards.
#include "vh.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <sys/wait.h>
#include <thread>
#include <Configuration/ConfigManager.h>
#include <AlexandriaKernel/ThreadPool.h>
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Task/GroupTask.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Measurement/DummyMeasurement.h"
#include "SEImplementation/Measurement/MultithreadedMeasurement.h"
#include "SEImplementation/Output/FlushableOutput.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/SourceIDs/SourceIDTask.h"
#include "SEImplementation/Prefetcher/Prefetcher.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEMain/Sorter.h"
using namespace SourceXtractor;

struct Plan {
  struct Item { bool event; int tag, key; std::vector<int> keys; bool all; };
  std::vector<std::vector<Item>> frames;
  int threads = 0, pre = 0, queue = 1, flush = 0, limit = 0, drop = 0; bool sorted = true, sync = true, oneByOne = false; int slow = 0;
  enum Fail { NONE, PREFETCH, GROUPING, MEASURE, CONVERT, OUTPUT, FEED, GROUP } fail = NONE; int failTag = -1; bool stdexc = false;
  uint64_t salt = 0;
};
static Plan* plan; static int logfd;
static void say(const std::string& s) { auto t = s + "\n"; if (write(logfd, t.data(), t.size()) < 0) _exit(97); }
static void nap(int stage, int tag) {
  uint64_t h = vh::mix(plan->salt * 31 + stage * 1000003 + tag); int us = 0;
  switch (plan->slow) { case 0: break; case 1: us = h % 4 ? 0 : h / 7 % 800; break; case 2: us = h % 16 ? h / 7 % 50 : h / 7 % 6000; break; case 3: us = stage == 2 ? 1500 : 0; break; case 4: us = stage == 1 ? 1500 : h / 3 % 40; break; case 5: us = stage == 3 ? 1500 : 0; break; case 6: us = stage == 4 ? h % 900 : stage == 0 ? h % 300 : 0; break; }
  if (us == 0) { if (h % 5 == 0) std::this_thread::yield(); } else std::this_thread::sleep_for(std::chrono::microseconds(us));
}
static std::atomic<bool> failed{false};
static void fault(Plan::Fail where, int tag) { if (plan->fail == where && tag == plan->failTag) { failed = true; say("T"); if (plan->stdexc) throw std::runtime_error("planned failure"); throw Elements::Exception() << "planned failure"; } }

struct Tag : Property { Tag(int t, int k) : tag(t), key(k) {} int tag, key; };
struct Pre : Property { explicit Pre(long v_) : v(v_) {} long v; };
struct Grp : Property { explicit Grp(long v_) : v(v_) {} long v; };
struct Val : Property { explicit Val(long v_) : v(v_) {} long v; };
static int tagOf(const SourceInterface& s) { return s.getProperty<Tag>().tag; }
struct PreTask : SourceTask { void computeProperties(SourceInterface& s) const override { int t = tagOf(s); nap(1, t); fault(Plan::PREFETCH, t); s.setProperty<Pre>(t * 7L + 3); } };
struct GrpTask : GroupTask { void computeProperties(SourceGroupInterface& g) const override { long v = 0; for (auto& s : g) v += tagOf(s); fault(Plan::GROUP, tagOf(*g.begin())); for (auto& s : g) s.setProperty<Grp>(v); } };
struct ValTask : GroupTask { void computeProperties(SourceGroupInterface& g) const override { for (auto& s : g) { int t = tagOf(s); nap(2, t); fault(Plan::MEASURE, t); s.setProperty<Val>(s.getProperty<Pre>().v + 1000000L * s.getProperty<Grp>().v); } } };
template <typename T> struct Fac : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return std::make_shared<T>(); } };
// memory is handed out again at once, as a busy allocator does
struct Rec : SourceWithOnDemandProperties {
  using SourceWithOnDemandProperties::SourceWithOnDemandProperties;
  static std::mutex& m() { static auto* x = new std::mutex; return *x; } static std::vector<void*>& free_() { static auto* f = new std::vector<void*>; return *f; }
  static void* operator new(size_t n) { std::lock_guard<std::mutex> l(m()); if (!free_().empty()) { auto p = free_().back(); free_().pop_back(); return p; } return ::operator new(n); }
  static void operator delete(void* p) { std::lock_guard<std::mutex> l(m()); free_().push_back(p); }
};
struct Same : GroupingCriteria { bool shouldGroup(const SourceInterface& a, const SourceInterface& b) const override { fault(Plan::GROUPING, tagOf(a)); fault(Plan::GROUPING, tagOf(b)); return !plan->oneByOne && a.getProperty<Tag>().key == b.getProperty<Tag>().key; } };
struct Keys : SelectionCriteria { std::vector<int> k; bool mustBeProcessed(const SourceInterface& s) const override { return std::find(k.begin(), k.end(), s.getProperty<Tag>().key) != k.end(); } };
struct Drop : DeblendStep { void deblend(SourceGroupInterface& g) const override { if (!plan->drop) return; bool any = false; int t = 0; for (auto it = g.begin(); it != g.end();) { t = tagOf(*it); if (t % plan->drop == 0) { any = true; it = g.removeSource(it); } else ++it; } if (any) nap(4, t); } };
struct TapS : PipelineReceiver<SourceInterface>, PipelineEmitter<SourceInterface> { int ev = 0;
  void receiveSource(std::unique_ptr<SourceInterface> s) override { say(vh::fmt("P %d", tagOf(*s))); sendSource(std::move(s)); }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override { say(vh::fmt("E %d", ev++)); sendProcessSignal(e); } };
struct TapG : PipelineReceiver<SourceGroupInterface>, PipelineEmitter<SourceGroupInterface> {
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { std::string t = "G"; for (auto& s : *g) t += vh::fmt(" %d", tagOf(s)); say(t); sendSource(std::move(g)); }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override { sendProcessSignal(e); } };
static Euclid::Table::Row toRow(const SourceInterface& s) {
  static auto cols = std::make_shared<Euclid::Table::ColumnInfo>(std::vector<Euclid::Table::ColumnInfo::info_type>{{"tag", typeid(int64_t)}, {"id", typeid(int64_t)}, {"val", typeid(int64_t)}});
  int t = tagOf(s); auto v = s.getProperty<Val>().v; fault(Plan::CONVERT, t);
  return Euclid::Table::Row({int64_t(t), int64_t(s.getProperty<SourceID>().getId()), int64_t(v)}, cols);
}
struct Out : FlushableOutput {
  Out(int fl) : FlushableOutput(toRow, fl) {} int part = 0; void nextPart() override { ++part; }
  void outputSource(const SourceInterface& s) override { int t = tagOf(s); nap(3, t); fault(Plan::OUTPUT, t); say(vh::fmt("O %d", t)); FlushableOutput::outputSource(s); }
  void writeRows(const std::vector<Euclid::Table::Row>& rows) override { for (auto& r : rows) say(vh::fmt("R %d %lld %lld %lld", part, (long long)boost::get<int64_t>(r[0]), (long long)boost::get<int64_t>(r[1]), (long long)boost::get<int64_t>(r[2]))); }
};
// the order of calls of the main program
static int drive() {
  auto& p = *plan;
  auto reg = std::make_shared<TaskFactoryRegistry>();
  reg->registerTaskFactory<Fac<PreTask>, Pre>(); reg->registerTaskFactory<Fac<GrpTask>, Grp>(); reg->registerTaskFactory<Fac<ValTask>, Val>(); reg->registerTaskFactory<Fac<SourceIDTask>, SourceID>();
  auto prov = std::make_shared<TaskProvider>(reg);
  std::shared_ptr<Euclid::ThreadPool> pool; if (p.threads > 0) pool = std::make_shared<Euclid::ThreadPool>(p.threads);
  struct Head : PipelineEmitter<SourceInterface> { using PipelineEmitter::sendSource; using PipelineEmitter::sendProcessSignal; };
  auto head = std::make_shared<Head>(); std::shared_ptr<Prefetcher> pre;
  if (pool && p.pre) { pre = std::make_shared<Prefetcher>(pool, p.queue); std::set<PropertyId> ids{PropertyId::create<Pre>()}; pre->requestProperties(ids); }
  auto tap = std::make_shared<TapS>(); auto grouping = std::make_shared<SourceGrouping>(std::make_shared<Same>(), std::make_shared<SourceGroupWithOnDemandPropertiesFactory>(prov), p.limit);
  auto deb = std::make_shared<Deblending>(std::vector<std::shared_ptr<DeblendStep>>{std::make_shared<Drop>()}); auto tapg = std::make_shared<TapG>();
  std::shared_ptr<Measurement> meas; if (pool) meas = std::make_shared<MultithreadedMeasurement>(toRow, pool, p.queue); else meas = std::make_shared<DummyMeasurement>();
  auto out = std::make_shared<Out>(p.flush);
  if (pre) { head->setNextStage(pre); pre->setNextStage(tap); } else head->setNextStage(tap);
  tap->setNextStage(grouping); grouping->setNextStage(deb); deb->setNextStage(tapg); tapg->setNextStage(meas);
  if (p.sorted) { auto so = std::make_shared<Sorter>(); meas->setNextStage(so); so->setNextStage(out); } else meas->setNextStage(out);
  meas->startThreads();
  for (auto& f : p.frames) {
    try {
      for (auto& it : f) {
        if (it.event) { if (it.all) head->sendProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); else { auto k = std::make_shared<Keys>(); k->k = it.keys; head->sendProcessSignal(ProcessSourcesEvent(k)); } continue; }
        nap(0, it.tag); fault(Plan::FEED, it.tag);
        std::unique_ptr<SourceInterface> s(new Rec(prov)); s->setProperty<Tag>(it.tag, it.key); s->setProperty<SourceId>(); head->sendSource(std::move(s));
      }
    } catch (const std::exception& e) { say(std::string("C ") + e.what()); meas->stopThreads(); return 3; }
    if (p.sync) { if (pre) pre->synchronize(); meas->synchronizeThreads(); out->flush(); out->nextPart(); say("S"); }
  }
  if (pre) { if (!p.sync) pre->synchronize(); pre->wait(); }
  if (!p.sync) meas->synchronizeThreads();
  meas->stopThreads(); out->flush(); say("D");
  return 0;
}
struct Run { std::vector<std::vector<std::string>> log; int status; double secs; };
static Run once(Plan& p) {
  int fd[2]; Run r{}; if (pipe(fd)) abort(); fflush(nullptr); auto t0 = std::chrono::steady_clock::now(); pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); logfd = fd[1]; plan = &p; signal(SIGABRT, SIG_DFL); alarm(20); int rc = 3;
    try { rc = drive(); } catch (const std::exception& e) { say(std::string("X ") + e.what()); }
    _exit(rc);
  }
  close(fd[1]); std::string buf; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) buf.append(b, n); close(fd[0]); waitpid(pid, &r.status, 0);
  r.secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::istringstream is(buf); std::string l; while (std::getline(is, l)) { std::istringstream ls(l); std::vector<std::string> w; std::string x; while (ls >> x) w.push_back(x); if (!w.empty()) r.log.push_back(w); }
  return r;
}
static int hangs = 0;   // a hang is believed when it happens twice
static Run execute(Plan& p) { auto r = once(p); if (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM) { r = once(p); if (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM) ++hangs; } return r; }
static Plan make(vh::Rng& r, bool big) {
  Plan p; p.salt = r.u64(); p.threads = r.pick(std::vector<int>{0, 1, 2, 3, 4, 8}); p.pre = r.p(0.7); p.queue = r.pick(std::vector<int>{1, 2, 3, 8, 1000}); p.flush = r.pick(std::vector<int>{0, 1, 2, 7, 100}); p.sorted = r.p(0.7); p.sync = r.p(0.85);
  p.oneByOne = r.p(0.3); p.limit = r.p(0.3) ? r.i(1, 5) : 0; p.drop = r.p(0.4) ? r.i(2, 6) : 0; p.slow = r.i(0, 5);
  if (r.p(0.2)) { p.pre = true; p.threads = r.i(2, 8); p.limit = 1; p.drop = r.i(2, 3); p.slow = 6; p.queue = r.i(2, 6); p.sync = true; }   // sources die at once, their memory is used again
  int tag = 1; for (int f = p.sync ? r.i(1, 3) : 1; f > 0; --f) {
    std::vector<Plan::Item> v; int keys = r.i(1, 30);
    for (int n = r.i(0, big ? 250 : 60); n > 0; --n) { v.push_back({false, tag++, r.i(0, keys), {}, false}); if (r.p(0.08)) { Plan::Item e{true, 0, 0, {}, r.p(0.3)}; for (int k = r.i(0, 5); k > 0; --k) e.keys.push_back(r.i(0, keys)); v.push_back(e); } }
    v.push_back({true, 0, 0, {}, true}); p.frames.push_back(v);
  }
  return p;
}
static std::string describe(const Plan& p) { int n = 0; for (auto& f : p.frames) for (auto& i : f) n += !i.event; return vh::fmt("%d sources in %zu frames, %d threads, %s, queue %d, flush every %d, %s, group limit %d, drop %d, delays %d%s%s", n, p.frames.size(), p.threads, p.pre ? "prefetch" : "no prefetch", p.queue, p.flush, p.sorted ? "sorted" : "unsorted", p.limit, p.drop, p.slow, p.sync ? "" : ", synchronised only at the end", p.fail ? vh::fmt(", failure %d at %d (%s)", p.fail, p.failTag, p.stdexc ? "std" : "Elements").c_str() : ""); }
static int num(const std::string& s) { return atoi(s.c_str()); }

// judges one log; everything that was written must be right, and with `complete` nothing may be missing
static void judge(vh::Ctx& c, const Plan& p, const Run& r, bool complete) {
  auto what = describe(p); std::vector<std::string> fed, seen; std::map<int, int> key; std::set<int> want;
  { int ev = 0; for (auto& f : p.frames) for (auto& i : f) { fed.push_back(i.event ? vh::fmt("E%d", ev++) : vh::fmt("P%d", i.tag)); if (!i.event) { key[i.tag] = i.key; if (!p.drop || i.tag % p.drop) want.insert(i.tag); } } }
  std::vector<int> entered, rows, outs; std::map<int, long> sum; std::map<int, int> part, id; std::map<int, long> val; std::map<int, int> outAt, enterAt; std::set<std::string> orders; int syncs = 0, frameEnd = 0; std::vector<size_t> ends; { size_t n = 0; for (auto& f : p.frames) { for (auto& i : f) if (!i.event && (!p.drop || i.tag % p.drop)) ++n; ends.push_back(n); } }
  std::vector<size_t> groupSizes; std::map<int, int> groupOf; int g = 0; bool ok = true;
  for (auto& w : r.log) {
    if (w[0] == "P" || w[0] == "E") seen.push_back(w[0] + w[1]);
    else if (w[0] == "G") { long t = 0; for (size_t k = 1; k < w.size(); ++k) t += num(w[k]); groupSizes.push_back(w.size() - 1); for (size_t k = 1; k < w.size(); ++k) { int q = num(w[k]); ok &= c.checkf(sum.emplace(q, t).second, "twice-measured", [&] { return what + vh::fmt(": source %d entered measurement twice", q); }); entered.push_back(q); groupOf[q] = g; } ++g; }
    else if (w[0] == "O") outs.push_back(num(w[1]));
    else if (w[0] == "R") { int q = num(w[2]); rows.push_back(q); ok &= c.checkf(val.emplace(q, atol(w[4].c_str())).second, "row-twice", [&] { return what + vh::fmt(": two rows for source %d", q); }); part[q] = num(w[1]); id[q] = num(w[3]); }
    else if (w[0] == "S") { ok &= c.checkf(rows.size() == ends[syncs], "not-synchronised", [&] { return what + vh::fmt(": %zu rows written after frame %d was synchronised, %zu expected", rows.size(), syncs, ends[syncs]); }); ++syncs; }
  }
  // events and sources keep the order in which they were fed
  ok &= c.checkf(seen.size() <= fed.size() && std::equal(seen.begin(), seen.end(), fed.begin()), "prefetch-order", [&] { size_t k = 0; while (k < seen.size() && k < fed.size() && seen[k] == fed[k]) ++k; return what + vh::fmt(": at position %zu %s came before %s", k, k < seen.size() ? seen[k].c_str() : "-", k < fed.size() ? fed[k].c_str() : "nothing"); });
  for (size_t k = 0; k < rows.size(); ++k) {
    int q = rows[k]; ok &= c.checkf(want.count(q) && sum.count(q), "row-unknown", [&] { return what + vh::fmt(": a row for %d, which never entered measurement", q); });
    if (sum.count(q)) { long e = q * 7L + 3 + 1000000L * sum[q]; ok &= c.checkf(val[q] == e, "row-value", [&] { return what + vh::fmt(": source %d has value %ld, expected %ld", q, val[q], e); }); }
  }
  if (p.sorted) { size_t n = std::min(rows.size(), entered.size()); ok &= c.checkf(rows.size() <= entered.size() && std::equal(rows.begin(), rows.end(), entered.begin()), "row-order", [&] { size_t k = 0; while (k < n && rows[k] == entered[k]) ++k; return what + vh::fmt(": row %zu is source %d, entered as %d", k, k < rows.size() ? rows[k] : -1, k < entered.size() ? entered[k] : -1); }); }
  else { std::set<int> closed; int cur = -1; for (int q : rows) { int gg = groupOf[q]; if (gg != cur) { ok &= c.checkf(closed.insert(gg).second, "group-torn", [&] { return what + vh::fmt(": rows of the group of source %d are apart", q); }); cur = gg; } } }
  { std::vector<int> o(outs.begin(), outs.begin() + std::min(outs.size(), rows.size())); ok &= c.check(rows.size() <= outs.size() && o == rows, "flush-order", what + ": rows flushed in another order than output"); }
  // identifiers follow the order of entering measurement
  for (size_t k = 0; k < entered.size(); ++k) { auto it = id.find(entered[k]); if (it != id.end()) ok &= c.checkf((p.threads == 0 && !p.sorted) || it->second == static_cast<int>(k + 1), "id-order", [&] { return what + vh::fmt(": source %d entered as number %zu and has identifier %d", entered[k], k + 1, it->second); }); }
  if (complete) {
    ok &= c.checkf(seen.size() == fed.size(), "lost-before-grouping", [&] { return what + vh::fmt(": %zu of %zu sources and events passed prefetching", seen.size(), fed.size()); });
    std::set<int> got(rows.begin(), rows.end()); ok &= c.checkf(got == want, "row-lost", [&] { std::string l; for (int q : want) if (!got.count(q)) l += vh::fmt(" %d", q); return what + vh::fmt(": %zu rows, %zu expected, missing", got.size(), want.size()) + l.substr(0, 100); });
    int f = 0; for (auto& fr : p.frames) { for (auto& i : fr) if (!i.event && part.count(i.tag) && p.sync) ok &= c.checkf(part[i.tag] == f, "part", [&] { return what + vh::fmt(": source %d of frame %d was written to part %d", i.tag, f, part[i.tag]); }); ++f; }
    for (size_t s : groupSizes) ok &= c.check(!p.limit || s <= static_cast<size_t>(p.limit), "group-limit", what + vh::fmt(": a group of %zu", s));
  }
  bool shuffled = false; { std::vector<int> o; for (auto& w : r.log) if (w[0] == "O") o.push_back(num(w[1])); shuffled = !std::is_sorted(o.begin(), o.end()); }
  std::string trace; for (auto& w : r.log) trace += w[0] + (w.size() > 1 ? w[1] : ""); c.sig(trace); c.counter("log_events", r.log.size()); c.counter("rows", rows.size()); if (shuffled) c.counter("out_of_feed_order"); (void)ok; (void)frameEnd;
}
SECTION(complete, 260, 6000) {
  if (hangs > 2) { c.counter("skipped_after_hangs"); return; }
  Plan p = make(c.rng, c.kase % 10 == 0); auto r = execute(p); auto what = describe(p);
  if (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM) { c.fail("hang", what + ": did not end within 20 s, twice"); c.count(); return; }
  if (!c.checkf(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "failed", [&] { std::string l; for (auto& w : r.log.empty() ? std::vector<std::string>{} : r.log.back()) l += " " + w; return what + vh::fmt(": status %x after %zu events, last", r.status, r.log.size()) + l; })) return;
  judge(c, p, r, true); c.sample(what); c.counter(vh::fmt("threads_%d", p.threads));
}
SECTION(failing, 260, 6000) {
  if (hangs > 2) { c.counter("skipped_after_hangs"); return; }
  Plan p = make(c.rng, false); std::vector<int> tags; for (auto& f : p.frames) for (auto& i : f) if (!i.event) tags.push_back(i.tag);
  if (tags.empty()) { c.counter("nothing_to_fail"); return; }
  p.fail = static_cast<Plan::Fail>(c.rng.i(1, 7)); p.failTag = c.rng.pick(tags); p.stdexc = c.rng.p(0.4); auto what = describe(p); auto r = execute(p);
  bool thrown = false; for (auto& w : r.log) thrown |= w[0] == "T";
  if (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM) { c.fail("hang", what + ": did not end within 20 s, twice"); c.count(); return; }
  bool exited = WIFEXITED(r.status), sig = WIFSIGNALED(r.status); int rc = exited ? WEXITSTATUS(r.status) : -1, sg = sig ? WTERMSIG(r.status) : 0;
  if (!c.checkf((exited && (rc == 0 || rc == 3)) || sg == SIGTERM || sg == SIGABRT, "crash", [&] { return what + vh::fmt(": status %x", r.status); })) return;
  if (thrown) { c.checkf(!(exited && rc == 0), "silent", [&] { return what + ": the failure was thrown, the run reports success"; }); c.counter(vh::fmt("failed_at_stage_%d", p.fail)); c.counter(sg ? "died" : "reported"); }
  else c.checkf(exited && rc == 0, "failed", [&] { return what + ": nothing failed, the run reports failure"; });
  judge(c, p, r, !thrown); c.sample(what);
}
// the main program can fail between building the measurement and starting it
SECTION(unstarted, 6, 40) {
  fflush(nullptr); pid_t pid = fork(); int threads = c.rng.i(0, 4);
  if (pid == 0) { alarm(20); { auto pool = std::make_shared<Euclid::ThreadPool>(threads); MultithreadedMeasurement m(toRow, pool, 10); } { DummyMeasurement d; } { auto pool = std::make_shared<Euclid::ThreadPool>(threads); Prefetcher p(pool, 3); } _exit(0); }
  int st; waitpid(pid, &st, 0); c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "unstarted", vh::fmt("stages built and discarded without running: status %x", st)); c.sig(vh::fmt("%d %d", threads, int(c.kase)));
}
VH_MAIN
