#pragma once
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>
#include <utility>
namespace Elements {
class Logging {
public:
  enum Level { L_FATAL = 0, L_ERROR, L_WARN, L_INFO, L_DEBUG };
  static std::atomic<int>& threshold() {
    static std::atomic<int> t{[] {
      const char* e = std::getenv("VSHIM_LOG");
      return e ? std::atoi(e) : -1;
    }()};
    return t;
  }
  // lines emitted at warning or above, for monitors that want to know a code path warned
  static std::atomic<long>& warnings() { static std::atomic<long> w{0}; return w; }
  static Logging getLogger(const std::string& name = "") { return Logging(name); }
  static void setLevel(std::string) {}
  template <typename P> static void setLogFile(const P&) {}

  class LogMessageStream {
  public:
    LogMessageStream(int level, const std::string& name) : m_on(level <= threshold().load(std::memory_order_relaxed)) {
      if (m_on) { m_s << "[" << name << "] "; }
      if (level <= L_WARN) { warnings().fetch_add(1, std::memory_order_relaxed); }
    }
    LogMessageStream(LogMessageStream&& o) : m_s(std::move(o.m_s)), m_on(o.m_on) { o.m_on = false; }
    ~LogMessageStream() {
      if (m_on) {
        m_s << "\n";
        static std::mutex m;
        std::lock_guard<std::mutex> l(m);
        std::cerr << m_s.str();
      }
    }
    // the real stream formats unconditionally: so do we, so that the arguments are really evaluated and read
    template <typename T> LogMessageStream& operator<<(const T& v) { m_s << v; return *this; }
    LogMessageStream& operator<<(std::ostream& (*f)(std::ostream&)) { m_s << f; return *this; }
  private:
    std::stringstream m_s;
    bool m_on;
  };
#define VSHIM_LEVEL(fn, lvl)                                                          \
  LogMessageStream fn() { return LogMessageStream(lvl, m_name); }                     \
  void fn(const std::string& s) { LogMessageStream(lvl, m_name) << s; }               \
  template <typename... Args> void fn(const char* f, Args&&... a) {                   \
    LogMessageStream s(lvl, m_name); s << f; (void)std::initializer_list<int>{0, ((void)a, 0)...}; }
  VSHIM_LEVEL(fatal, L_FATAL)
  VSHIM_LEVEL(error, L_ERROR)
  VSHIM_LEVEL(warn, L_WARN)
  VSHIM_LEVEL(info, L_INFO)
  VSHIM_LEVEL(debug, L_DEBUG)
#undef VSHIM_LEVEL
private:
  explicit Logging(std::string n) : m_name(std::move(n)) {}
  std::string m_name;
};
}
