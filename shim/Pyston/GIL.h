// Stand-in for Pyston (not available offline): same API, functions are called through the interpreter instead of compiled.
#pragma once
#include <boost/python.hpp>
#include <atomic>
#include <cstdint>
namespace Pyston {
class GILLocker {
public:
  GILLocker() : m_state(PyGILState_Ensure()) { count().fetch_add(1, std::memory_order_relaxed); }
  ~GILLocker() { PyGILState_Release(m_state); }
  GILLocker(const GILLocker&) = delete;
  GILLocker& operator=(const GILLocker&) = delete;
  static int64_t getLockCount() { return count().load(); }
private:
  static std::atomic<int64_t>& count() { static std::atomic<int64_t> c{0}; return c; }
  PyGILState_STATE m_state;
};
}
