#pragma once
#include <condition_variable>
#include <mutex>
namespace Euclid {
class Semaphore {
public:
  explicit Semaphore(int i) : m_count(i) {}
  void acquire(int i = 1) { std::unique_lock<std::mutex> l(m_mutex); m_cv.wait(l, [&] { return m_count >= i; }); m_count -= i; }
  bool try_acquire(int i = 1) { std::lock_guard<std::mutex> l(m_mutex); if (m_count < i) return false; m_count -= i; return true; }
  void release(int i = 1) { std::lock_guard<std::mutex> l(m_mutex); m_count += i; m_cv.notify_all(); }
private:
  std::mutex m_mutex;
  std::condition_variable m_cv;
  int m_count;
};
class SemaphoreLock {
public:
  explicit SemaphoreLock(Semaphore& s) : m_s(s) { m_s.acquire(); }
  ~SemaphoreLock() { m_s.release(); }
private:
  Semaphore& m_s;
};
}
