// Stand-in for Alexandria's ThreadPool with the same contract: FIFO queue of tasks, N workers, the first exception thrown
// by a task is stored, stops the pool from picking further tasks, and is reported by block()/checkForException().
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
namespace Euclid {
class ThreadPool {
public:
  using Task = std::function<void(void)>;
  explicit ThreadPool(unsigned thread_count = std::thread::hardware_concurrency(), unsigned = 50, unsigned = 100) {
    for (unsigned i = 0; i < thread_count; ++i) { m_workers.emplace_back([this] { run(); }); }
  }
  virtual ~ThreadPool() {
    { std::lock_guard<std::mutex> l(m_mutex); m_stop = true; }
    m_cv.notify_all();
    for (auto& t : m_workers) { t.join(); }
  }
  ThreadPool(const ThreadPool&) = delete;
  ThreadPool& operator=(const ThreadPool&) = delete;
  void submit(Task task) {
    { std::lock_guard<std::mutex> l(m_mutex); m_queue.emplace_back(std::move(task)); }
    m_cv.notify_one();
  }
  bool checkForException(bool rethrow = false) {
    std::exception_ptr e;
    { std::lock_guard<std::mutex> l(m_mutex); e = m_exception; }
    if (e && rethrow) { std::rethrow_exception(e); }
    return e != nullptr;
  }
  void block(bool throw_on_error = true) {
    std::exception_ptr e;
    {
      std::unique_lock<std::mutex> l(m_mutex);
      m_idle.wait(l, [this] { return (m_queue.empty() || m_exception) && m_active == 0; });
      e = m_exception;
    }
    if (throw_on_error && e) { std::rethrow_exception(e); }
  }
  size_t queued() const { std::lock_guard<std::mutex> l(m_mutex); return m_queue.size(); }
  // workers leave for good once a task has failed
  size_t activeThreads() const { std::lock_guard<std::mutex> l(m_mutex); return m_exception ? m_active : m_workers.size(); }
  size_t running() const { std::lock_guard<std::mutex> l(m_mutex); return m_active; }
private:
  void run() {
    std::unique_lock<std::mutex> l(m_mutex);
    for (;;) {
      m_cv.wait(l, [this] { return m_stop || (!m_queue.empty() && !m_exception); });
      if (m_stop) { return; }
      auto task = std::move(m_queue.front());
      m_queue.pop_front();
      ++m_active;
      l.unlock();
      std::exception_ptr e;
      try { task(); } catch (...) { e = std::current_exception(); }
      task = nullptr;
      l.lock();
      --m_active;
      if (e && !m_exception) { m_exception = e; }
      m_idle.notify_all();
    }
  }
  mutable std::mutex m_mutex;
  std::condition_variable m_cv, m_idle;
  std::deque<Task> m_queue;
  std::vector<std::thread> m_workers;
  std::exception_ptr m_exception;
  size_t m_active = 0;
  bool m_stop = false;
};
}
