// Stand-in for Alexandria's FilePool: hands out one cached descriptor per (path, mode); an accessor owns it exclusively
// (or waits), which is the contract the FITS layer relies on. Descriptors are closed by the trait's destructor.
#pragma once
#include <boost/filesystem.hpp>
#include <condition_variable>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <vector>
#include <typeindex>
namespace Euclid { namespace FilePool {
template <typename T> struct OpenCloseTrait {
  static T open(const boost::filesystem::path& p, bool write) { return T(p, write); }
  static void close(T&) {}
};
class FileManager;
class FileHandler : public std::enable_shared_from_this<FileHandler> {
public:
  enum Mode { kRead = 0, kTryRead = 1, kWrite = 2 };
  template <typename T> class FileAccessor {
  public:
    FileAccessor(T&& fd, std::function<void(T&&)> ret, std::shared_ptr<FileHandler> h, bool write)
        : m_fd(std::move(fd)), m_ret(std::move(ret)), m_h(std::move(h)), m_write(write) {}
    ~FileAccessor() { m_ret(std::move(m_fd)); }
    T m_fd;
    bool isReadOnly() const { return !m_write; }
  private:
    std::function<void(T&&)> m_ret;
    std::shared_ptr<FileHandler> m_h;
    bool m_write;
  };
  explicit FileHandler(boost::filesystem::path p) : m_path(std::move(p)) {}
  // a read accessor takes a cached read descriptor (or opens a new one); a write accessor is exclusive
  template <typename T> std::unique_ptr<FileAccessor<T>> getAccessor(Mode mode = kRead) {
    bool write = mode == kWrite;
    std::unique_lock<std::mutex> l(m_mutex);
    if (write) {
      m_cv.wait(l, [&] { return m_readers == 0 && !m_writer; });
      m_writer = true;
      m_read_cache.clear();
    } else {
      m_cv.wait(l, [&] { return !m_writer; });
      ++m_readers;
      m_write_cache.clear();
    }
    auto& cache = write ? m_write_cache : m_read_cache;
    std::shared_ptr<void> cached;
    if (!cache.empty()) { cached = cache.back(); cache.pop_back(); }
    l.unlock();
    auto self = shared_from_this();
    std::function<void(T&&)> ret = [self, write](T&& fd) {
      auto p = std::make_shared<Closer<T>>(std::move(fd));
      std::lock_guard<std::mutex> g(self->m_mutex);
      (write ? self->m_write_cache : self->m_read_cache).push_back(std::move(p));
      if (write) self->m_writer = false; else --self->m_readers;
      self->m_cv.notify_all();
    };
    try {
      if (cached) {
        T fd = std::static_pointer_cast<Closer<T>>(cached)->take();
        return std::unique_ptr<FileAccessor<T>>(new FileAccessor<T>(std::move(fd), ret, self, write));
      }
      return std::unique_ptr<FileAccessor<T>>(new FileAccessor<T>(OpenCloseTrait<T>::open(m_path, write), ret, self, write));
    } catch (...) {
      std::lock_guard<std::mutex> g(m_mutex);
      if (write) m_writer = false; else --m_readers;
      m_cv.notify_all();
      throw;
    }
  }
private:
  template <typename T> struct Closer {
    explicit Closer(T&& f) : fd(new T(std::move(f))) {}
    ~Closer() { if (fd) OpenCloseTrait<T>::close(*fd); }
    T take() { T t(std::move(*fd)); fd.reset(); return t; }
    std::unique_ptr<T> fd;
  };
  boost::filesystem::path m_path;
  std::mutex m_mutex;
  std::condition_variable m_cv;
  int m_readers = 0;
  bool m_writer = false;
  std::vector<std::shared_ptr<void>> m_read_cache, m_write_cache;
};
class FileManager {
public:
  static std::shared_ptr<FileManager> getDefault() { static auto m = std::make_shared<FileManager>(); return m; }
  std::shared_ptr<FileHandler> getFileHandler(const boost::filesystem::path& p) {
    std::lock_guard<std::mutex> l(m_mutex);
    auto key = boost::filesystem::absolute(p).string();
    auto& w = m_handlers[key];
    auto h = w.lock();
    if (!h) { h = std::make_shared<FileHandler>(p); w = h; }
    return h;
  }
private:
  std::mutex m_mutex;
  std::map<std::string, std::weak_ptr<FileHandler>> m_handlers;
};
} }
