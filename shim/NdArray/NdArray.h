#pragma once
#include <cassert>
#include <initializer_list>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
namespace Euclid { namespace NdArray {
template <typename T> class NdArray {
public:
  NdArray() = default;
  explicit NdArray(const std::vector<size_t>& shape) : m_shape(shape), m_data(total(shape)) {}
  NdArray(std::initializer_list<size_t> shape) : m_shape(shape), m_data(total(m_shape)) {}
  NdArray(const std::vector<size_t>& shape, const std::vector<T>& d) : m_shape(shape), m_data(d) { if (d.size() != total(shape)) throw std::invalid_argument("Data size does not match the shape"); }
  const std::vector<size_t>& shape() const { return m_shape; }
  size_t size() const { return m_data.size(); }
  template <typename... I> T& at(I... i) { return m_data[offset({static_cast<size_t>(i)...})]; }
  template <typename... I> const T& at(I... i) const { return m_data[offset({static_cast<size_t>(i)...})]; }
  T& at(const std::vector<size_t>& c) { return m_data[offset(c)]; }
  const T& at(const std::vector<size_t>& c) const { return m_data[offset(c)]; }
  auto begin() { return m_data.begin(); }
  auto end() { return m_data.end(); }
  auto begin() const { return m_data.begin(); }
  auto end() const { return m_data.end(); }
private:
  static size_t total(const std::vector<size_t>& s) { size_t t = 1; for (auto v : s) t *= v; return t; }
  size_t offset(const std::vector<size_t>& c) const {
    if (c.size() != m_shape.size()) throw std::out_of_range("Invalid number of coordinates");
    size_t o = 0;
    for (size_t i = 0; i < c.size(); ++i) { if (c[i] >= m_shape[i]) throw std::out_of_range("NdArray coordinate out of range"); o = o * m_shape[i] + c[i]; }
    return o;
  }
  std::vector<size_t> m_shape;
  std::vector<T> m_data;
};
template <typename T> std::ostream& operator<<(std::ostream& o, const NdArray<T>& a) {
  o << "<"; for (auto v : a.shape()) o << v << ","; o << ">"; for (auto v : a) o << v << ","; return o;
}
} }
