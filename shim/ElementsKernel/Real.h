#pragma once
#include <cmath>
#include <limits>
#include <algorithm>
namespace Elements {
template <typename T> bool isEqual(const T& a, const T& b) {
  if (a == b) return true;
  return std::abs(a - b) <= 4 * std::numeric_limits<T>::epsilon() * std::max(std::abs(a), std::abs(b));
}
template <typename T> bool isNotEqual(const T& a, const T& b) { return !isEqual(a, b); }
}
