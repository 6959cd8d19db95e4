#pragma once
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <stdexcept>
#include <vector>
#include "MathUtils/function/Function.h"
namespace Euclid { namespace MathUtils {
enum class InterpolationType { LINEAR, CUBIC_SPLINE };
namespace vshim {
inline double piece(const std::vector<double>& x, double v, bool extrapolate, size_t& i, bool& zero) {
  zero = !extrapolate && (v < x.front() || v > x.back());
  i = std::upper_bound(x.begin(), x.end(), v) - x.begin();
  if (i == 0) i = 1;
  if (i >= x.size()) i = x.size() - 1;
  return v;
}
}
// Linear and natural-cubic-spline interpolation, as the public documentation of Alexandria describes.
inline std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::vector<double>& y, InterpolationType type, bool extrapolate = false) {
  if (x.size() != y.size()) throw std::invalid_argument("interpolate: size mismatch");
  if (x.size() == 1) { double c = y[0], x0 = x[0]; return std::unique_ptr<Function>(new FunctionAdapter([=](double v) { return (extrapolate || v == x0) ? c : 0.; })); }
  size_t n = x.size();
  std::vector<double> m2(n, 0.);
  if (type == InterpolationType::CUBIC_SPLINE && n > 2) {
    std::vector<double> c(n, 0.), d(n, 0.);
    for (size_t i = 1; i + 1 < n; ++i) {
      double h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
      double b = 2 * (h0 + h1), r = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0);
      double w = b - h0 * c[i - 1];
      c[i] = h1 / w; d[i] = (r - h0 * d[i - 1]) / w;
    }
    for (size_t i = n - 1; i-- > 1;) m2[i] = d[i] - c[i] * m2[i + 1];
  }
  return std::unique_ptr<Function>(new FunctionAdapter([x, y, m2, extrapolate](double v) {
    size_t i; bool zero; vshim::piece(x, v, extrapolate, i, zero);
    if (zero) return 0.;
    double h = x[i] - x[i - 1], a = (x[i] - v) / h, b = (v - x[i - 1]) / h;
    return a * y[i - 1] + b * y[i] + ((a * a * a - a) * m2[i - 1] + (b * b * b - b) * m2[i]) * h * h / 6;
  }));
}
} }
