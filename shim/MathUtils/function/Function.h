#pragma once
#include <functional>
#include <memory>
#include <vector>
namespace Euclid { namespace MathUtils {
class Function { public: virtual ~Function() = default; virtual std::unique_ptr<Function> clone() const = 0; virtual double operator()(const double) const = 0; };
class FunctionAdapter : public Function {
public:
  explicit FunctionAdapter(std::function<double(double)> f) : m_f(std::move(f)) {}
  std::unique_ptr<Function> clone() const override { return std::unique_ptr<Function>(new FunctionAdapter(m_f)); }
  double operator()(const double x) const override { return m_f(x); }
private: std::function<double(double)> m_f;
};
} }
