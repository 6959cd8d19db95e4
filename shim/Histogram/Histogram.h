#pragma once
#include <algorithm>
#include <cmath>
#include <sys/types.h>
#include <tuple>
#include <vector>
namespace Euclid { namespace Histogram {
template <typename VarType> class BinStrategy {
public:
  virtual ~BinStrategy() = default;
  virtual ssize_t getBinIndex(VarType value) const = 0;
  virtual VarType getEdge(size_t e) const = 0;
  virtual VarType getBin(size_t i) const { return (getEdge(i) + getEdge(i + 1)) / 2; }
  virtual std::pair<VarType, VarType> getBinEdges(size_t i) const { return {getEdge(i), getEdge(i + 1)}; }
  size_t getBinCount() const { return m_nbins; }
protected:
  size_t m_nbins = 0;
};
// Public behaviour of Euclid::Histogram::Histogram: statistics are those of the binned data, weighted by bin centre.
template <typename VarType, typename WeightType = float> class Histogram {
public:
  template <typename It, typename B> Histogram(It begin, It end, B&& binning) { init(begin, end, std::forward<B>(binning)); }
  size_t size() const { return m_counts.size(); }
  std::tuple<VarType, VarType, VarType> getStats() const {
    VarType total = 0, sum = 0, sq = 0;
    for (size_t i = m_lo; i < m_hi; ++i) { VarType c = m_bins[i], w = m_counts[i]; total += w; sum += c * w; }
    VarType mean = sum / total;
    for (size_t i = m_lo; i < m_hi; ++i) { VarType d = m_bins[i] - mean; sq += d * d * m_counts[i]; }
    VarType sigma = sq / total;
    if (sigma <= 1e-24 * mean * mean) sigma = 0;  // rounding of the mean
    // median
    VarType low = 0; VarType half = 0; (void)low;
    size_t i = m_lo, j = m_hi; WeightType lsum = 0, hsum = 0;
    // the two-ended scan of SExtractor's backguess
    while (i < j) { if (lsum < hsum) lsum += m_counts[i++]; else hsum += m_counts[--j]; }
    if (i < m_counts.size()) {
      WeightType den = 1; if (i > 0) den = std::max<WeightType>(m_counts[i - (i > 0)], m_counts[i]); 
      half = m_edges[i] + (m_edges[1] - m_edges[0]) * static_cast<VarType>(hsum - lsum) / (2 * (den > 0 ? den : 1));
    } else { half = m_edges.back(); }
    return std::make_tuple(mean, half, sigma > 0 ? std::sqrt(sigma) : VarType(0));
  }
  void clip(VarType lo, VarType hi) {
    while (m_lo + 1 < m_hi && m_edges[m_lo + 1] < lo) ++m_lo;
    while (m_hi > m_lo + 1 && m_edges[m_hi - 1] > hi) --m_hi;
  }
  std::vector<WeightType> getCounts() const { return std::vector<WeightType>(m_counts.begin() + m_lo, m_counts.begin() + m_hi); }
  std::vector<VarType> getBins() const { return std::vector<VarType>(m_bins.begin() + m_lo, m_bins.begin() + m_hi); }
  std::vector<VarType> getEdges() const { return std::vector<VarType>(m_edges.begin() + m_lo, m_edges.begin() + m_hi + 1); }
  std::pair<VarType, VarType> getBinEdges(size_t i) const { return {m_edges[i], m_edges[i + 1]}; }
private:
  template <typename It, typename B> void init(It begin, It end, B binning) {
    binning.computeBins(begin, end);
    size_t n = binning.getBinCount();
    m_counts.assign(n, 0);
    for (auto i = begin; i != end; ++i) { ssize_t b = binning.getBinIndex(*i); if (b >= 0 && static_cast<size_t>(b) < n) m_counts[b] += 1; }
    for (size_t i = 0; i < n; ++i) m_bins.push_back(binning.getBin(i));
    for (size_t i = 0; i <= n; ++i) m_edges.push_back(binning.getEdge(i));
    m_lo = 0; m_hi = n;
  }
  std::vector<WeightType> m_counts;
  std::vector<VarType> m_bins, m_edges;
  size_t m_lo = 0, m_hi = 0;
};
} }
