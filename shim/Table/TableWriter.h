// Writers: every row is recorded in an in-process log (for monitors) and, for named files, appended as text.
#pragma once
#include <fstream>
#include <mutex>
#include <ostream>
#include <sstream>
#include <iomanip>
#include "Table/Row.h"
namespace Euclid { namespace Table {
namespace vshim {
struct Written { std::string file, hdu; std::vector<std::string> columns; std::vector<std::string> rows; };
inline std::vector<Written>& log() { static std::vector<Written> l; return l; }
struct Str : boost::static_visitor<std::string> {
  template <typename T> std::string one(const T& v) const { std::ostringstream o; o << std::setprecision(std::is_same<T, double>::value ? 17 : 9) << v; return o.str(); }
  template <typename T> std::string operator()(const T& v) const { return one(v); }
  template <typename T> std::string operator()(const std::vector<T>& v) const { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += one(v[i]) + ","; return r + "]"; }
  template <typename T> std::string operator()(const NdArray::NdArray<T>& v) const { std::string r = "{"; for (auto s : v.shape()) r += one(s) + "x"; for (auto& x : v) r += one(x) + ","; return r + "}"; }
};
}
namespace vshim {
inline std::string typeLetter(std::type_index t) {
  if (t == typeid(bool)) return "b"; if (t == typeid(int32_t)) return "i"; if (t == typeid(int64_t)) return "l"; if (t == typeid(float)) return "f"; if (t == typeid(double)) return "d";
  if (t == typeid(std::string)) return "s"; if (t == typeid(std::vector<int32_t>)) return "vi"; if (t == typeid(std::vector<int64_t>)) return "vl"; if (t == typeid(std::vector<float>)) return "vf"; if (t == typeid(std::vector<double>)) return "vd";
  if (t == typeid(NdArray::NdArray<int32_t>)) return "ni"; if (t == typeid(NdArray::NdArray<int64_t>)) return "nl"; if (t == typeid(NdArray::NdArray<float>)) return "nf"; if (t == typeid(NdArray::NdArray<double>)) return "nd";
  return t.name();
}
}
class TableWriter {
public:
  virtual ~TableWriter() = default;
  void addData(const Table& t) {
    vshim::Written w; w.file = m_name; w.hdu = m_hdu;
    for (size_t i = 0; i < t.getColumnInfo()->size(); ++i) w.columns.push_back(t.getColumnInfo()->getDescription(i).name);
    for (auto& r : t) { std::string s; for (auto& c : r) s += boost::apply_visitor(vshim::Str{}, c) + "\t"; w.rows.push_back(s); }
    if (m_stream) for (auto& r : w.rows) *m_stream << r << "\n";
    if (!m_name.empty()) { std::ofstream o(m_name, std::ios::app); if (!m_header_done) { o << "#HDU " << m_hdu; for (auto& c : w.columns) o << "\t" << c; o << "\n#TYPES"; for (size_t i = 0; i < w.columns.size(); ++i) { auto& d = t.getColumnInfo()->getDescription(i); o << "\t" << vshim::typeLetter(d.type) << "|" << d.unit; } o << "\n"; m_header_done = true; } for (auto& r : w.rows) o << r << "\n"; }
    static std::mutex m; std::lock_guard<std::mutex> l(m); vshim::log().push_back(w);
  }
protected:
  std::string m_name, m_hdu; std::ostream* m_stream = nullptr; bool m_header_done = false;
};
} }
