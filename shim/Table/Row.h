// Stand-in for Alexandria's Table: rows of typed cells sharing a column description.
#pragma once
#include <boost/variant.hpp>
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <vector>
#include "ElementsKernel/Exception.h"
#include "NdArray/NdArray.h"
namespace Euclid { namespace Table {
struct ColumnDescription {
  ColumnDescription(std::string n, std::type_index t = typeid(std::string), std::string u = "", std::string d = "") : name(std::move(n)), type(t), unit(std::move(u)), description(std::move(d)) {}
  std::string name; std::type_index type; std::string unit; std::string description;
  bool operator==(const ColumnDescription& o) const { return name == o.name && type == o.type && unit == o.unit; }
};
class ColumnInfo {
public:
  using info_type = ColumnDescription;
  explicit ColumnInfo(std::vector<info_type> i) : m_info(std::move(i)) {}
  size_t size() const { return m_info.size(); }
  const ColumnDescription& getDescription(size_t i) const { return m_info.at(i); }
  std::unique_ptr<size_t> find(const std::string& n) const { for (size_t i = 0; i < m_info.size(); ++i) if (m_info[i].name == n) return std::unique_ptr<size_t>(new size_t(i)); return nullptr; }
  bool operator==(const ColumnInfo& o) const { return m_info == o.m_info; }
  bool operator!=(const ColumnInfo& o) const { return !(*this == o); }
private: std::vector<info_type> m_info;
};
class Row {
public:
  template <typename T> using V = std::vector<T>;
  using cell_type = boost::variant<bool, int32_t, int64_t, float, double, std::string, V<bool>, V<int32_t>, V<int64_t>, V<float>, V<double>,
      NdArray::NdArray<int32_t>, NdArray::NdArray<int64_t>, NdArray::NdArray<float>, NdArray::NdArray<double>>;
  Row(std::vector<cell_type> v, std::shared_ptr<ColumnInfo> i) : m_values(std::move(v)), m_info(std::move(i)) { if (m_values.size() != m_info->size()) throw Elements::Exception() << "Wrong number of row values";
    for (size_t i = 0; i < m_values.size(); ++i) if (std::type_index(m_values[i].type()) != m_info->getDescription(i).type) throw Elements::Exception() << "Incompatible cell type for " << m_info->getDescription(i).name << ": expected " << m_info->getDescription(i).type.name() << ", got " << m_values[i].type().name(); }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_info; }
  size_t size() const { return m_values.size(); }
  const cell_type& operator[](size_t i) const { if (i >= m_values.size()) throw Elements::Exception() << "Index out of bounds"; return m_values[i]; }
  const cell_type& operator[](const std::string& n) const { auto i = m_info->find(n); if (!i) throw Elements::Exception() << "Row does not contain column with name " << n; return m_values[*i]; }
  auto begin() const { return m_values.begin(); }
  auto end() const { return m_values.end(); }
private: std::vector<cell_type> m_values; std::shared_ptr<ColumnInfo> m_info;
};
class Table {
public:
  explicit Table(std::vector<Row> r) : m_rows(std::move(r)) { if (m_rows.empty()) throw Elements::Exception() << "Construction of empty tables is not allowed"; for (auto& x : m_rows) if (*x.getColumnInfo() != *m_rows[0].getColumnInfo()) throw Elements::Exception() << "Construction of table with inconsistent column info"; }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_rows[0].getColumnInfo(); }
  size_t size() const { return m_rows.size(); }
  const Row& operator[](size_t i) const { return m_rows.at(i); }
  auto begin() const { return m_rows.begin(); }
  auto end() const { return m_rows.end(); }
private: std::vector<Row> m_rows;
};
} }
