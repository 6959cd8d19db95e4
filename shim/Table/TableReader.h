#pragma once
#include <fstream>
#include <sstream>
#include <fitsio.h>
#include "Table/Row.h"
namespace Euclid { namespace Table {
class TableReader { public: virtual ~TableReader() = default; virtual Table read(long = -1) = 0; };
class AsciiReader : public TableReader {
public:
  explicit AsciiReader(const std::string& f) : m_f(f) {}
  Table read(long = -1) override {
    std::ifstream in(m_f); if (!in) throw Elements::Exception() << "Cannot open " << m_f;
    std::vector<Row> rows; std::string line; std::shared_ptr<ColumnInfo> info; std::vector<std::string> names;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      if (line[0] == '#') { if (names.empty()) { std::istringstream s(line.substr(1)); std::string n; while (s >> n) names.push_back(n); } continue; }
      std::istringstream s(line); double v; std::vector<Row::cell_type> c; while (s >> v) c.emplace_back(v);
      if (!info) { std::vector<ColumnDescription> d; for (size_t i = 0; i < c.size(); ++i) d.emplace_back(i < names.size() ? names[i] : "col" + std::to_string(i + 1), typeid(double)); info = std::make_shared<ColumnInfo>(d); }
      rows.emplace_back(c, info);
    }
    return Table(rows);
  }
private: std::string m_f;
};
class FitsReader : public TableReader {   // the first table of the file, with the column types it has
public:
  explicit FitsReader(const std::string& f) { int st = 0; if (fits_open_table(&m_f, f.c_str(), READONLY, &st)) { m_f = nullptr; throw Elements::Exception() << "not a FITS table: " << f; } }
  ~FitsReader() { int st = 0; if (m_f) fits_close_file(m_f, &st); }
  Table read(long = -1) override {
    int st = 0, nc = 0; LONGLONG nr = 0; fits_get_num_rowsll(m_f, &nr, &st); fits_get_num_cols(m_f, &nc, &st);
    std::vector<std::vector<Row::cell_type>> rows(nr, std::vector<Row::cell_type>(nc)); std::vector<ColumnDescription> d;
    for (int i = 0; i < nc; ++i) {
      int type = 0; long rep = 0, w = 0; char name[FLEN_VALUE] = "", k[FLEN_KEYWORD]; fits_make_keyn("TTYPE", i + 1, k, &st); fits_read_key(m_f, TSTRING, k, name, nullptr, &st); if (st == KEY_NO_EXIST) st = 0;
      fits_get_coltype(m_f, i + 1, &type, &rep, &w, &st);
      auto get = [&](auto v, int t, auto nul) { using T = decltype(v); for (LONGLONG r = 0; r < nr; ++r) { T x[1] = {}; int any; fits_read_col(m_f, t, i + 1, r + 1, 1, 1, &nul, x, &any, &st); rows[r][i] = x[0]; } d.emplace_back(name, typeid(T)); };
      if (type == TSTRING) { for (LONGLONG r = 0; r < nr; ++r) { std::string b(w + 1, 0); char* q = &b[0]; int any; fits_read_col(m_f, TSTRING, i + 1, r + 1, 1, 1, nullptr, &q, &any, &st); rows[r][i] = std::string(b.c_str()); } d.emplace_back(name, typeid(std::string)); }
      else if (rep != 1) { for (LONGLONG r = 0; r < nr; ++r) { std::vector<double> b(rep); int any; if (rep) fits_read_col(m_f, TDOUBLE, i + 1, r + 1, 1, rep, nullptr, b.data(), &any, &st); rows[r][i] = b; } d.emplace_back(name, typeid(std::vector<double>)); }
      else if (type == TLOGICAL) { for (LONGLONG r = 0; r < nr; ++r) { char x = 0; int any; fits_read_col(m_f, TLOGICAL, i + 1, r + 1, 1, 1, nullptr, &x, &any, &st); rows[r][i] = x != 0; } d.emplace_back(name, typeid(bool)); }
      else if (type == TLONGLONG) get(int64_t(), TLONGLONG, int64_t(0));
      else if (type == TFLOAT) get(float(), TFLOAT, 0.f);
      else if (type == TDOUBLE) get(double(), TDOUBLE, 0.);
      else get(int32_t(), TINT, int32_t(0));
    }
    if (st) throw Elements::Exception() << "cannot read the table";
    auto info = std::make_shared<ColumnInfo>(d); std::vector<Row> out; for (auto& r : rows) out.emplace_back(r, info);
    return Table(out);
  }
private: fitsfile* m_f = nullptr;
};
} }
