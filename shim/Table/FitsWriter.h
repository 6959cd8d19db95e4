#pragma once
#include "Table/TableWriter.h"
namespace Euclid { namespace Table {
class FitsWriter : public TableWriter { public: explicit FitsWriter(const std::string& f, bool override_flag = false) { m_name = f; if (override_flag) std::ofstream(f, std::ios::trunc); } FitsWriter& setHduName(const std::string& n) { m_hdu = n; return *this; } };
} }
