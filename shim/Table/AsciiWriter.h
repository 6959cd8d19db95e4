#pragma once
#include "Table/TableWriter.h"
namespace Euclid { namespace Table {
class AsciiWriter : public TableWriter { public: explicit AsciiWriter(const std::string& f) { m_name = f; std::ofstream(f, std::ios::trunc); } explicit AsciiWriter(std::ostream& s) { m_stream = &s; } };
} }
