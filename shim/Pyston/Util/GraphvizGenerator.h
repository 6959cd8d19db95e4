#pragma once
#include "Pyston/Graph/Node.h"
namespace Pyston {
struct GraphvizGenerator : Visitor { explicit GraphvizGenerator(const std::string& n) : m_name(n) {} std::string str() const { return m_name; } std::string m_name; };
}
