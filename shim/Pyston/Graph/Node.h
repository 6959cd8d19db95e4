#pragma once
#include "Pyston/Exceptions.h"
#include <boost/any.hpp>
#include <boost/variant.hpp>
#include <map>
#include <memory>
#include <string>
namespace Pyston {
using Context = std::map<std::string, boost::any>;
using Attribute = boost::variant<bool, int64_t, double>;
class AttributeSet : public std::map<std::string, Attribute> { using std::map<std::string, Attribute>::map; };
struct Visitor { virtual ~Visitor() = default; };
struct NodeBase { void visit(Visitor&) const {} };
}
