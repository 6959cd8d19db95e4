#pragma once
#include <boost/lexical_cast.hpp>
#include "Table/Row.h"
namespace Euclid { namespace Table {
template <typename To> class CastVisitor : public boost::static_visitor<To> {
public:
  template <typename F> typename std::enable_if<std::is_arithmetic<F>::value, To>::type operator()(const F& f) const { return static_cast<To>(f); }
  To operator()(const std::string& s) const { return boost::lexical_cast<To>(s); }
  template <typename F> typename std::enable_if<!std::is_arithmetic<F>::value, To>::type operator()(const F&) const { throw Elements::Exception("bad cast"); }
};
} }
