#pragma once
#include <boost/algorithm/string.hpp>
#include <boost/lexical_cast.hpp>
#include <string>
#include <vector>
namespace Euclid {
template <typename T> std::vector<T> stringToVector(const std::string& str, const std::string& sep = ",") {
  std::vector<T> result;
  if (str.empty()) return result;
  std::vector<std::string> parts;
  boost::split(parts, str, boost::is_any_of(sep));
  for (auto& p : parts) { boost::trim(p); result.push_back(boost::lexical_cast<T>(p)); }
  return result;
}
}
