#pragma once
#include "Configuration/Configuration.h"
namespace Euclid { namespace Configuration {
struct ProgramOptionsHelper {
  static std::string wildcard(const std::string& n) { return n + "-*"; }
  static std::string wildcard(const std::string& n, const std::string& i) { return n + "-" + i; }
  static std::vector<std::string> findWildcardNames(const std::vector<std::string>& prefixes, const Configuration::UserValues& v) {
    std::set<std::string> r;
    for (auto& kv : v) for (auto& p : prefixes) if (kv.first.rfind(p + "-", 0) == 0) r.insert(kv.first.substr(p.size() + 1));
    return {r.begin(), r.end()};
  }
};
} }
