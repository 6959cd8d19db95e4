#pragma once
#include <boost/filesystem.hpp>
#include <string>
namespace Elements {
inline boost::filesystem::path getAuxiliaryPath(const std::string& f, bool = true) { return boost::filesystem::path("/nonexistent") / f; }
}
