#pragma once
#include <memory>
#include <utility>
namespace Euclid { using std::make_unique; }
