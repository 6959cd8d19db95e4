// Force-included (and precompiled) for every /repo translation unit: the standard headers that /repo gets transitively
// through the real Elements/Alexandria headers, plus the heaviest common ones.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <boost/variant.hpp>
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
