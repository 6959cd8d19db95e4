#pragma once
#include "Configuration/Configuration.h"
namespace Euclid { namespace Configuration { inline long getUniqueManagerId() { return ConfigManager::getUniqueManagerId(); } } }
namespace Euclid { inline long getUniqueManagerId() { return Configuration::ConfigManager::getUniqueManagerId(); } }
