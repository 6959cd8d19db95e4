#pragma once
#include "Configuration/Configuration.h"
