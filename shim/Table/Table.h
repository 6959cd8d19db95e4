#pragma once
#include "Table/Row.h"
