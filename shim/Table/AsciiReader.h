#pragma once
#include "Table/TableReader.h"
