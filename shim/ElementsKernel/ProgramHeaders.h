#pragma once
#include "ElementsKernel/Program.h"
#include "ElementsKernel/System.h"
