#include "MathUtils/function/Function.h"
