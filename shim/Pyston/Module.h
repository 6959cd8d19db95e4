#pragma once
#include "Pyston/Graph/Node.h"
namespace Pyston {
inline PyObject* createModule() {
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "pyston", nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};
  return PyModule_Create(&def);
}
}
#define PYSTON_MODULE_INIT (&Pyston::createModule)
