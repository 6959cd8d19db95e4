// makes the module the library defines (PythonModule.cpp) importable inside the monitored executable
#include <Python.h>
extern "C" PyObject* PyInit__SourceXtractorPy();
namespace { const int registered = PyImport_AppendInittab("_SourceXtractorPy", &PyInit__SourceXtractorPy); }
