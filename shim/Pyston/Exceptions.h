#pragma once
#include "Pyston/GIL.h"
#include <exception>
#include <string>
namespace log4cpp { struct Priority { enum Value { FATAL = 0, ERROR = 300, WARN = 400, INFO = 600, DEBUG = 700 }; }; }
namespace Pyston {
class Exception : public std::exception {
public:
  // takes over the pending Python error, if any
  Exception() : m_msg("Python error") {
    if (!PyErr_Occurred()) return;
    PyObject *t = nullptr, *v = nullptr, *tb = nullptr;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    if (t) { PyObject* n = PyObject_GetAttrString(t, "__name__"); if (n) { const char* s = PyUnicode_AsUTF8(n); if (s) m_msg = s; Py_DECREF(n); } }
    if (v) { PyObject* s = PyObject_Str(v); if (s) { const char* u = PyUnicode_AsUTF8(s); if (u) m_msg += std::string(": ") + u; Py_DECREF(s); } }
    PyErr_Clear();
    Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
  }
  explicit Exception(std::string m) : m_msg(std::move(m)) {}
  const char* what() const noexcept override { return m_msg.c_str(); }
  template <typename L> const Exception& log(log4cpp::Priority::Value p, L& logger) const {
    if (p <= log4cpp::Priority::ERROR) logger.error() << m_msg; else logger.debug() << m_msg;
    return *this;
  }
private:
  std::string m_msg;
};
}
