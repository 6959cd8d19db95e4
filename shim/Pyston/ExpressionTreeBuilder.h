#pragma once
#include "Pyston/Graph/Node.h"
#include <functional>
#include <vector>
namespace Pyston {
namespace detail {
inline const Context*& current() { static thread_local const Context* c = nullptr; return c; }
using Fn2 = std::function<double(const Context&, double, double)>;
inline PyObject* call2(PyObject* self, PyObject* args) {
  double a, b;
  if (!PyArg_ParseTuple(args, "dd", &a, &b)) return nullptr;
  auto* f = static_cast<Fn2*>(PyCapsule_GetPointer(self, nullptr));
  static const Context none;
  try { return PyFloat_FromDouble((*f)(current() ? *current() : none, a, b)); }
  catch (const std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); return nullptr; }
}
inline boost::python::object attributes(const AttributeSet& a) {
  namespace py = boost::python;
  py::object ns = py::import("types").attr("SimpleNamespace")();
  for (auto& p : a) {
    py::object v;
    if (auto* b = boost::get<bool>(&p.second)) v = py::object(*b);
    else if (auto* i = boost::get<int64_t>(&p.second)) v = py::object(static_cast<long long>(*i));
    else v = py::object(boost::get<double>(p.second));
    py::setattr(ns, p.first.c_str(), v);
  }
  return ns;
}
struct Holder {
  explicit Holder(const boost::python::object& o) : obj(new boost::python::object(o)) {}
  ~Holder() { if (Py_IsInitialized()) { GILLocker l; delete obj; } }
  Holder(const Holder&) = delete;
  boost::python::object* obj;
};
}
template <typename Sig> class ExpressionTree;
class TreeBase {
public:
  bool isCompiled() const { return false; }
  const Exception* reason() const { static const Exception e("compilation is not available"); return &e; }
  std::shared_ptr<NodeBase> getTree() const { return std::make_shared<NodeBase>(); }
protected:
  explicit TreeBase(const boost::python::object& o) : m_f(std::make_shared<detail::Holder>(o)) {}
  template <typename F> double run(F&& f) const {
    GILLocker lock;
    try { return boost::python::extract<double>(boost::python::object(f(*m_f->obj))); }
    catch (const boost::python::error_already_set&) { throw Exception(); }
  }
  std::shared_ptr<detail::Holder> m_f;
};
template <> class ExpressionTree<double(const AttributeSet&)> : public TreeBase {
public:
  explicit ExpressionTree(const boost::python::object& o) : TreeBase(o) {}
  double operator()(const AttributeSet& a) const { return run([&](boost::python::object& f) { return f(detail::attributes(a)); }); }
};
template <> class ExpressionTree<double(double, const AttributeSet&)> : public TreeBase {
public:
  explicit ExpressionTree(const boost::python::object& o) : TreeBase(o) {}
  double operator()(double v, const AttributeSet& a) const { return run([&](boost::python::object& f) { return f(v, detail::attributes(a)); }); }
};
template <> class ExpressionTree<double(const std::vector<double>&)> : public TreeBase {
public:
  explicit ExpressionTree(const boost::python::object& o) : TreeBase(o) {}
  double operator()(const Context& c, const std::vector<double>& v) const {
    return run([&](boost::python::object& f) {
      boost::python::list l;
      for (double d : v) l.append(d);
      boost::python::tuple t(l);
      const Context* before = detail::current();
      detail::current() = &c;
      PyObject* r = PyObject_CallObject(f.ptr(), t.ptr());
      detail::current() = before;
      if (!r) boost::python::throw_error_already_set();
      return boost::python::object(boost::python::handle<>(r));
    });
  }
  double operator()(const std::vector<double>& v) const { return (*this)(Context(), v); }
};
class ExpressionTreeBuilder {
public:
  template <typename Sig> void registerFunction(const std::string& name, detail::Fn2 f) {
    static std::map<std::string, PyMethodDef> defs;
    auto& d = defs[name];
    static std::map<std::string, std::string> names;
    auto& n = names[name];
    n = name;
    d = PyMethodDef{n.c_str(), detail::call2, METH_VARARGS, nullptr};
    boost::python::object mod = boost::python::import("pyston");
    boost::python::handle<> cap(PyCapsule_New(new detail::Fn2(std::move(f)), nullptr, nullptr));
    boost::python::handle<> fn(PyCFunction_New(&d, cap.get()));
    boost::python::setattr(mod, name.c_str(), boost::python::object(fn));
  }
  template <typename Sig, typename... A> ExpressionTree<Sig> build(const boost::python::object& f, const A&...) const { return ExpressionTree<Sig>(f); }
};
}
