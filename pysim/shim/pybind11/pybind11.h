// A small stand-in for pybind11 (which is not installed here): enough of its
// interface, with its conversion rules and its exception translation, to compile
// the real src/wrapper.cpp unchanged.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <array>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>
#include <Eigen/Core>

void pb_sim_extras(PyObject *m); // simulator controls (allocation faults), in extras.cpp

namespace pybind11 {
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct reject {}; // an argument does not convert: try the next overload
struct error_already_set : std::exception {};
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct key_error : std::runtime_error { using std::runtime_error::runtime_error; };

namespace detail {
struct Inst { PyObject_HEAD void *ptr; void (*del)(void *); long ev; };
inline std::map<std::type_index, PyTypeObject *> &types() { static std::map<std::type_index, PyTypeObject *> t; return t; }
struct Ref { PyObject *p; explicit Ref(PyObject *q) : p(q) {} ~Ref() { Py_XDECREF(p); } Ref(const Ref &) = delete; PyObject *release() { PyObject *q = p; p = nullptr; return q; } };

// ------------------------------------------------------------ casters
template <class T, class = void> struct caster;
template <class T, class> struct caster { // a registered class, by reference
  static T &from(PyObject *o) {
    auto it = types().find(typeid(T)); if (it == types().end() || !PyObject_TypeCheck(o, it->second) || !((Inst *)o)->ptr) throw reject();
    return *(T *)((Inst *)o)->ptr;
  }
  static PyObject *to(const T &v) { auto it = types().find(typeid(T)); if (it == types().end()) throw cast_error("unregistered type"); Inst *i = (Inst *)it->second->tp_alloc(it->second, 0); if (!i) throw error_already_set(); i->ptr = new T(v); i->del = [](void *p) { delete (T *)p; }; return (PyObject *)i; }
};

template <class T> struct caster<T, typename std::enable_if<std::is_same<T, bool>::value>::type> {
  static bool from(PyObject *o) {
    if (o == Py_True) return true;
    if (o == Py_False) return false;
    if (!strcmp(Py_TYPE(o)->tp_name, "numpy.bool") || !strcmp(Py_TYPE(o)->tp_name, "numpy.bool_") || o == Py_None) { int r = PyObject_IsTrue(o); if (r >= 0) return r; PyErr_Clear(); }
    throw reject();
  }
  static PyObject *to(bool v) { return PyBool_FromLong(v); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static T from(PyObject *o) {
    if (PyFloat_Check(o)) throw reject();
    Ref i(PyNumber_Index(o));
    if (!i.p) { PyErr_Clear(); throw reject(); }
    if (std::is_unsigned<T>::value) { unsigned long long v = PyLong_AsUnsignedLongLong(i.p); if (PyErr_Occurred() || v != (unsigned long long)(T)v) { PyErr_Clear(); throw reject(); } return (T)v; }
    long long v = PyLong_AsLongLong(i.p); if (PyErr_Occurred() || v != (long long)(T)v) { PyErr_Clear(); throw reject(); } return (T)v;
  }
  static PyObject *to(T v) { return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
  static T from(PyObject *o) {
    double v = PyFloat_AsDouble(o);
    if (v == -1.0 && PyErr_Occurred()) { PyErr_Clear(); throw reject(); }
    return (T)v;
  }
  static PyObject *to(T v) { return PyFloat_FromDouble(v); }
};
template <> struct caster<std::string> {
  static std::string from(PyObject *o) {
    if (PyUnicode_Check(o)) { Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o, &n); if (!s) { PyErr_Clear(); throw reject(); } return std::string(s, n); }
    if (PyBytes_Check(o)) return std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o));
    throw reject();
  }
  static PyObject *to(const std::string &v) { PyObject *o = PyUnicode_DecodeUTF8(v.data(), v.size(), nullptr); if (!o) throw error_already_set(); return o; }
};
struct Seq {
  PyObject *s; Py_ssize_t n;
  explicit Seq(PyObject *o) : s(nullptr), n(0) {
    if (PyUnicode_Check(o) || PyBytes_Check(o) || !PySequence_Check(o)) throw reject();
    n = PySequence_Size(o); if (n < 0) { PyErr_Clear(); throw reject(); }
    s = o;
  }
  template <class T> T at(Py_ssize_t i) const { Ref r(PySequence_GetItem(s, i)); if (!r.p) { PyErr_Clear(); throw reject(); } return caster<T>::from(r.p); }
};
template <class T, class A> struct caster<std::vector<T, A>> {
  static std::vector<T, A> from(PyObject *o) { Seq s(o); std::vector<T, A> v; v.reserve(s.n); for (Py_ssize_t i = 0; i < s.n; i++) v.push_back(s.at<T>(i)); return v; }
  static PyObject *to(const std::vector<T, A> &v) { Ref l(PyList_New(v.size())); if (!l.p) throw error_already_set(); Py_ssize_t i = 0; for (const auto &x : v) PyList_SET_ITEM(l.p, i++, caster<T>::to(x)); return l.release(); }
};
template <class T, size_t N> struct caster<std::array<T, N>> {
  static std::array<T, N> from(PyObject *o) { Seq s(o); if (s.n != (Py_ssize_t)N) throw reject(); std::array<T, N> v; for (size_t i = 0; i < N; i++) v[i] = s.at<T>(i); return v; }
  static PyObject *to(const std::array<T, N> &v) { Ref l(PyList_New(N)); if (!l.p) throw error_already_set(); for (size_t i = 0; i < N; i++) PyList_SET_ITEM(l.p, i, caster<T>::to(v[i])); return l.release(); }
};
template <class A, class B> struct caster<std::pair<A, B>> {
  static std::pair<A, B> from(PyObject *o) { Seq s(o); if (s.n != 2) throw reject(); return {s.at<A>(0), s.at<B>(1)}; }
  static PyObject *to(const std::pair<A, B> &v) { Ref a(caster<A>::to(v.first)), b(caster<B>::to(v.second)); PyObject *t = PyTuple_Pack(2, a.p, b.p); if (!t) throw error_already_set(); return t; }
};
template <class... Ts> struct caster<std::tuple<Ts...>> {
  template <size_t... I> static PyObject *go(const std::tuple<Ts...> &v, std::index_sequence<I...>) { PyObject *t = PyTuple_New(sizeof...(Ts)); if (!t) throw error_already_set(); int d[] = {0, (PyTuple_SET_ITEM(t, I, caster<typename std::decay<Ts>::type>::to(std::get<I>(v))), 0)...}; (void)d; return t; }
  static PyObject *to(const std::tuple<Ts...> &v) { return go(v, std::index_sequence_for<Ts...>()); }
};
// dense Eigen types: numpy arrays of float64
template <class S, int R, int C, int O, int MR, int MC> struct caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> M;
  static PyObject *np() { static PyObject *m = PyImport_ImportModule("numpy"); return m; }
  static PyObject *to(const M &v) {
    const bool vec = R == 1 || C == 1;
    Ref a(vec ? PyObject_CallMethod(np(), "empty", "((n))", (Py_ssize_t)v.size()) : PyObject_CallMethod(np(), "empty", "((nn))", (Py_ssize_t)v.rows(), (Py_ssize_t)v.cols()));
    if (!a.p) throw error_already_set();
    Py_buffer b; if (PyObject_GetBuffer(a.p, &b, PyBUF_C_CONTIGUOUS | PyBUF_WRITABLE) != 0) throw error_already_set();
    double *d = (double *)b.buf; for (Eigen::Index i = 0; i < v.rows(); i++) for (Eigen::Index j = 0; j < v.cols(); j++) *d++ = (double)v(i, j);
    PyBuffer_Release(&b); return a.release();
  }
  static M from(PyObject *o) {
    Ref a(PyObject_CallMethod(np(), "array", "Os", o, "float64")); if (!a.p) { PyErr_Clear(); throw reject(); }
    Ref c(PyObject_CallMethod(np(), "ascontiguousarray", "O", a.p)); if (!c.p) { PyErr_Clear(); throw reject(); }
    Py_buffer b; if (PyObject_GetBuffer(c.p, &b, PyBUF_C_CONTIGUOUS) != 0) { PyErr_Clear(); throw reject(); }
    Eigen::Index r = b.ndim >= 1 ? b.shape[0] : 1, k = b.ndim >= 2 ? b.shape[1] : 1; bool bad = b.ndim > 2 || b.ndim < 1;
    if (b.ndim == 1 && R == 1) std::swap(r, k);
    if ((R != Eigen::Dynamic && R != r) || (C != Eigen::Dynamic && C != k)) bad = true;
    if (bad) { PyBuffer_Release(&b); throw reject(); }
    M m(r, k); const double *d = (const double *)b.buf; for (Eigen::Index i = 0; i < r; i++) for (Eigen::Index j = 0; j < k; j++) m(i, j) = (S)*d++;
    PyBuffer_Release(&b); return m;
  }
};
template <class T> struct caster<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static PyTypeObject *type() { auto it = types().find(typeid(T)); return it == types().end() ? nullptr : it->second; }
  static T from(PyObject *o) { auto t = type(); if (!t || !PyObject_TypeCheck(o, t)) throw reject(); return (T)((Inst *)o)->ev; }
  static PyObject *to(T v) { auto t = type(); if (!t) throw cast_error("unregistered enum"); Inst *i = (Inst *)t->tp_alloc(t, 0); if (!i) throw error_already_set(); i->ev = (long)v; return (PyObject *)i; }
};
template <class T> PyObject *to_py(T &&v) { return caster<typename std::decay<T>::type>::to(v); }

// ------------------------------------------------------------ functions
struct Overload { size_t n; std::vector<std::string> names; std::vector<PyObject *> defaults; std::function<PyObject *(PyObject **)> call; std::string sig; };
struct Func { std::string name; std::vector<Overload> ov; };

inline void translate() {
  try { throw; }
  catch (error_already_set &) {}
  catch (value_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (type_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
  catch (index_error &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (key_error &e) { PyErr_SetString(PyExc_KeyError, e.what()); }
  catch (std::bad_alloc &) { PyErr_NoMemory(); }
  catch (std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::overflow_error &e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
  catch (std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown exception"); }
}
extern "C" inline PyObject *pb_dispatch(PyObject *cap, PyObject *args, PyObject *kw) {
  Func *f = (Func *)PyCapsule_GetPointer(cap, "pb");
  Py_ssize_t na = PyTuple_GET_SIZE(args), nk = kw ? PyDict_Size(kw) : 0;
  try {
    for (auto &o : f->ov) {
      PyObject *a[64] = {nullptr};
      if ((size_t)na > o.n || o.n > 60) continue;
      Py_ssize_t used = 0; bool ok = true;
      for (Py_ssize_t i = 0; i < na; i++) a[i] = PyTuple_GET_ITEM(args, i);
      for (size_t i = na; i < o.n && ok; i++) {
        if (i < o.names.size() && !o.names[i].empty() && nk) { if (PyObject *v = PyDict_GetItemString(kw, o.names[i].c_str())) { a[i] = v; used++; } }
        if (!a[i] && i < o.defaults.size()) a[i] = o.defaults[i];
        if (!a[i]) ok = false;
      }
      if (!ok || used != nk) continue;
      try { return o.call(a); } catch (reject &) { continue; }
    }
  } catch (...) { translate(); return nullptr; }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", f->name.c_str());
  return nullptr;
}
template <class T> struct arg_get { static decltype(auto) get(PyObject *o) { return caster<typename std::decay<T>::type>::from(o); } };
template <class T> struct holder { T v; }; // keeps converted arguments alive during the call

template <class R, class F, class Tup, size_t... I>
typename std::enable_if<std::is_void<R>::value, PyObject *>::type invoke(F &f, Tup &t, std::index_sequence<I...>) { f(static_cast<typename std::tuple_element<I, Tup>::type &>(std::get<I>(t))...); Py_RETURN_NONE; }
template <class R, class F, class Tup, size_t... I>
typename std::enable_if<!std::is_void<R>::value, PyObject *>::type invoke(F &f, Tup &t, std::index_sequence<I...>) { return to_py(f(static_cast<typename std::tuple_element<I, Tup>::type &>(std::get<I>(t))...)); }

template <class T> struct arg_store { typedef decltype(caster<typename std::decay<T>::type>::from(nullptr)) type; };
template <class R, class... A, class F, size_t... I>
std::function<PyObject *(PyObject **)> bind(F f, std::index_sequence<I...>) {
  return [f](PyObject **a) mutable -> PyObject * {
    (void)a;
    // braces: converted left to right
    std::tuple<typename arg_store<A>::type...> t{caster<typename std::decay<A>::type>::from(a[I])...};
    auto g = [&f](typename std::remove_reference<typename arg_store<A>::type>::type &...x) -> R { return f(static_cast<A>(static_cast<typename std::conditional<std::is_lvalue_reference<A>::value, A, typename std::remove_reference<typename arg_store<A>::type>::type &>::type>(x))...); };
    return invoke<R>(g, t, std::index_sequence_for<A...>());
  };
}
template <class F> struct sig : sig<decltype(&F::operator())> {};
template <class R, class C, class... A> struct sig<R (C::*)(A...) const> { typedef R (*type)(A...); static constexpr size_t n = sizeof...(A); template <class F> static std::function<PyObject *(PyObject **)> make(F f) { return bind<R, A...>(f, std::index_sequence_for<A...>()); } };
template <class R, class C, class... A> struct sig<R (C::*)(A...)> : sig<R (C::*)(A...) const> {};
template <class R, class... A> struct sig<R (*)(A...)> { static constexpr size_t n = sizeof...(A); template <class F> static std::function<PyObject *(PyObject **)> make(F f) { return bind<R, A...>(f, std::index_sequence_for<A...>()); } };
} // namespace detail

struct arg { std::string name; PyObject *def = nullptr; bool set = false; explicit arg(const char *n) : name(n) {} template <class T> arg operator=(T &&v) const { arg a(*this); a.def = detail::to_py(std::forward<T>(v)); a.set = true; return a; } arg &noconvert(bool = true) { return *this; } };
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }
struct is_method { template <class T> is_method(T) {} };
template <class... T> struct call_guard {};
struct gil_scoped_release {}; struct gil_scoped_acquire {};
enum class return_value_policy { automatic, copy, move, reference, reference_internal, take_ownership };
template <class... A> struct overload_cast_t {
  template <class R> constexpr auto operator()(R (*p)(A...)) const -> decltype(p) { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const -> decltype(p) { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...) const, std::true_type) const -> decltype(p) { return p; }
};
template <class... A> constexpr overload_cast_t<A...> overload_cast = {};
static constexpr auto const_ = std::true_type{};
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }

namespace detail {
inline void extra(Overload &o, size_t &k, const arg &a) { if (o.names.size() <= k) { o.names.resize(k + 1); o.defaults.resize(k + 1); } o.names[k] = a.name; o.defaults[k] = a.set ? a.def : nullptr; k++; }
template <class T> void extra(Overload &, size_t &, const T &) {}
inline std::map<std::pair<PyObject *, std::string>, Func *> &funcs() { static std::map<std::pair<PyObject *, std::string>, Func *> m; return m; }
inline void add(PyObject *scope, const std::string &name, Overload o, bool method) {
  auto key = std::make_pair(scope, name); auto it = funcs().find(key);
  if (it != funcs().end()) { it->second->ov.push_back(std::move(o)); return; }
  Func *f = new Func; f->name = name; f->ov.push_back(std::move(o)); funcs()[key] = f;
  PyMethodDef *d = new PyMethodDef{f->name.c_str(), (PyCFunction)(void *)pb_dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
  PyObject *cap = PyCapsule_New(f, "pb", nullptr), *fn = PyCFunction_New(d, cap); Py_DECREF(cap);
  PyObject *m = method ? PyInstanceMethod_New(fn) : fn; if (method) Py_DECREF(fn);
  PyObject_SetAttrString(scope, name.c_str(), m); Py_DECREF(m);
}
extern "C" inline PyObject *pb_new(PyTypeObject *t, PyObject *, PyObject *) { Inst *i = (Inst *)t->tp_alloc(t, 0); if (i) { i->ptr = nullptr; i->del = nullptr; i->ev = 0; } return (PyObject *)i; }
extern "C" inline void pb_dealloc(PyObject *o) { Inst *i = (Inst *)o; if (i->ptr && i->del) i->del(i->ptr); PyTypeObject *t = Py_TYPE(o); t->tp_free(o); Py_DECREF(t); }
extern "C" inline PyObject *pb_enum_cmp(PyObject *a, PyObject *b, int op) { if (Py_TYPE(a) != Py_TYPE(b) || (op != Py_EQ && op != Py_NE)) Py_RETURN_NOTIMPLEMENTED; bool e = ((Inst *)a)->ev == ((Inst *)b)->ev; return PyBool_FromLong(e == (op == Py_EQ)); }
extern "C" inline Py_hash_t pb_enum_hash(PyObject *a) { return ((Inst *)a)->ev + 1; }
extern "C" inline PyObject *pb_enum_int(PyObject *a) { return PyLong_FromLong(((Inst *)a)->ev); }
inline PyTypeObject *make_type(PyObject *mod, const char *name, bool en) {
  std::string *full = new std::string(std::string(PyModule_GetName(mod)) + "." + name);
  std::vector<PyType_Slot> s{{Py_tp_new, (void *)pb_new}, {Py_tp_dealloc, (void *)pb_dealloc}};
  if (en) { s.push_back({Py_tp_richcompare, (void *)pb_enum_cmp}); s.push_back({Py_tp_hash, (void *)pb_enum_hash}); s.push_back({Py_nb_int, (void *)pb_enum_int}); s.push_back({Py_nb_index, (void *)pb_enum_int}); }
  s.push_back({0, nullptr});
  PyType_Spec sp = {full->c_str(), (int)sizeof(Inst), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, s.data()};
  PyObject *t = PyType_FromSpec(&sp); if (!t) throw error_already_set();
  PyObject_SetAttrString(mod, name, t); return (PyTypeObject *)t;
}
} // namespace detail

class module_ {
  PyObject *m;
public:
  explicit module_(PyObject *p) : m(p) {}
  PyObject *ptr() const { return m; }
  struct doc_t { PyObject *m; void operator=(const char *s) { PyObject *o = PyUnicode_FromString(s); PyObject_SetAttrString(m, "__doc__", o); Py_DECREF(o); } };
  doc_t doc() { return {m}; }
  struct attr_t { PyObject *m; std::string n; template <class T> void operator=(const T &v) { PyObject *o = detail::to_py(v); PyObject_SetAttrString(m, n.c_str(), o); Py_DECREF(o); } void operator=(const char *v) { *this = std::string(v); } };
  attr_t attr(const char *n) { return {m, n}; }
  template <class F, class... X> module_ &def(const char *name, F f, const X &...x) {
    detail::Overload o; o.n = detail::sig<F>::n; o.call = detail::sig<F>::make(f); size_t k = 0; int d[] = {0, (detail::extra(o, k, x), 0)...}; (void)d;
    detail::add(m, name, std::move(o), false); return *this;
  }
};
using module = module_;
inline module_ &module_ref(module_ &m) { return m; }

template <class T, class...> class class_ {
  PyTypeObject *t;
public:
  template <class... X> class_(module_ &m, const char *name, const X &...) { t = detail::make_type(m.ptr(), name, false); detail::types()[typeid(T)] = t; }
  template <class... A, class... X> class_ &def(init_t<A...>, const X &...x) {
    detail::Overload o; o.n = 1 + sizeof...(A); size_t k = 1; int d[] = {0, (detail::extra(o, k, x), 0)...}; (void)d;
    o.call = ctor<A...>(std::index_sequence_for<A...>());
    detail::add((PyObject *)t, "__init__", std::move(o), true); return *this;
  }
  template <class R, class C, class... A, class... X> class_ &def(const char *name, R (C::*f)(A...), const X &...x) { return put(name, [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, x...); }
  template <class R, class C, class... A, class... X> class_ &def(const char *name, R (C::*f)(A...) const, const X &...x) { return put(name, [f](const T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, x...); }
  template <class F, class... X> class_ &def(const char *name, F f, const X &...x) { return put(name, f, x...); }
  template <class F, class... X> class_ &def_static(const char *name, F f, const X &...x) { detail::Overload o; o.n = detail::sig<F>::n; o.call = detail::sig<F>::make(f); size_t k = 0; int d[] = {0, (detail::extra(o, k, x), 0)...}; (void)d; detail::add((PyObject *)t, name, std::move(o), false); return *this; }
  template <class C, class D> class_ &def_readonly(const char *name, D C::*p) { return prop(name, [p](const T &s) -> D { return s.*p; }); }
  template <class C, class D> class_ &def_readwrite(const char *name, D C::*p) { return prop(name, [p](const T &s) -> D { return s.*p; }); }
  template <class R, class C> class_ &def_property_readonly(const char *name, R (C::*f)() const) { return prop(name, [f](const T &s) -> R { return (s.*f)(); }); }
  template <class R, class C> class_ &def_property_readonly(const char *name, R (C::*f)()) { return prop(name, [f](T &s) -> R { return (s.*f)(); }); }
  template <class F> class_ &def_property_readonly(const char *name, F f) { return prop(name, f); }
private:
  template <class... A, size_t... I> static std::function<PyObject *(PyObject **)> ctor(std::index_sequence<I...>) {
    return [](PyObject **a) -> PyObject * {
      detail::Inst *self = (detail::Inst *)a[0];
      std::tuple<typename detail::arg_store<A>::type...> t{detail::caster<typename std::decay<A>::type>::from(a[I + 1])...};
      T *p = new T(static_cast<A>(std::get<I>(t))...);
      if (self->ptr && self->del) self->del(self->ptr);
      self->ptr = p; self->del = [](void *q) { delete (T *)q; }; Py_RETURN_NONE;
    };
  }
  template <class F, class... X> class_ &put(const char *name, F f, const X &...x) { detail::Overload o; o.n = detail::sig<F>::n; o.call = detail::sig<F>::make(f); size_t k = 1; int d[] = {0, (detail::extra(o, k, x), 0)...}; (void)d; detail::add((PyObject *)t, name, std::move(o), true); return *this; }
  template <class F> class_ &prop(const char *name, F f) {
    std::string g = std::string("_pb_get_") + name; put(g.c_str(), f);
    PyObject *fn = PyObject_GetAttrString((PyObject *)t, g.c_str()), *pr = PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, fn, nullptr);
    PyObject_SetAttrString((PyObject *)t, name, pr); Py_DECREF(fn); Py_DECREF(pr); return *this;
  }
};
template <class T> class enum_ {
  PyTypeObject *t; PyObject *mod; std::vector<std::pair<std::string, T>> vals;
public:
  template <class... X> enum_(module_ &m, const char *name, const X &...) : mod(m.ptr()) { t = detail::make_type(m.ptr(), name, true); detail::types()[typeid(T)] = t; }
  enum_ &value(const char *n, T v, const char * = nullptr) { PyObject *o = detail::to_py(v); PyObject_SetAttrString((PyObject *)t, n, o); Py_DECREF(o); vals.push_back({n, v}); return *this; }
  enum_ &export_values() { for (auto &v : vals) { PyObject *o = detail::to_py(v.second); PyObject_SetAttrString(mod, v.first.c_str(), o); Py_DECREF(o); } return *this; }
};
} // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                                                     \
  static void pb_fill_##name(::pybind11::module_ &var);                                                               \
  static struct PyModuleDef pb_def_##name = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {                                       \
    PyObject *p = PyModule_Create(&pb_def_##name); if (!p) return nullptr;                                             \
    try { ::pybind11::module_ m(p); pb_fill_##name(m); pb_sim_extras(p); } catch (...) { ::pybind11::detail::translate(); return nullptr; } \
    return p;                                                                                                          \
  }                                                                                                                    \
  static void pb_fill_##name(::pybind11::module_ &var)
