// Allocation faults inside the extension module: its operator new and malloc are
// its own (see simlib/build.py: --wrap), so the interpreter's allocations are never touched.
#include <pybind11/pybind11.h>
#include <cstdlib>
static long countdown = -1, made = 0, fired = 0;
static bool fail() { made++; if (countdown > 0 && --countdown == 0) { countdown = -1; fired++; return true; } return false; }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return fail() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return fail() ? nullptr : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return fail() ? nullptr : __real_realloc(p, n); }
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static PyObject *arm(PyObject *, PyObject *a) { long n; if (!PyArg_ParseTuple(a, "l", &n)) return nullptr; countdown = n; made = 0; fired = 0; Py_RETURN_NONE; }
static PyObject *disarm(PyObject *, PyObject *) { countdown = -1; return Py_BuildValue("ll", made, fired); }
static PyMethodDef defs[] = {{"_sim_arm", arm, METH_VARARGS, nullptr}, {"_sim_disarm", disarm, METH_NOARGS, nullptr}, {nullptr, nullptr, 0, nullptr}};
void pb_sim_extras(PyObject *m) { for (PyMethodDef *d = defs; d->ml_name; d++) { PyObject *f = PyCFunction_New(d, nullptr); PyObject_SetAttrString(m, d->ml_name, f); Py_DECREF(f); } }
