/* Tells the thread simulator about memory accesses made while the GIL is released. */
#include <Python.h>
static void (*hook)(void);
static __thread int released, stack_[64], sp_;
void simgil_hook(void (*f)(void)) { hook = f; }
void sim_nogil_point(void) { if (released && hook) { released = 0; hook(); released = 1; } }
PyThreadState *__wrap_PyEval_SaveThread(void) { PyThreadState *t = PyEval_SaveThread(); released = 1; sim_nogil_point(); return t; }
void __wrap_PyEval_RestoreThread(PyThreadState *t) { sim_nogil_point(); released = 0; PyEval_RestoreThread(t); }
PyGILState_STATE __wrap_PyGILState_Ensure(void) { if (sp_ < 64) stack_[sp_] = released; sp_++; released = 0; return PyGILState_Ensure(); }
void __wrap_PyGILState_Release(PyGILState_STATE s) { PyGILState_Release(s); sp_--; released = (sp_ >= 0 && sp_ < 64) ? stack_[sp_] : 0; }
