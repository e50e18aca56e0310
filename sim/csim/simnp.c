/* numpy data-allocator handler of the simulator: fresh arrays are poisoned, guarded and can fail. */
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
void *simnp_malloc(void *, size_t);
void *simnp_calloc(void *, size_t, size_t);
void *simnp_realloc(void *, void *, size_t);
void simnp_free(void *, void *, size_t);
static PyDataMem_Handler H = {"sim_allocator", 1, {NULL, simnp_malloc, simnp_calloc, simnp_realloc, simnp_free}};
static PyObject *capsule, *saved;
int simnp_init(void) {
  if (_import_array() < 0) return -1;
  capsule = PyCapsule_New(&H, "mem_handler", NULL);
  return capsule ? 0 : -1;
}
int simnp_on(void) {
  PyObject *old = PyDataMem_SetHandler(capsule);
  if (!old) return -1;
  Py_XDECREF(saved);
  saved = old;
  return 0;
}
int simnp_off(void) {
  if (!saved) return 0;
  PyObject *old = PyDataMem_SetHandler(saved);
  if (!old) return -1;
  Py_DECREF(old);
  Py_CLEAR(saved);
  return 0;
}
