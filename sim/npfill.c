/* npfill: numpy's data allocator with seeded contents. np.empty and the output
 * arrays SWIG hands to the library hold garbage chosen by the seed, so a
 * result that is not fully written never looks right by accident. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_2_0_API_VERSION
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static uint64_t state = 1;
static int fill = 0;
static uint64_t nfilled = 0;
/* injected failures: allocation number fail_at and the fail_len-1 after it */
static int64_t fail_at = -1, fail_len = 1, ncall = 0, nfailed = 0;
static int failing(void)
{
  int64_t k = ncall++;
  if (fail_at >= 0 && k >= fail_at && k - fail_at < fail_len) {
    nfailed++;
    return 1;
  }
  return 0;
}

static uint64_t rnd(void)
{
  uint64_t z = (state += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

static void garbage(void *p, size_t n)
{
  size_t i;
  nfilled++;
  if (fill == 1)
    memset(p, 0, n);
  else if (fill == 2)
    memset(p, 0xff, n);
  else if (fill == 3 || fill == 4) {
    for (i = 0; i + 8 <= n; i += 8) {
      uint64_t v = rnd();
      if (fill == 4) {
        double d = ((double)(v >> 11) / 9007199254740992.0 - 0.5) * 200;
        memcpy(&v, &d, 8);
      }
      memcpy((char *)p + i, &v, 8);
    }
    memset((char *)p + i, 0xA5, n - i);
  }
}

static int64_t nlive = 0;
static void *np_malloc(void *ctx, size_t n)
{
  if (failing())
    return NULL;
  void *p = malloc(n ? n : 1);
  nlive += p != NULL;
  if (p && fill)
    garbage(p, n);
  return p;
}
static void *np_calloc(void *ctx, size_t a, size_t b)
{
  void *p = failing() ? NULL : calloc(a ? a : 1, b ? b : 1);
  nlive += p != NULL;
  return p;
}
static void *np_realloc(void *ctx, void *p, size_t n) { return failing() ? NULL : realloc(p, n ? n : 1); }
static void np_free(void *ctx, void *p, size_t n)
{
  nlive -= p != NULL;
  free(p);
}

static PyDataMem_Handler handler = {
  "nmt_sim_fill", 1, {NULL, np_malloc, np_calloc, np_realloc, np_free}};

static PyObject *install(PyObject *self, PyObject *args)
{
  PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
  if (!cap)
    return NULL;
  PyObject *old = PyDataMem_SetHandler(cap);
  Py_DECREF(cap);
  if (!old)
    return NULL;
  Py_DECREF(old);
  Py_RETURN_NONE;
}

static PyObject *configure(PyObject *self, PyObject *args)
{
  unsigned long long s;
  int f;
  if (!PyArg_ParseTuple(args, "Ki", &s, &f))
    return NULL;
  state = s * 0x9E3779B97F4A7C15ULL + 11;
  fill = f;
  Py_RETURN_NONE;
}

static PyObject *set_fail(PyObject *self, PyObject *args)
{
  long long a, l;
  if (!PyArg_ParseTuple(args, "LL", &a, &l))
    return NULL;
  fail_at = a;
  fail_len = l;
  ncall = nfailed = 0;
  Py_RETURN_NONE;
}
static PyObject *calls(PyObject *self, PyObject *args) { return PyLong_FromLongLong(ncall); }
static PyObject *failed(PyObject *self, PyObject *args) { return PyLong_FromLongLong(nfailed); }

static PyObject *count(PyObject *self, PyObject *args) { return PyLong_FromUnsignedLongLong(nfilled); }

static PyObject *live(PyObject *self, PyObject *args) { return PyLong_FromLongLong(nlive); }

static PyMethodDef methods[] = {
  {"live", live, METH_NOARGS, ""},
  {"install", install, METH_NOARGS, ""},
  {"configure", configure, METH_VARARGS, ""},
  {"set_fail", set_fail, METH_VARARGS, ""},
  {"calls", calls, METH_NOARGS, ""},
  {"failed", failed, METH_NOARGS, ""},
  {"count", count, METH_NOARGS, ""},
  {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "_npfill", NULL, -1, methods};

PyMODINIT_FUNC PyInit__npfill(void)
{
  import_array();
  return PyModule_Create(&mod);
}
