// The binding as a plain module: one function, arguments passed through; and the memory it took and has not given back.
#include <Python.h>
#include "simsched.h"
PyObject* find_info4mlff(PyObject*, PyObject*, PyObject*, PyObject*, PyObject*, PyObject*, PyObject*, PyObject*);
static PyObject* call(PyObject*, PyObject* args)
{
    PyObject* a[8];
    if (!PyArg_UnpackTuple(args, "find_info4mlff", 8, 8, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7)) return nullptr;
    sched::enter();
    PyObject* r = find_info4mlff(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    sched::leave();
    return r;
}
static PyObject* live(PyObject*, PyObject*) { return Py_BuildValue("ll", sched::live(), (long)sched::live_bytes()); }
static PyMethodDef defs[] = {{"find_info4mlff", call, METH_VARARGS, ""}, {"live", live, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef mod = {PyModuleDef_HEAD_INIT, "nbmod", "", -1, defs};
PyMODINIT_FUNC PyInit_nbmod() { return PyModule_Create(&mod); }
