/*
 * Included before the sources of the extensions when they are built for C25:
 * every fallible call of the C API (and of malloc) is numbered, and the call
 * with a chosen number fails as it would without memory.
 */
#ifndef VFAPI_H
#define VFAPI_H
#include <Python.h>
#include <stdlib.h>

static long vf_calls_, vf_a_ = -1, vf_b_ = -1;

__attribute__((visibility("default"), used)) void vf_set(long a, long b)
{
	vf_calls_ = 0;
	vf_a_ = a;
	vf_b_ = b;
}

__attribute__((visibility("default"), used)) long vf_calls(void)
{
	return vf_calls_;
}

static inline int vf_hit(void)
{
	long n = vf_calls_++;
	return n == vf_a_ || n == vf_b_;
}

#define VF_P(call) (vf_hit() ? (PyErr_NoMemory(), NULL) : (call))
#define VF_I(call) (vf_hit() ? (PyErr_NoMemory(), -1) : (call))
#define VF_Z(call) (vf_hit() ? (PyErr_NoMemory(), 0) : (call))
#define VF_M(call) (vf_hit() ? NULL : (call))

#define malloc(n) VF_M(malloc(n))
#define calloc(n, m) VF_M(calloc(n, m))
#define realloc(p, n) VF_M(realloc(p, n))

#undef PyMem_Malloc
#undef PyMem_Realloc
#define PyMem_Malloc(n) VF_M(PyMem_Malloc(n))
#define PyMem_Realloc(p, n) VF_M(PyMem_Realloc(p, n))

#define PyList_New(n) VF_P(PyList_New(n))
#define PyTuple_New(n) VF_P(PyTuple_New(n))
#define PyUnicode_FromKindAndData(k, d, n) \
	VF_P(PyUnicode_FromKindAndData(k, d, n))
#define PyUnicode_Substring(s, a, b) VF_P(PyUnicode_Substring(s, a, b))
#define PyUnicode_FromStringAndSize(s, n) \
	VF_P(PyUnicode_FromStringAndSize(s, n))
#define PyObject_GetIter(o) VF_P(PyObject_GetIter(o))
#define PyIter_Next(o) VF_P(PyIter_Next(o))
#define _PyObject_GC_New(t) VF_P(_PyObject_GC_New(t))
#define PyErr_Format(...) VF_P(PyErr_Format(__VA_ARGS__))
#define PyErr_SetString(t, s) \
	(vf_hit() ? (void) PyErr_NoMemory() : PyErr_SetString(t, s))
#define PyList_Append(l, o) VF_I(PyList_Append(l, o))
#define PyObject_IsTrue(o) VF_I(PyObject_IsTrue(o))
#define PyLong_AsLong(o) VF_I(PyLong_AsLong(o))
#define PyArg_ParseTuple(...) VF_Z(PyArg_ParseTuple(__VA_ARGS__))
#define PyArg_ParseTupleAndKeywords(...) \
	VF_Z(PyArg_ParseTupleAndKeywords(__VA_ARGS__))
#endif
