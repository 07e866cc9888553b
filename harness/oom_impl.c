// Memory which is refused: the library's own allocations (linked with --wrap) and, with Python, those of the interpreter
// made on its behalf, while oom_run() calls a function.
#ifdef OOM_PYTHON
#include <Python.h>
#endif
#include <stdlib.h>
#include <string.h>

long oom_at = -1;      // the number of the allocation which fails, -1 none
int oom_mode = 0;      // 0 that one, 1 that and all later ones
int oom_kinds = 3;     // 1 the library's, 2 the interpreter's
int oom_armed = 0;
long oom_seen = 0, oom_failed = 0;

static int refuse(int kind)
{
	if (!oom_armed || !(oom_kinds & kind))
		return 0;
	long i = oom_seen++;
	if (oom_at >= 0 && (i == oom_at || (oom_mode && i > oom_at))) {
		oom_failed++;
		return 1;
	}
	return 0;
}

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);

void* __wrap_malloc(size_t n) { return refuse(1) ? 0 : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { return refuse(1) ? 0 : __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { return refuse(1) ? 0 : __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { return refuse(1) ? 0 : __real_strdup(s); }

#ifdef OOM_PYTHON
static PyMemAllocatorEx real[3];

static void* p_malloc(void* c, size_t n) { PyMemAllocatorEx* a = c; return refuse(2) ? 0 : a->malloc(a->ctx, n); }
static void* p_calloc(void* c, size_t n, size_t m) { PyMemAllocatorEx* a = c; return refuse(2) ? 0 : a->calloc(a->ctx, n, m); }
static void* p_realloc(void* c, void* p, size_t n) { PyMemAllocatorEx* a = c; return refuse(2) ? 0 : a->realloc(a->ctx, p, n); }
static void p_free(void* c, void* p) { PyMemAllocatorEx* a = c; a->free(a->ctx, p); }

void oom_install(void)
{
	PyMemAllocatorDomain d[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
	for (int i = 0; i < 3; i++) {
		PyMem_GetAllocator(d[i], &real[i]);
		PyMemAllocatorEx a = {&real[i], p_malloc, p_calloc, p_realloc, p_free};
		PyMem_SetAllocator(d[i], &a);
	}
}

PyObject* oom_run(PyObject* f, PyObject* args, long at, int mode, int kinds)
{
	oom_at = at;
	oom_mode = mode;
	oom_kinds = kinds;
	oom_seen = oom_failed = 0;
	oom_armed = 1;
	PyObject* r = PyObject_CallObject(f, args);
	oom_armed = 0;
	if (r == NULL && !PyErr_Occurred())
		PyErr_SetString(PyExc_SystemError, "an error without an exception");
	return r;
}
#endif
