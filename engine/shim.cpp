/* Replay build only: processor identification, allocation failures, lock release points. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cpuid.h>
#include <immintrin.h>
#include <cstdlib>
#include <cstring>
#include <new>

/* ---- processor: leaf 1 ecx, leaf 7 ebx, xcr0, (raw: the machine's own) */
static unsigned long long cpu_ecx, cpu_ebx, cpu_xcr, cpu_max = 16;
static int cpu_fake = 0;
extern "C" {
int vt_get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    if (!cpu_fake) {
        __asm__("cpuid" : "=a"(*a), "=b"(*b), "=c"(*c), "=d"(*d) : "0"(leaf), "2"(sub));
        return 1;
    }
    *a = *b = *c = *d = 0;
    if (leaf > cpu_max && leaf < 0x80000000u) return 0;
    if (leaf == 0) *a = (unsigned) cpu_max;
    else if (leaf == 1) { *c = (unsigned) cpu_ecx; *d = 0xffffffffu; }
    else if (leaf == 7 && sub == 0) { *a = 1; *b = (unsigned) cpu_ebx; *c = 0xffffffffu; }
    return 1;
}
int vt_get_cpuid(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    return vt_get_cpuid_count(leaf, 0, a, b, c, d);
}
unsigned long long vt_xgetbv(unsigned i) {
    if (!cpu_fake) {
        unsigned a, d;
        __asm__ volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(i));
        return ((unsigned long long) d << 32) | a;
    }
    if (cpu_max < 1 || !(cpu_ecx >> 27 & 1)) __builtin_trap();
    return i ? 0 : cpu_xcr;
}
int vt_cpu_supports(const char *n) {
    bool avx = cpu_max >= 7 && (cpu_ecx >> 27 & 1) && (cpu_ecx >> 28 & 1) && (cpu_xcr & 6) == 6;
    bool z = avx && (cpu_xcr & 0xe6) == 0xe6;
    if (!cpu_fake) return 1;
    if (!strcmp(n, "avx2")) return avx && (cpu_ebx >> 5 & 1);
    if (!strcmp(n, "avx512f")) return z && (cpu_ebx >> 16 & 1);
    if (!strcmp(n, "avx512bw")) return z && (cpu_ebx >> 30 & 1);
    if (!strcmp(n, "avx512dq")) return z && (cpu_ebx >> 17 & 1);
    if (!strcmp(n, "avx512vl")) return z && (cpu_ebx >> 31 & 1);
    if (!strcmp(n, "sse4.1")) return cpu_ecx >> 19 & 1;
    if (!strcmp(n, "ssse3")) return cpu_ecx >> 9 & 1;
    return 0;
}
}
__attribute__((constructor(101))) static void vt_cpu_init() {
    const char *e = getenv("VT_CPU");
    if (e && *e) {
        cpu_fake = 1;
        sscanf(e, "%llx,%llx,%llx,%llx", &cpu_ecx, &cpu_ebx, &cpu_xcr, &cpu_max);
    }
}

/* ---- allocation failures */
static long fault_at = -1, fault_n = 0, fault_hits = 0;
static const char *fault_where = "";
static bool fail(const char *w) {
    if (fault_at < 0) return false;
    if (fault_n++ == fault_at) { fault_hits++; fault_where = w; return true; }
    return false;
}
void *operator new(std::size_t n) {
    if (fail("new")) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept {
    if (fail("new")) return nullptr;
    return malloc(n ? n : 1);
}
void *operator new[](std::size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
extern "C" {
int __real_posix_memalign(void **, size_t, size_t);
/* glibc's aligned_alloc takes any size; AddressSanitizer's insists on a multiple of the alignment */
void *__wrap_aligned_alloc(size_t a, size_t n) {
    void *p = nullptr;
    if (fail("aligned_alloc") || __real_posix_memalign(&p, a < sizeof(void *) ? sizeof(void *) : a, n)) return nullptr;
    return p;
}
int __wrap_posix_memalign(void **p, size_t a, size_t n) { return fail("aligned_alloc") ? 12 : __real_posix_memalign(p, a, n); }
}
static PyMemAllocatorEx orig[3];
static void *h_malloc(void *c, size_t n) { auto o = (PyMemAllocatorEx *) c; return fail("python") ? nullptr : o->malloc(o->ctx, n); }
static void *h_calloc(void *c, size_t m, size_t n) { auto o = (PyMemAllocatorEx *) c; return fail("python") ? nullptr : o->calloc(o->ctx, m, n); }
static void *h_realloc(void *c, void *p, size_t n) { auto o = (PyMemAllocatorEx *) c; return fail("python") ? nullptr : o->realloc(o->ctx, p, n); }
static void h_free(void *c, void *p) { auto o = (PyMemAllocatorEx *) c; o->free(o->ctx, p); }
static void hook_python() {
    static bool done = false;
    if (done) return;
    done = true;
    for (int i = 0; i < 3; i++) {
        PyMem_GetAllocator((PyMemAllocatorDomain) i, &orig[i]);
        PyMemAllocatorEx h = {&orig[i], h_malloc, h_calloc, h_realloc, h_free};
        PyMem_SetAllocator((PyMemAllocatorDomain) i, &h);
    }
}

/* ---- lock release points */
static PyObject *release_cb = nullptr, *watch = nullptr;
static long releases = 0, touched = 0;
static Py_ssize_t counts[64];
extern "C" {
PyThreadState *__real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState *);
static int inside = 0;
static void other_thread(const char *w) {
    if (!release_cb || inside) return;
    inside = 1;
    PyObject *e = PyErr_GetRaisedException();
    PyObject *r = PyObject_CallFunction(release_cb, "s", w);
    Py_XDECREF(r);
    if (!r) PyErr_Clear();
    PyErr_SetRaisedException(e);
    inside = 0;
}
PyThreadState *__wrap_PyEval_SaveThread(void) {
    releases++;
    other_thread("release");
    if (watch)
        for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(watch) && i < 64; i++) counts[i] = Py_REFCNT(PyTuple_GET_ITEM(watch, i));
    return __real_PyEval_SaveThread();
}
void __wrap_PyEval_RestoreThread(PyThreadState *t) {
    __real_PyEval_RestoreThread(t);
    if (watch)
        for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(watch) && i < 64; i++)
            if (counts[i] != Py_REFCNT(PyTuple_GET_ITEM(watch, i))) touched++;
    other_thread("restore");
}
}

static PyObject *vt_arm(PyObject *, PyObject *a) {
    hook_python();
    fault_hits = 0;
    fault_n = 0;
    fault_at = PyLong_AsLong(a);
    Py_RETURN_NONE;
}
static PyObject *vt_disarm(PyObject *, PyObject *) {
    fault_at = -1;
    return Py_BuildValue("(lls)", fault_hits, fault_n, fault_where);
}
static PyObject *vt_on_release(PyObject *, PyObject *a) {
    Py_XINCREF(a);
    Py_XDECREF(release_cb);
    release_cb = a == Py_None ? nullptr : a;
    Py_RETURN_NONE;
}
static PyObject *vt_watch(PyObject *, PyObject *a) {
    Py_XINCREF(a);
    Py_XDECREF(watch);
    watch = a == Py_None ? nullptr : a;
    touched = 0;
    releases = 0;
    Py_RETURN_NONE;
}
static PyObject *vt_released(PyObject *, PyObject *) { return Py_BuildValue("(ll)", releases, touched); }
static PyMethodDef meth[] = {
        {"arm",        vt_arm,        METH_O,      nullptr},
        {"disarm",     vt_disarm,     METH_NOARGS, nullptr},
        {"on_release", vt_on_release, METH_O,      nullptr},
        {"watch",      vt_watch,      METH_O,      nullptr},
        {"released",   vt_released,   METH_NOARGS, nullptr},
        {nullptr,      nullptr,       0,           nullptr}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "vtshim", nullptr, -1, meth};
extern "C" __attribute__((visibility("default"))) PyObject *PyInit_vtshim() { return PyModule_Create(&def); }
#ifdef VT_NO_AVX512
extern "C" PyObject *PyInit_SIMDLowAVX512() {
    static PyModuleDef d = {PyModuleDef_HEAD_INIT, "SIMDLowAVX512"};
    return PyModule_Create(&d);
}
#endif
