/* Replay build only: makes the processor the extension sees configurable. */
#pragma once
#include <Python.h>
#if defined(__x86_64__)
#include <immintrin.h>
#include <cpuid.h>
#ifdef __cplusplus
extern "C" {
#endif
int vt_get_cpuid(unsigned int, unsigned int *, unsigned int *, unsigned int *, unsigned int *);
int vt_get_cpuid_count(unsigned int, unsigned int, unsigned int *, unsigned int *, unsigned int *, unsigned int *);
unsigned long long vt_xgetbv(unsigned int);
int vt_cpu_supports(const char *);
#ifdef __cplusplus
}
#endif
#define __get_cpuid vt_get_cpuid
#define __get_cpuid_count vt_get_cpuid_count
#undef _xgetbv
#define _xgetbv vt_xgetbv
#define __builtin_ia32_xgetbv vt_xgetbv
#define __builtin_cpu_supports vt_cpu_supports
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) vt_get_cpuid_count((l), 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(l, s, a, b, c, d) vt_get_cpuid_count((l), (s), &(a), &(b), &(c), &(d))
#endif
