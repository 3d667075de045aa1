#ifndef SCEN_H
#define SCEN_H
#include <stdio.h>
#include <shmem.h>
#include <shmemx.h>
#include <string.h>
#include <limits.h>
#include <float.h>
#include <complex.h>
#include "mc.h"
#ifndef NELEM
#define NELEM(a) ((int) (sizeof(a) / sizeof((a)[0])))
#endif
/* standard RMA types of the OpenSHMEM specification: X(type, name) */
#define RMA_TYPES(X) X(float, float) X(double, double) X(long double, longdouble) X(char, char) X(signed char, schar) X(short, short) X(int, int) \
    X(long, long) X(long long, longlong) X(unsigned char, uchar) X(unsigned short, ushort) X(unsigned int, uint) X(unsigned long, ulong) \
    X(unsigned long long, ulonglong) X(int8_t, int8) X(int16_t, int16) X(int32_t, int32) X(int64_t, int64) X(uint8_t, uint8) X(uint16_t, uint16) \
    X(uint32_t, uint32) X(uint64_t, uint64) X(size_t, size) X(ptrdiff_t, ptrdiff)
/* integer types with arithmetic atomics: X(type, name, unsigned) */
#define AMO_TYPES(X) X(int, int, unsigned int) X(long, long, unsigned long) X(long long, longlong, unsigned long long) X(unsigned int, uint, unsigned int) \
    X(unsigned long, ulong, unsigned long) X(unsigned long long, ulonglong, unsigned long long) X(int32_t, int32, uint32_t) X(int64_t, int64, uint64_t) \
    X(uint32_t, uint32, uint32_t) X(uint64_t, uint64, uint64_t) X(size_t, size, size_t) X(ptrdiff_t, ptrdiff, size_t)
#define AMO_BIT_TYPES(X) X(unsigned int, uint) X(unsigned long, ulong) X(unsigned long long, ulonglong) X(int32_t, int32) X(int64_t, int64) X(uint32_t, uint32) X(uint64_t, uint64)
#define AMO_EXT_TYPES(X) X(float, float) X(double, double) X(int, int) X(long, long) X(long long, longlong) X(unsigned int, uint) X(unsigned long, ulong) \
    X(unsigned long long, ulonglong) X(int32_t, int32) X(int64_t, int64) X(uint32_t, uint32) X(uint64_t, uint64) X(size_t, size) X(ptrdiff_t, ptrdiff)
#define P2P_TYPES(X) X(short, short) X(int, int) X(long, long) X(long long, longlong) X(unsigned short, ushort) X(unsigned int, uint) X(unsigned long, ulong) \
    X(unsigned long long, ulonglong) X(int32_t, int32) X(int64_t, int64) X(uint32_t, uint32) X(uint64_t, uint64) X(size_t, size) X(ptrdiff_t, ptrdiff)
/* plain read of a copy on another PE (no scheduling point) */
#define RD(p, pe) (*(volatile __typeof__(*(p)) *) mc_remote((const void *) (p), (pe)))
static inline int me_(void) { return mc_pe(); }
static inline unsigned char pat(int seed, long i) { unsigned x = (unsigned) (seed * 2654435761u + i * 40503u + 12345u); x ^= x >> 13; x *= 0x9E3779B1u; return (unsigned char) (x >> 16); }
static inline void fill(void *p, size_t n, int seed) { for (size_t i = 0; i < n; i++) ((unsigned char *) p)[i] = pat(seed, i); }
#endif
