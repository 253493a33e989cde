/* Compiles the library as for ARM: the system headers see the real machine, the library does not. */
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fenv.h>
#include <float.h>
#include <inttypes.h>
#include <limits.h>
#include <locale.h>
#include <malloc.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdalign.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __SSE__
#undef __SSE2__
#undef __SSE3__
#undef __SSSE3__
#undef __SSE4_1__
#undef __SSE_MATH__
#undef __SSE2_MATH__
#undef __AVX__
#undef __AVX2__
#define __ARM_NEON 1
#define __ARM_NEON__ 1
#ifdef VERIF_ARM32
#define __arm__ 1
#define __ARM_ARCH 7
#else
#define __aarch64__ 1
#define __ARM_ARCH 8
#endif
