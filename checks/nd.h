/* nondeterministic inputs, assumptions and assertions; the same harness is decided by CBMC and replayed natively */
#ifndef ND_H
#define ND_H
#include <stdlib.h>
#include <string.h>
#ifdef ND_BMC
int nondet_int(void); double nondet_double(void);
extern long long ND_I[512]; extern double ND_D[512];
static int ND_ni, ND_nd;
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, txt) __CPROVER_assert(c, txt)
#define REACHED() __CPROVER_assert(0, "REACHED")
/* inputs are numbered statically, so that the trace names them */
#define IN_I(k) (ND_I[k] = nondet_int(), (int) ND_I[k])
#define IN_D(k) (ND_D[k] = nondet_double(), ND_D[k])
long long ND_I[512]; double ND_D[512];
#else
#include <stdio.h>
extern long long ND_I[512]; extern double ND_D[512];
void nd_assume(int c, const char *t); void nd_check(int c, const char *t, int line);
#define ASSUME(c) nd_assume(!!(c), #c)
#define CHECK(c, txt) nd_check(!!(c), txt, __LINE__)
#define REACHED() ((void) 0)
#define IN_I(k) ((int) ND_I[k])
#define IN_D(k) (ND_D[k])
#endif
/* an ordinary finite real number */
static inline double in_real(int k) { double x = IN_D(k); ASSUME(x >= -1e100 && x <= 1e100); return x; }
static inline int in_range(int k, int lo, int hi) { int x = IN_I(k); ASSUME(x >= lo && x <= hi); return x; }
#endif
