/* indices into the tables of the special functions (C11): any argument, every order the library asks for (C11) */
#include "nd.h"
double boys_function(int n, double x); double modified_bessel_scaled(int n, double x); void gfun_values(double x, int nmax, double *g); void boys_values(double x, int nmax, double *b);
double Dawsons_Integral(double x); int points_are_equal(double *a, double *b);
double factorial(int n); double double_factorial(int n);
#ifndef N
#define N 20
#endif
#ifndef XLO
#define XLO 0
#define XHI 1e100
#endif
static double arg(void) { double x = IN_D(0); ASSUME(x >= XLO && x <= XHI); return x; }
static volatile double sink;
void case_boys(void) { double x = arg(); int n = in_range(1, 0, N); sink = boys_function(n, x); REACHED(); }
void case_bessel(void) { double x = arg(); int n = in_range(1, 0, N); sink = modified_bessel_scaled(n, x); REACHED(); }
void case_boys_values(void) { double x = arg(); double b[N + 1]; boys_values(x, N, b); sink = b[N]; REACHED(); }
void case_gfun_values(void) { double x = arg(); double b[N + 1]; gfun_values(x, N, b); sink = b[N]; REACHED(); }
