#pragma once
// models of the special functions (their accuracy against these definitions is property C13)
#include "sym.h"
extern "C" {
void __stub_boys_values(double x, int nmax, double *b) { for (int n = 0; n <= nmax; n++) b[n] = (!sym::is_handle(x) && x == 0) ? sym::rat(1, 2 * n + 1) : sym::fun(F_BOYS, x, 0, n); }
double __stub_boys_function(int n, double x) { return (!sym::is_handle(x) && x == 0) ? sym::rat(1, 2 * n + 1) : sym::fun(F_BOYS, x, 0, n); }
void __stub_gfun_values(double x, int nmax, double *g) { for (int n = 0; n <= nmax; n++) g[n] = (!sym::is_handle(x) && x == 0) ? sym::rat(1, 2 * n + 1) : sym::fun(F_GFUN, x, 0, n); }
void __stub_pretabulate_bessel() { }

}
