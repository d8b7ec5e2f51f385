// C19: cycles of initialisation change no result and keep memory bounded
#include "common.h"
#include <malloc.h>
extern "C" double modified_bessel_scaled(int, double);
extern "C" double evaluate_real_spherical_harmonic(int, int, const double *);
static void cycles(int n) {
    V3 k = vec("k"); auto kv = hs::inv(vs(k)); vector<vector<double>> res; vector<size_t> mem; double b0 = 0;
    S x = hs::var("x", true); hs::assume_between(x, R(1, 1000), R(12, 1000));
    for (int c = 0; c < n; c++) { hs::expect(LG(libgrpp_is_initialized)() != 0, "initialised"); vector<double> r; for (int l : {0, 1, 2, 5}) for (int m = -l; m <= l; m++) r.push_back(LG(evaluate_real_spherical_harmonic)(l, m, kv.data()));
        res.push_back(r); LG(libgrpp_finalize)(); hs::expect(LG(libgrpp_is_initialized)() == 0, "finalised"); LG(libgrpp_init)(); LG(libgrpp_init)(); if (!hs::symbolic) malloc_trim(0); mem.push_back(mallinfo2().uordblks); }
    for (int c = 1; c < n; c++) for (size_t i = 0; i < res[c].size(); i++) hs::eqd("cycle " + to_string(c), res[c][i], res[0][i]);
    // memory: n-2 more cycles after the first may not keep more than a few kilobytes each
    LG(libgrpp_finalize)(); LG(libgrpp_init)(); size_t a = mallinfo2().uordblks; for (int c = 0; c < (hs::symbolic ? 2 : 30); c++) { LG(libgrpp_finalize)(); LG(libgrpp_init)(); } size_t b = mallinfo2().uordblks; hs::expect(b < a + 4000, "memory does not grow with cycles: " + to_string(a) + " -> " + to_string(b));
}
static void bessel(int n) { hs::validate = false; S x = hs::var("x", true); hs::assume_between(x, R(11, 10) + R(n, 7), R(11, 10) + R(n, 7) + R(1, 1000)); double a = LG(modified_bessel_scaled)(n, hs::in(x)); LG(libgrpp_finalize)(); LG(libgrpp_init)(); double b = LG(modified_bessel_scaled)(n, hs::in(x)); hs::eqd("bessel", a, b); }
static void declare() { hs::setup = [] { LG(libgrpp_init)(); }; hs::add("cycles", [] { cycles(2); }); for (int n = 0; n <= 20; n += 5) hs::add("bessel" + to_string(n), [=] { bessel(n); }); }
int main(int c, char **v) { return hs::main_(c, v, declare); }
