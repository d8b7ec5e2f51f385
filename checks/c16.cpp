// C16: the normalisation helper of the Fortran interface
#include "common.h"
extern "C" void radial_gto_norm_factor_(int *, int *, double *, double *, double *);
static void norm(int L, int np) {
    vector<S> c, a; for (int i = 0; i < np; i++) { c.push_back(hs::var("c" + to_string(i), true)); a.push_back(hs::var("a" + to_string(i), true)); hs::assume_between(c[i], R(1, 4), R(4)); hs::assume_between(a[i], R(1, 8), R(9)); }
    auto cv = hs::inv(c), av = hs::inv(a); int l = L, n = np; double f = 7; LG(radial_gto_norm_factor_)(&l, &n, cv.data(), av.data(), &f); hs::expect(l == L && n == np, "arguments untouched");
    S s(0); for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) { S p = a[i] + a[j]; s += c[i] * c[j] * norm_code(L, a[i]) * norm_code(L, a[j]) * mom(2 * L, p) * pw(hs::pi() / p, 3, 2); }
    // f > 0 and f^2 <x^L|x^L> = (2L-1)!!
    S fs(f); hs::eq("norm", hs::in(fs * fs * s), Z(dfactz(2 * L - 1))); hs::expect(!hs::less(fs, S(0)), "positive");
    for (int i = 0; i < np; i++) { hs::eq("c", cv[i], c[i]); hs::eq("a", av[i], a[i]); } }
static void declare() { for (int L = 0; L <= 10; L++) { hs::add("norm1_" + to_string(L), [=] { norm(L, 1); }); if (L < 4 || hs::tier != "quick") hs::add("norm2_" + to_string(L), [=] { norm(L, 2); }); } }
int main(int c, char **v) { return hs::main_(c, v, declare); }
