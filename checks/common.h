#pragma once
#include "harness.h"
#include <array>
#include <string>
#include <vector>
using std::string; using std::vector; using std::to_string; using std::array;
typedef array<S, 3> V3;
inline V3 vec(const string &n) { return {hs::var(n + "x"), hs::var(n + "y"), hs::var(n + "z")}; }
inline V3 operator+(const V3 &a, const V3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator-(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator*(S s, const V3 &a) { return {s * a[0], s * a[1], s * a[2]}; }
inline S dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline vector<S> vs(const V3 &a) { return {a[0], a[1], a[2]}; }
inline S R(long n, long d = 1) { return S::q(n, d); }
inline mpz_class binomz(int n, int k) { if (k < 0 || k > n) return 0; mpz_class r; mpz_bin_uiui(r.get_mpz_t(), n, k); return r; }
inline mpz_class factz(int n) { mpz_class r; mpz_fac_ui(r.get_mpz_t(), n); return r; }
inline mpz_class dfactz(int n) { mpz_class r = 1; for (int i = n; i > 1; i -= 2) r *= i; return r; }      // n!!, 1 for n<=1
inline S Z(const mpz_class &z) { return S(sym::rat(mpq_class(z))); }
inline S Q(const mpq_class &z) { return S(sym::rat(z)); }
inline int ncart(int L) { return (L + 1) * (L + 2) / 2; }
inline S pw(S a, long n, long d) { return S(__sym_pow(a.v, sym::rat(n, d))); }
// the documented normalisation of a primitive: (2a/pi)^(3/4) (4a)^(L/2)
inline S norm_code(int L, S a) { return pw(R(2) * a / hs::pi(), 3, 4) * pw(R(4) * a, L, 2); }
// random-looking rationals (deterministic)
struct Rnd { unsigned s; Rnd(unsigned x) : s(x * 2654435761u + 12345) {} unsigned next() { s = s * 1103515245 + 12345; return (s >> 16) & 0x7fff; } S pos() { return R(3 + next() % 14, 8); } S any() { long n = 3 + next() % 14; return R(next() & 1 ? n : -n, 8); } };
// moment of a 1D Gaussian: int x^k exp(-p x^2) dx / sqrt(pi/p)
inline S mom(int k, S p) { if (k % 2) return S(0); return Z(dfactz(k - 1)) / ipow(R(2) * p, k / 2); }
// int (x-A)^i (x-B)^j exp(-p (x-P)^2) dx / sqrt(pi/p), PA = P-A, PB = P-B
inline S ov1(int i, int j, S PA, S PB, S p) {
    S s(0); for (int k = 0; k <= i; k++) for (int l = 0; l <= j; l++) if ((k + l) % 2 == 0) s += Z(binomz(i, k) * binomz(j, l)) * ipow(PA, i - k) * ipow(PB, j - l) * mom(k + l, p); return s; }
struct ShellSpec { int L; V3 o; vector<S> c, a; libgrpp_shell_t *make() const { return hs::shell(vs(o), L, c, a); } };
