#pragma once
// Nuclear models: closed forms. S_k(x) = sum_n (-1)^n e^{nx}/n^k, S_k' = S_{k-1}.
#include "type2.h"
#include "nuclear_models.h"
#include "stubs.h"
#include "stubs_rsh.h"
extern int sk_zero; int sk_zero = 0;
extern "C" double __stub_specfunc_fermi_sk(int k, double x) { return sk_zero ? 0.0 : sym::fun(F_SK, x, 0, k); }
inline S SK(int k, S x) { return S(sym::fun(F_SK, x.v, 0, k)); }
inline S eta(int j) { S p = hs::pi(); return j == 2 ? p * p / R(12) : j == 4 ? R(7) * ipow(p, 4) / R(720) : R(31) * ipow(p, 6) / R(30240); }
// int_0^inf r^k / (1 + e^{(r-c)/a}) dr
inline S fermi_mom(int k, S c, S a, bool sk = true) { S s = ipow(c, k + 1) / R(k + 1); for (int j = 1; 2 * j <= k + 1; j++) s += R(2) * Z(factz(k) / factz(k + 1 - 2 * j)) * ipow(c, k + 1 - 2 * j) * ipow(a, 2 * j) * eta(2 * j);
    if (sk) s += R(k % 2 ? 1 : -1) * Z(factz(k)) * ipow(a, k + 1) * SK(k + 1, -(c / a)); return s; }
// int_0^r s^k f ds (k even) and int_r^inf s^k f ds by parts: sum_j (-1)^j k!/(k-j)! r^{k-j} a^{j+1} (antiderivatives of f)
//   outside: f = -S_0(x), x = (c-r)/a, antiderivative chain decreasing to zero at infinity
inline S fermi_tail(int k, S r, S c, S a) { S x = (c - r) / a, s(0); for (int j = 0; j <= k; j++) s -= Z(factz(k) / factz(k - j)) * ipow(r, k - j) * ipow(a, j + 1) * SK(j + 1, x); return s; }       // r > c
// inside: f = 1 + S_0(y), y = (r-c)/a
inline S fermi_head(int k, S r, S c, S a) { S y = (r - c) / a, y0 = -(c / a), s = ipow(r, k + 1) / R(k + 1); for (int j = 0; j <= k; j++) s += R(j % 2 ? -1 : 1) * Z(factz(k) / factz(k - j)) * ipow(r, k - j) * ipow(a, j + 1) * SK(j + 1, y); s -= R(k % 2 ? -1 : 1) * Z(factz(k)) * ipow(a, k + 1) * SK(k + 1, y0); return s; }
enum { N_POINT, N_BALL, N_GAUSS, N_FERMI, N_BUBBLE, N_POINTNUM };
struct Nuc { int model; S Z; vector<S> p;   // ball, gauss: Rrms; fermi: c, a; bubble: c, a, k
    S split() const { return model == N_BALL ? sqrt(R(5, 3)) * p[0] : p[0]; }       // sqrt(5/3) Rrms
    bool kinked() const { return model == N_BALL || model == N_FERMI || model == N_BUBBLE; }
    S k() const { return model == N_BUBBLE ? p[2] : S(0); }
    S norm() const { S c = p[0], a = p[1]; return fermi_mom(2, c, a) + k() / (c * c) * fermi_mom(4, c, a); }
    // rho/Z*4 pi
    S rho(S r, bool in) const { if (model == N_BALL) return in ? R(3) * Z / ipow(split(), 3) : S(0); if (model == N_GAUSS) { S xi = R(3) / (R(2) * p[0] * p[0]); return R(4) * hs::pi() * Z * pw(xi / hs::pi(), 3, 2) * exp(-(xi * r * r)); }
        S c = p[0], a = p[1]; S f = in ? R(1) + SK(0, (r - c) / a) : -SK(0, (c - r) / a); return Z / norm() * (R(1) + k() * r * r / (c * c)) * f; }
    S V(S r, bool in) const {
        if (model == N_POINT || model == N_POINTNUM) return -(Z / r);
        if (model == N_BALL) { S q = split(); return in ? -(Z / q) * (R(3, 2) - r * r / (R(2) * q * q)) : -(Z / r); }
        if (model == N_GAUSS) { S xi = R(3) / (R(2) * p[0] * p[0]); return -(Z / r) * S(__sym_erf((sqrt(xi) * r).v)); }
        S c = p[0], a = p[1], I = norm(), w = k() / (c * c);
        if (!in) return -(Z / I) * ((I - fermi_tail(2, r, c, a) - w * fermi_tail(4, r, c, a)) / r + fermi_tail(1, r, c, a) + w * fermi_tail(3, r, c, a));
        // int_r^inf = int_0^inf - int_0^r
        return -(Z / I) * ((fermi_head(2, r, c, a) + w * fermi_head(4, r, c, a)) / r + fermi_mom(1, c, a) - fermi_head(1, r, c, a) + w * (fermi_mom(3, c, a) - fermi_head(3, r, c, a))); }
};
