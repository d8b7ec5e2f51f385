#pragma once
#include "common.h"
// Closed form. With p = a+b, P = (aA+bB)/p:  (x-Ax)^i (x-Bx)^j e^{-p(x-P)^2} = sum_t E_t d^t/dP^t e^{-p(x-P)^2}, obtained from
//   x^k e^{-p x^2} = sum_m k!/(2^k m!(k-2m)!) p^{-(k-m)} d^{k-2m}/dP^{k-2m} e^{-p x^2}   (explicit sums, no recurrences),
// and the s-type integral over the potential is a function h(s) of s = |P-C|^2:
//   h(s) = pref exp(-p(1-w) s) F(p w s), w = p/q, q = p+zeta; F = 1 (n=2), Boys F_0 (n=1), G_0 (n=0)
inline S herm(int n, int k, S a) { return Z(factz(n)) / Z(factz(k) * factz(n - 2 * k)) / ipow(R(2), n) / ipow(a, n - k); }
inline vector<S> E1(int i, int j, S PA, S PB, S p) { vector<S> e(i + j + 1, S(0)); for (int k = 0; k <= i; k++) for (int l = 0; l <= j; l++) { S c = Z(binomz(i, k) * binomz(j, l)) * ipow(PA, i - k) * ipow(PB, j - l); for (int m = 0; 2 * m <= k + l; m++) e[k + l - 2 * m] += c * herm(k + l, m, p); } for (auto &x : e) x = simp(x); return e; }
// d^t/dX^t g(X^2) = sum_m t!/(m!(t-2m)!) (2X)^{t-2m} g^{(t-m)}
struct Closed {
    vector<S> h; V3 PA, PB, P; S p; std::map<vector<int>, vector<S>> me, mr; 
    Closed(int n, int lmax, S p_, S q, const V3 &P_, const V3 &PA_, const V3 &PB_, S dexp) : PA(PA_), PB(PB_), P(P_), p(p_) {      // dexp: exponent of the A-B prefactor
        S w = p / q, T = p * w * dot(P, P), zeta = q - p; bool z = !sym::is_handle(T.v) && T.v == 0; S pref = exp(-dexp) * exp(-(zeta * w * dot(P, P))) * (n == 2 ? pw(hs::pi() / q, 3, 2) : n == 1 ? R(2) * hs::pi() / q : R(2) * pw(hs::pi(), 3, 2) / sqrt(q));
        vector<S> F; for (int k = 0; k <= lmax; k++) F.push_back(n == 2 ? S(k == 0) : z ? R(1, 2 * k + 1) : S(sym::fun(n == 1 ? F_BOYS : F_GFUN, T.v, 0, k)));
        vector<S> dF; for (int k = 0; k <= lmax; k++) { S f(0); if (n == 0) for (int i = 0; i <= k; i++) f += Z(binomz(k, i)) * R((k - i) % 2 ? -1 : 1) * F[i]; else f = R(k % 2 ? -1 : 1) * F[k]; dF.push_back(f); }
        for (int k = 0; k <= lmax; k++) { S f(0); for (int j = 0; j <= k; j++) f += Z(binomz(k, j)) * ipow(-(zeta * w), k - j) * ipow(p * w, j) * dF[j]; h.push_back(simp(pref * f)); }
    }
    const vector<S> &E(int d, int i, int j) { auto &e = me[{d, i, j}]; if (e.empty()) e = E1(i, j, PA[d], PB[d], p); return e; }
    // coefficients over h^{(k)}
    const vector<S> &Rd(int d, int t) { auto &r = mr[{d, t}]; if (r.empty()) { r.assign(t + 1, S(0)); for (int m = 0; 2 * m <= t; m++) r[t - m] = simp(Z(factz(t)) / Z(factz(m) * factz(t - 2 * m)) * ipow(R(2) * P[d], t - 2 * m)); } return r; }
    S get(const int *ea, const int *eb) {
        vector<S> c{S(1)};      // polynomial in "order of the derivative of h"
        for (int d = 0; d < 3; d++) { auto &e = E(d, ea[d], eb[d]); vector<S> g(e.size(), S(0)); for (size_t t = 0; t < e.size(); t++) { auto &r = Rd(d, t); for (size_t k = 0; k < r.size(); k++) g[k] += e[t] * r[k]; } for (auto &x : g) x = simp(x);
            vector<S> u(c.size() + g.size() - 1, S(0)); for (size_t i = 0; i < c.size(); i++) for (size_t k = 0; k < g.size(); k++) u[i + k] += c[i] * g[k]; c = u; }
        S r(0); for (size_t k = 0; k < c.size(); k++) r += c[k] * h[k]; return r;
    }
};

// ---- contracted matrix elements between two shells, closed forms: kind 0 overlap, 1 local potential, 2 point charge (coefficient -Z in pot.c[0])
struct PotSpec { int L = -1, J = 0; vector<int> n; vector<S> c, a; libgrpp_potential_t *make() const { return hs::potential(L, J, n, c, a); } };
struct ClosedOp {
    int kind; ShellSpec A, B; PotSpec pot; V3 C; bool norm = true; struct Pair { S a, b, f, p; V3 PA, PB; S dexp, ovp; vector<Closed> t; }; vector<Pair> pr; std::map<vector<int>, S> memo;
    std::map<vector<int>, S> omemo;
    ClosedOp(int kind_, const ShellSpec &A_, const ShellSpec &B_, const PotSpec &pot_, const V3 &C_, int lmax = -1) : kind(kind_), A(A_), B(B_), pot(pot_), C(C_) {
        if (lmax < 0) lmax = A.L + B.L; V3 AB = A.o - B.o; for (int d = 0; d < 3; d++) AB[d] = simp(AB[d]);
        for (size_t i = 0; i < A.a.size(); i++) for (size_t j = 0; j < B.a.size(); j++) { S a = A.a[i], b = B.a[j], p = a + b; Pair q; q.a = a; q.b = b; q.p = p; q.f = A.c[i] * norm_code(A.L, a) * B.c[j] * norm_code(B.L, b);
            V3 P = (R(1) / p) * (a * (A.o - C) + b * (B.o - C)); for (int d = 0; d < 3; d++) { P[d] = simp(P[d]); q.PA[d] = simp(-(b / p) * AB[d]); q.PB[d] = simp(a / p * AB[d]); }
            q.dexp = a * b / p * dot(AB, AB); q.ovp = exp(-q.dexp) * pw(hs::pi() / p, 3, 2);
            if (kind) for (size_t k = 0; k < pot.n.size(); k++) q.t.emplace_back(pot.n[k], lmax, p, p + pot.a[k], P, q.PA, q.PB, q.dexp);
            pr.push_back(q); } }
    S prim(size_t i, const int *ea, const int *eb) { vector<int> k{(int) i, ea[0], ea[1], ea[2], eb[0], eb[1], eb[2]}; auto it = memo.find(k); if (it != memo.end()) return it->second; auto &q = pr[i]; S v(0);
        for (int d = 0; d < 3; d++) if (ea[d] < 0 || eb[d] < 0) return S(0);
        if (!kind) v = q.ovp * ov1(ea[0], eb[0], q.PA[0], q.PB[0], q.p) * ov1(ea[1], eb[1], q.PA[1], q.PB[1], q.p) * ov1(ea[2], eb[2], q.PA[2], q.PB[2], q.p);
        else for (size_t t = 0; t < q.t.size(); t++) v += pot.c[t] * q.t[t].get(ea, eb);
        return memo[k] = q.f * v; }
    // matrix element, differentiated with respect to coordinate dA of A's centre and dB of B's centre (-1: not): d/dA x^n e^{-ax^2} = 2a x^{n+1} - n x^{n-1}
    S get(const int *ea, const int *eb, int dA = -1, int dB = -1) { S s(0); for (size_t i = 0; i < pr.size(); i++) s += one(i, ea, eb, dA, dB); return s; }
    S one(size_t i, const int *ea, const int *eb, int dA, int dB) {
        if (dA >= 0) { int u[3] = {ea[0], ea[1], ea[2]}; u[dA]++; S v = R(2) * pr[i].a * one(i, u, eb, -1, dB); u[dA] -= 2; if (u[dA] >= 0) v -= R(ea[dA]) * one(i, u, eb, -1, dB); return v; }
        if (dB >= 0) { int u[3] = {eb[0], eb[1], eb[2]}; u[dB]++; S v = R(2) * pr[i].b * one(i, ea, u, -1, -1); u[dB] -= 2; if (u[dB] >= 0) v -= R(eb[dB]) * one(i, ea, u, -1, -1); return v; }
        return prim(i, ea, eb); }
};
