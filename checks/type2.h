#include <set>
#pragma once
// Semilocal and spin-orbit integrals at the level of the radial integrand.
// j_n(s) = i_n(sqrt s)/sqrt(s)^n obeys j_{n-1} = (2n+1) j_n + s j_{n+1} and dj_n/ds = j_{n+1}/2; every j_n is reduced to the
// pair (j_M, j_{M+1}), M = t2_order, so that equal integrands have equal normal forms.
#include "rsh.h"
extern int t2_order; int t2_order = 6;
static S t2_r() { return hs::var("r", true); }
inline S jn(int n, S s) {
    struct K { uint64_t u; int n, o; bool operator<(const K &x) const { return std::tie(u, n, o) < std::tie(x.u, x.n, x.o); } }; static std::map<K, S> memo; uint64_t u; memcpy(&u, &s.v, 8);
    if (hs::symbolic || true) { K k{u, n, t2_order}; auto it = memo.find(k); if (it != memo.end()) return it->second;
        S v; if (n >= t2_order) { v = S(sym::fun(F_JB, s.v, 0, n)); if (n > t2_order + 1) { v = (jn(n - 2, s) - R(2 * n - 1) * jn(n - 1, s)) / s; } } else v = R(2 * n + 3) * jn(n + 1, s) + s * jn(n + 2, s);
        if (!sym::is_handle(s.v) && s.v == 0) v = S(sym::fun(F_JB, 0.0, 0, n));
        return memo[k] = v; } }
// ---- models of the radial layer (its own correctness: C21, C13)
extern bool t2_cheap; bool t2_cheap = false;       // tables of one constant: only the indices matter
struct T2Table { int n1, n2, nn; vector<S> F1, F2; S U; };
inline S t2_potential(const vector<int> &n, const vector<S> &c, const vector<S> &a) { S r = t2_r(), u(0); for (size_t i = 0; i < n.size(); i++) u += c[i] * ipow(r, n[i]) * exp(-(a[i] * r * r)); return u; }      // r^2 U(r)
extern "C" {
void *__stub_tabulate_radial_type2_integrals(int l1, int l2, int nn, double CA2, double CB2, libgrpp_potential_t *pot, libgrpp_shell_t *bra, libgrpp_shell_t *ket) {
    auto *t = new T2Table; t->n1 = l1; t->n2 = l2; t->nn = nn; if (t2_cheap) return t; S r = t2_r();
    vector<int> pn; vector<S> pc, pa; for (int i = 0; i < pot->num_primitives; i++) { pn.push_back(pot->powers[i]); pc.push_back(S(pot->coeffs[i])); pa.push_back(S(pot->alpha[i])); } t->U = t2_potential(pn, pc, pa);
    auto fill = [&](vector<S> &F, int lm, double c2, libgrpp_shell_t *g) { S C2 = simp(S(c2)); S CA = !sym::is_handle(C2.v) && C2.v == 0 ? S(0) : sqrt(C2); for (int l = 0; l <= lm; l++) { S f(0); for (int i = 0; i < g->num_primitives; i++) { S a(g->alpha[i]), k = R(2) * a * r; f += S(g->coeffs[i]) * norm_code(g->L, a) * exp(-(a * (r * r + C2))) * ipow(k, l) * jn(l, simp(k * k * C2)); } F.push_back(simp(f * ipow(CA, l))); } };
    fill(t->F1, l1, CA2, bra); fill(t->F2, l2, CB2, ket); return t; }
double __stub_get_radial_type2_integral(void *p, int l1, int l2, int n) { auto *t = (T2Table *) p; if (l1 < 0 || l2 < 0 || n < 0 || l1 > t->n1 || l2 > t->n2 || n > t->nn) throw PathAbort{"radial table index out of range"}; if (t2_cheap) return 0.25; return (t->F1[l1] * t->F2[l2] * t->U * ipow(t2_r(), n)).v; }
void __stub_delete_radial_type2_integrals(void *p) { delete (T2Table *) p; }
}
// closed-form angular integral for large cases (the library's own is proved equal in the unstubbed cases and in C18)
extern bool t2_stub_angular; bool t2_stub_angular = false;
extern "C" double angular_type2_integral(int, int, int, int, int, int, const double *);
extern "C" double __stub_angular_type2_integral(int lambda, int L, int m, int a, int b, int c, const double *y) {
    if (t2_cheap) { static std::set<array<int, 6>> seen; if (a + b + c > 1 && a + b + c < 9) return 0.5; if (seen.insert({lambda, L, m, a, b, c}).second && (lambda * 3 + L + m + a + 2 * b) % 5 == 0) LG(angular_type2_integral)(lambda, L, m, a, b, c, y); return 0.5; }
    if (!t2_stub_angular) return LG(angular_type2_integral)(lambda, L, m, a, b, c, y);
    static std::map<vector<int>, vector<std::pair<int, S>>> memo; auto &w = memo[{lambda, L, m, a, b, c}];
    if (w.empty()) { QPoly q = qmul(rsh(L, m).p, qmono(a, b, c)); w.push_back({-99, S(0)}); for (int mu = -lambda; mu <= lambda; mu++) { mpq_class v = qsphere(qmul(rsh(lambda, mu).p, q)); if (v != 0) w.push_back({mu, simp(rsh_norm(lambda, mu) * rsh_norm(L, m) * R(4) * hs::pi() * Q(v))}); } }
    S s(0); for (auto &x : w) if (x.first != -99) s += S(y[x.first + lambda]) * x.second; return s.v; }
// ---- oracle: int dOmega (r n - A)^e exp(-a |r n - A|^2) Y_LM(n) through centre derivatives of
//      4 pi (2ar)^L S_LM(A) j_L(4a^2r^2A^2) exp(-a(r^2+A^2)), A relative to the potential origin
struct Proj {
    int L; S a; V3 A; std::map<std::pair<int, array<int, 3>>, std::map<array<int, 6>, mpq_class>> memo; // (n, x, y, z, alpha, r) exponents
    std::map<array<int, 6>, S> pows; S s, e; vector<vector<S>> xp; vector<S> ap, rp; std::map<vector<int>, S> res;
    Proj(int L_, S a_, const V3 &A_) : L(L_), a(a_), A(A_) { S r = t2_r(); s = simp(R(4) * a * a * r * r * dot(A, A)); e = exp(-(a * (r * r + dot(A, A)))); }
    typedef std::map<array<int, 6>, mpq_class> P;
    const P &der(int m, array<int, 3> t) {
        auto key = std::make_pair(m, t); auto it = memo.find(key); if (it != memo.end()) return it->second; P p;
        int d = t[0] ? 0 : t[1] ? 1 : t[2] ? 2 : -1;
        if (d < 0) { for (auto &x : rsh(L, m).p) { mpq_class c = x.second; for (int i = 0; i < L; i++) c *= 2; p[{L, x.first[0], x.first[1], x.first[2], L, L}] = c; } }
        else { t[d]--; const P &q = der(m, t);
            for (auto &x : q) { auto k = x.first; if (k[1 + d]) { auto k2 = k; k2[1 + d]--; p[k2] += x.second * k[1 + d]; } { auto k2 = k; k2[1 + d]++; k2[4]++; p[k2] -= 2 * x.second; } { auto k2 = k; k2[0]++; k2[1 + d]++; k2[4] += 2; k2[5] += 2; p[k2] += 4 * x.second; } }
            for (auto i = p.begin(); i != p.end();) if (i->second == 0) i = p.erase(i); else ++i; }
        return memo[key] = p; }
    S value(int m, array<int, 3> t) { S v(0), r = t2_r(); for (auto &x : der(m, t)) { auto &k = x.first; S c = Q(x.second) * ipow(a, k[4]) * ipow(r, k[5]); bool z = false; for (int d = 0; d < 3; d++) { if (k[1 + d] && !sym::is_handle(A[d].v) && A[d].v == 0) z = true; c = c * ipow(A[d], k[1 + d]); } if (!z) v += c * jn(k[0], s); } return R(4) * hs::pi() * rsh_norm(L, m) * e * v; }
    // Cartesian Gaussian with extra centre derivatives g (for gradients)
    S cart(int m, const int *ea, array<int, 3> g = {0, 0, 0}) { vector<int> key{m, ea[0], ea[1], ea[2], g[0], g[1], g[2]}; auto it = res.find(key); if (it != res.end()) return it->second;
        S v(0); for (int i = 0; 2 * i <= ea[0]; i++) for (int j = 0; 2 * j <= ea[1]; j++) for (int k = 0; 2 * k <= ea[2]; k++) v += hermc(ea[0], i, a) * hermc(ea[1], j, a) * hermc(ea[2], k, a) * value(m, {ea[0] - 2 * i + g[0], ea[1] - 2 * j + g[1], ea[2] - 2 * k + g[2]});
        return res[key] = simp(v); }
    static S hermc(int n, int k, S a) { return Z(factz(n)) / Z(factz(k) * factz(n - 2 * k)) / ipow(R(2), n) / ipow(a, n - k); }
};
// contracted shell
struct ProjShell { int L; vector<Proj> p; vector<S> w; std::map<vector<int>, S> memo;
    ProjShell(int lpot, const ShellSpec &sp, const V3 &C) : L(lpot) { for (size_t i = 0; i < sp.a.size(); i++) { V3 A; for (int d = 0; d < 3; d++) A[d] = simp(sp.o[d] - C[d]); p.emplace_back(lpot, sp.a[i], A); w.push_back(sp.c[i] * norm_code(sp.L, sp.a[i])); } }
    S cart(int m, const int *ea, array<int, 3> g = {0, 0, 0}) { vector<int> key{m, ea[0], ea[1], ea[2], g[0], g[1], g[2]}; auto it = memo.find(key); if (it != memo.end()) return it->second; S v(0); for (size_t i = 0; i < p.size(); i++) v += w[i] * p[i].cart(m, ea, g); return memo[key] = simp(v); } };
// Im <S_m1| l_k |S_m2>, from the rotation generators acting on the solid harmonics
inline S lk(int l, int k, int m1, int m2) { static std::map<array<int, 4>, S> memo; auto it = memo.find({l, k, m1, m2}); if (it != memo.end()) return it->second; mpq_class v = qsphere(qmul(rsh(l, m1).p, qrot(rsh(l, m2).p, k))); return memo[{l, k, m1, m2}] = v == 0 ? S(0) : simp(-(rsh_norm(l, m1) * rsh_norm(l, m2) * R(4) * hs::pi() * Q(v))); }
