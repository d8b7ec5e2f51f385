#pragma once
// Outercore (non-local) part: oracle from closed-form overlap and local-potential integrals with the projector's shells
#include "rsh.h"
#include "closed.h"
#include "type2.h"
struct OcSpec { ShellSpec sh; PotSpec pot; };
// every overlap / local-potential element enters as one atom; equal normal forms give equal atoms, so the bilinear assembly is
// compared without expanding products of Gaussians
inline S oc_atom(S x) { return S(sym::opaque(x.v)); }
extern "C" {
void libgrpp_overlap_integrals(libgrpp_shell_t *, libgrpp_shell_t *, double *);
void libgrpp_type1_integrals(libgrpp_shell_t *, libgrpp_shell_t *, double *, libgrpp_potential_t *, double *);
void __stub_libgrpp_overlap_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *m) { LG(libgrpp_overlap_integrals)(a, b, m); for (int i = 0; i < a->cart_size * b->cart_size; i++) m[i] = sym::opaque(m[i]); }
void __stub_libgrpp_type1_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *c, libgrpp_potential_t *p, double *m) { LG(libgrpp_type1_integrals)(a, b, c, p, m); for (int i = 0; i < a->cart_size * b->cart_size; i++) m[i] = sym::opaque(m[i]); }
}
inline S rad_norm_factor(int L) { return pw(R(2), 4 * L + 7, 4) / pw(hs::pi(), 1, 4) / sqrt(Z(dfactz(2 * L + 1))); }      // normalised r^L e^{-a r^2}: factor * a^(L/2+3/4)
inline void snap_rad_norms() { for (int L = 0; L < 20; L++) { S f = rad_norm_factor(L); sym::Env e; sym::snap((double) sym::evalq(f.v, e), f.v); } }
inline S rad_integral(int k, S p) { /* int r^k e^{-p r^2} dr */ if (k % 2 == 0) return Z(dfactz(k - 1)) * sqrt(hs::pi()) / (R(2) * ipow(R(2), k / 2)) * pw(p, -(k + 1), 2); return Z(factz((k - 1) / 2)) / R(2) / ipow(p, (k + 1) / 2); }
struct OcOracle {
    const ShellSpec &A, &B; V3 C; vector<OcSpec> oc; bool atoms; vector<ClosedOp> sa, sb, ua, ub; std::map<vector<int>, S> memo;
    OcOracle(const ShellSpec &A_, const ShellSpec &B_, const V3 &C_, vector<OcSpec> oc_, bool atoms_ = true) : A(A_), B(B_), C(C_), oc(oc_), atoms(atoms_) {
        for (auto &o : oc) { o.sh.o = C; int e = 1; sa.emplace_back(0, A, o.sh, o.pot, C, A.L + o.sh.L + e); sb.emplace_back(0, o.sh, B, o.pot, C, B.L + o.sh.L + e); ua.emplace_back(1, A, o.sh, o.pot, C, A.L + o.sh.L + e); ub.emplace_back(1, o.sh, B, o.pot, C, B.L + o.sh.L + e); } }
    // which: 0 <A|nljm>, 1 <nljm|B>, 2 <A|U|nljm>, 3 <nljm|U|B>
    S el(int which, int i, int m, const int *e, int d = -1) { vector<int> k{which, i, m, e[0], e[1], e[2], d}; auto it = memo.find(k); if (it != memo.end()) return it->second;
        int L = oc[i].sh.L; S s(0); auto &op = which == 0 ? sa[i] : which == 1 ? sb[i] : which == 2 ? ua[i] : ub[i]; bool bra = which % 2 == 0; S ratio = sqrt(R(4) * hs::pi() / Z(dfactz(2 * L + 1))) * rsh_norm(L, m);
        auto atom = [&](const int *ee, const int *o) { S v = bra ? op.get(ee, o) : op.get(o, ee); return atoms ? oc_atom(v) : v; };
        for (auto &t : rsh(L, m).p) { int o[3] = {t.first[0], t.first[1], t.first[2]}; S v; v = d < 0 ? atom(e, o) : bra ? op.get(e, o, d, -1) : op.get(o, e, -1, d); s += Q(t.second) * ratio * v; }
        return memo[k] = s; }
    S delta(int i, int j) { auto &x = oc[i], &y = oc[j]; int L = x.sh.L; S s(0); auto one = [&](const PotSpec &p) { for (size_t a = 0; a < x.sh.a.size(); a++) for (size_t b = 0; b < y.sh.a.size(); b++) for (size_t k = 0; k < p.n.size(); k++) s += x.sh.c[a] * y.sh.c[b] * p.c[k] * rad_norm_factor(L) * pw(x.sh.a[a], 2 * L + 3, 4) * rad_norm_factor(L) * pw(y.sh.a[b], 2 * L + 3, 4) * rad_integral(2 * L + p.n[k], x.sh.a[a] + y.sh.a[b] + p.a[k]); }; one(x.pot); one(y.pot); return s / R(2); }
    std::map<std::pair<int, int>, S> dm;
    // k = -1 scalar, 0..2 spin-orbit; derivative of A's (dA) or B's (dB) centre
    S get(int k, const int *ea, const int *eb, int dA = -1, int dB = -1) { S r(0); int n = oc.size();
        for (int i = 0; i < n; i++) { int L = oc[i].sh.L, J2 = oc[i].pot.J; S w = k < 0 ? R(J2 < 2 * L ? L : L + 1, 2 * L + 1) : R(J2 < 2 * L ? -2 : 2, 2 * L + 1);
            for (int m = -L; m <= L; m++) for (int mm = k < 0 ? m : -L; mm <= (k < 0 ? m : L); mm++) { S l = k < 0 ? S(1) : lk(L, k, m, mm); if (!sym::is_handle(l.v) && l.v == 0) continue; r += w * l * (el(0, i, m, ea, dA) * el(3, i, mm, eb, dB) + el(2, i, m, ea, dA) * el(1, i, mm, eb, dB)); }
            for (int j = 0; j < n; j++) { if (oc[j].sh.L != L || oc[j].pot.J != J2) continue; auto it = dm.find({i, j}); if (it == dm.end()) it = dm.emplace(std::make_pair(i, j), delta(i, j)).first;
                for (int m = -L; m <= L; m++) for (int mm = k < 0 ? m : -L; mm <= (k < 0 ? m : L); mm++) { S l = k < 0 ? S(1) : lk(L, k, m, mm); if (!sym::is_handle(l.v) && l.v == 0) continue; r -= w * l * it->second * el(0, i, m, ea, dA) * el(1, j, mm, eb, dB); } } }
        return r; }
};
