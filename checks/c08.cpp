// C08 end to end: gradients of local, semilocal and spin-orbit integrals against derivatives of the closed forms
#include "closed.h"
#include "type2.h"
#include "stubs.h"
#include "stubs_rsh.h"
#include "geo.h"
static void run(int kind, int L, int la, int lb, int pat, int at, int np, vector<int> pw, bool ratexp) {
    t2_order = std::max(L + std::max(la, lb) + 1, 1); Geo g = geo(pat, L * 7 + la * 3 + lb); Rnd rn(17 * L + la + lb); ShellSpec sA{la, g.A, {}, {}}, sB{lb, g.B, {}, {}};
    for (int i = 0; i < np; i++) { string t = to_string(i); sA.c.push_back(hs::var("ca" + t)); sA.a.push_back(ratexp ? rn.pos() : hs::var("a" + t, true)); sB.c.push_back(hs::var("cb" + t)); sB.a.push_back(ratexp ? rn.pos() : hs::var("b" + t, true)); }
    PotSpec p; p.L = L; p.J = 0; for (size_t i = 0; i < pw.size(); i++) { p.n.push_back(pw[i]); p.c.push_back(hs::var("d" + to_string(i))); p.a.push_back(ratexp ? rn.pos() : hs::var("z" + to_string(i), true)); }
    V3 P = at == 0 ? g.A : at == 1 ? g.B : g.C; auto Pv = hs::inv(vs(P)), Cv = hs::inv(vs(g.C)); auto *sa = sA.make(), *sb = sB.make(); int na = sa->cart_size, nb = sb->cart_size;
    vector<vector<vector<double>>> M(3, vector<vector<double>>(3, vector<double>(na * nb, 7.25))); vector<vector<double *>> Mp(3); for (int k = 0; k < 3; k++) for (int d = 0; d < 3; d++) Mp[k].push_back(M[k][d].data());
    auto *pot = p.make(); if (kind == 0) LG(libgrpp_type1_integrals_gradient)(sa, sb, Cv.data(), pot, Pv.data(), Mp[0].data()); else if (kind == 1) LG(libgrpp_type2_integrals_gradient)(sa, sb, Cv.data(), pot, Pv.data(), Mp[0].data()); else if (kind == 2) LG(libgrpp_spin_orbit_integrals_gradient)(sa, sb, Cv.data(), pot, Pv.data(), Mp[0].data(), Mp[1].data(), Mp[2].data()); else LG(libgrpp_overlap_integrals_gradient)(sa, sb, Pv.data(), Mp[0].data());
    auto same = [](const V3 &a, const V3 &b) { for (int d = 0; d < 3; d++) { S x = simp(a[d] - b[d]); if (sym::is_handle(x.v) || x.v != 0) return false; } return true; };
    bool isA = same(P, g.A), isB = same(P, g.B), isC = same(P, g.C) && kind != 3; int wa = isA - isC, wb = isB - isC; if (same(g.A, g.B) && (kind == 3 || same(g.A, g.C))) wa = wb = 0;
    if (kind == 0 || kind == 3) { ClosedOp O(kind == 0, sA, sB, p, g.C, la + lb + 1);
        for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) for (int d = 0; d < 3; d++) { const int *ea = sa->cart_list + 3 * i, *eb = sb->cart_list + 3 * j; S v(0); if (wa) v += R(wa) * O.get(ea, eb, d, -1); if (wb) v += R(wb) * O.get(ea, eb, -1, d); hs::eq(string("d") + "xyz"[d] + "[" + to_string(i) + "," + to_string(j) + "]", M[0][d][i * nb + j], v); } }
    else { ProjShell PA(L, sA, g.C), PB(L, sB, g.C); S U = t2_potential(p.n, p.c, p.a);
        for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) for (int d = 0; d < 3; d++) for (int k = 0; k < (kind == 2 ? 3 : 1); k++) { const int *ea = sa->cart_list + 3 * i, *eb = sb->cart_list + 3 * j; S v(0); array<int, 3> e{0, 0, 0}; e[d] = 1;
            for (int m = -L; m <= L; m++) for (int n = kind == 2 ? -L : m; n <= (kind == 2 ? L : m); n++) { S w = kind == 2 ? lk(L, k, m, n) : S(1); if (!sym::is_handle(w.v) && w.v == 0) continue; if (wa) v += R(wa) * w * PA.cart(m, ea, e) * PB.cart(n, eb); if (wb) v += R(wb) * w * PA.cart(m, ea) * PB.cart(n, eb, e); }
            hs::eqint(string("d") + "xyz"[d] + (kind == 2 ? string("so") + "xyz"[k] : string()) + "[" + to_string(i) + "," + to_string(j) + "]", M[k][d][i * nb + j], U * v, t2_r()); } }
    LG(libgrpp_delete_potential)(pot); LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 8; hs::setup = [] { LG(libgrpp_init)(); }; const char *nm[] = {"local", "arep", "so", "overlap"};
    for (int kind = 0; kind < 4; kind++) for (int L = 0; L <= (kind == 1 || kind == 2 ? th ? 3 : 2 : 0); L++) for (int la = 0; la <= (th ? 2 : 1); la++) for (int lb = 0; lb <= (th ? 2 : 1); lb++) for (int pat : {0, 1, 2, 3, 8, 7}) for (int at = 0; at < 3; at++) {
        int sum = L + la + lb; bool t2 = kind == 1 || kind == 2; if (kind == 3 && at == 2) continue; if (!th && t2 && (pat + at + sum + kind) % 3 && sum > 1) continue; if (!th && t2 && sum > 2 && pat == 0) continue;
        hs::add(string(nm[kind]) + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat) + "_at" + to_string(at), [=] { run(kind, L, la, lb, pat, at, pat == 7 ? 2 : 1, pat == 7 ? vector<int>{2, 1} : vector<int>{(sum + pat + 1) % 3}, pat >= 7); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
