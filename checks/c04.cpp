// C04: semilocal (type-2) integrals; C05: spin-orbit integrals (same geometry cases)
#include "type2.h"
#include "stubs.h"
#include "geo.h"
#include "stubs_rsh.h"
static string nm(const string &t, int L, int la, int lb) { return t + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb); }
static void run(bool so, int L, int la, int lb, int pat, int np = 1, bool ratexp = false, vector<int> pw = {2}, bool stubang = false, int zero = 0, int elstride = 1) {
    t2_stub_angular = stubang; t2_order = std::max(L + std::max(la, lb), 1); Geo g = geo(pat, L * 7 + la * 3 + lb); Rnd rn(17 * L + la + lb);
    ShellSpec sA{la, g.A, {}, {}}, sB{lb, g.B, {}, {}};
    for (int i = 0; i < np; i++) { string t = to_string(i); sA.c.push_back(zero & 1 && i == 1 ? S(0) : hs::var("ca" + t)); sA.a.push_back(ratexp ? rn.pos() : hs::var("a" + t, true)); sB.c.push_back(zero & 2 && i == 0 ? S(0) : hs::var("cb" + t)); sB.a.push_back(ratexp ? rn.pos() : hs::var("b" + t, true)); }
    vector<S> pc, pa; for (size_t i = 0; i < pw.size(); i++) { pc.push_back(zero & 4 && i == 1 ? S(0) : hs::var("d" + to_string(i))); pa.push_back(ratexp ? rn.pos() : hs::var("z" + to_string(i), true)); }
    auto *sa = sA.make(), *sb = sB.make(); int na = sa->cart_size, nb = sb->cart_size; auto Cv = hs::inv(vs(g.C)); auto *pot = hs::potential(L, 2 * L + 1, pw, pc, pa);
    vector<vector<double>> M(3, vector<double>(na * nb, 5.0));
    if (so) LG(libgrpp_spin_orbit_integrals)(sa, sb, Cv.data(), pot, M[0].data(), M[1].data(), M[2].data()); else LG(libgrpp_type2_integrals)(sa, sb, Cv.data(), pot, M[0].data());
    ProjShell PA(L, sA, g.C), PB(L, sB, g.C); S U = t2_potential(pw, pc, pa);
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { if ((i * nb + j) % elstride) continue; const int *ea = sa->cart_list + 3 * i, *eb = sb->cart_list + 3 * j; string t = "[" + to_string(i) + "," + to_string(j) + "]";
        if (!so) { S o(0); for (int m = -L; m <= L; m++) o += PA.cart(m, ea) * PB.cart(m, eb); hs::eqint("U" + t, M[0][i * nb + j], U * o, t2_r()); }
        else for (int k = 0; k < 3; k++) { S o(0); for (int m = -L; m <= L; m++) for (int n = -L; n <= L; n++) { S w = lk(L, k, m, n); if (sym::is_handle(w.v) || w.v != 0) o += PA.cart(m, ea) * PB.cart(n, eb) * w; } hs::eqint(string("SO") + "xyz"[k] + t, M[k][i * nb + j], U * o, t2_r()); } }
    LG(libgrpp_delete_potential)(pot); LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static void declare() {
    bool th = hs::tier == "thorough"; bool so = getenv("T2_SO") && atoi(getenv("T2_SO")); rsh_cap = 14; hs::setup = [] { LG(libgrpp_init)(); };
    // contractions and potential terms
    for (int L = 0; L <= 2; L++) for (int la = 0; la <= 1; la++) for (int lb = 0; lb <= 1; lb++) { if (th || la + lb + L < 4) hs::add(nm("contr2", L, la, lb), [=] { run(so, L, la, lb, 9, 2, false, {2, 1, 0}); }); if (th || L + la + lb > 2) hs::add(nm("contr3z", L, la, lb), [=] { run(so, L, la, lb, 7, 3, true, {0, 2, 1}, false, 7); }); if (th || (la && lb)) hs::add(nm("contr5", L, la, lb), [=] { run(so, L, la, lb, 10, 5, true, {2, 1, 2, 0}); }); }
    for (int L = 0; L <= (th ? 4 : 1); L++) hs::add(nm("noterms", L, 1, 1), [=] { run(so, L, 1, 1, 0, 1, true, {}); });
    // every parameter symbolic, the library's own angular integrals
    for (int L = 0; L <= (th ? 4 : 3); L++) for (int la = 0; la <= 2; la++) for (int lb = 0; lb <= 2; lb++) { if (!th && (L == 3 && la + lb > 2)) continue;
        if (th || la + lb + L <= 3 || (so && la + lb + L <= 4) || (L == 2 && la == 1 && lb == 1)) hs::add(nm("full", L, la, lb), [=] { run(so, L, la, lb, 0); });
        for (int pat : {1, 2, 3, 4, 5, 6, 8, 9}) { bool q = pat == 4 || pat >= 8 || L + la + lb <= 3 || (so && L + la + lb <= 4) || (L + la + lb == 3 && (pat == 1 || pat == 2 || pat == 3)); if (!th && la == 2 && lb == 2 && L == 2 && so) q = pat == 4; if (th || q) hs::add(nm("geo" + to_string(pat), L, la, lb), [=] { run(so, L, la, lb, pat); }); } }
    // high angular momenta: rational geometry and exponents except on the listed axes, closed-form angular integrals, every radius
    int hl[][3] = {{10, 0, 0}, {10, 1, 1}, {8, 2, 1}, {6, 3, 1}, {6, 1, 3}, {1, 7, 1}, {1, 2, 7}, {0, 5, 5}, {4, 3, 3}, {3, 4, 4}, {7, 2, 2}, {9, 1, 2}, {1, 10, 0}, {1, 0, 10}, {0, 8, 2}, {0, 2, 9}, {0, 10, 0}, {0, 0, 10}, {2, 6, 2}, {2, 8, 0}, {2, 10, 1}, {5, 3, 3}, {3, 5, 3}, {3, 3, 5}, {4, 4, 2}, {2, 5, 5}, {0, 10, 2}, {5, 5, 1}, {0, 7, 6}};
    int k = 0; for (auto &h : hl) { int L = h[0], la = h[1], lb = h[2]; k++; int nn = ncart(la) * ncart(lb), st = std::max(1, nn / (th ? 200 : 24)); bool heavy = la + lb >= 8 || L * (la + lb) > 14; if (!th && heavy && (L >= 2 || (la >= 2 && lb >= 2 && la + lb > 8) || so) && la + lb + L < 11) continue; if (!th && L >= 2 && la + lb >= 7 && std::min(la, lb) >= 3) continue; if (!th && la + lb >= 11 && std::min(la, lb) >= 1) continue; if (!th && so && la + lb >= 8 && std::min(la, lb) >= 1) continue;
        for (int pat : {10, 8, 1, 2, 7}) if (th || pat == 10 || (pat == 8 && !heavy)) hs::add(nm("high" + to_string(pat), L, la, lb), [=] { run(so, L, la, lb, pat, 1, true, {k % 3}, true, 0, st); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
