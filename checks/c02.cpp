// C02: kinetic-energy and momentum integrals
#include "common.h"
// <x^i e^{-a(x-A)^2} | op | x^j e^{-b(x-B)^2}>: op acts on the ket
static S one(int op, int i, int j, S PA, S PB, S p, S b) {
    if (op == 0) return ov1(i, j, PA, PB, p);
    if (op == 1) { S s = R(-2) * b * ov1(i, j + 1, PA, PB, p); if (j) s += R(j) * ov1(i, j - 1, PA, PB, p); return s; }
    S s = R(4) * b * b * ov1(i, j + 2, PA, PB, p) - R(2 * (2 * j + 1)) * b * ov1(i, j, PA, PB, p); if (j > 1) s += R(j * (j - 1)) * ov1(i, j - 2, PA, PB, p); return s;
}
// what: 0..2 momentum component, 3 kinetic
static S prim(int what, const int *ea, const int *eb, const V3 &A, const V3 &B, S b, S p, S x) {
    V3 D = A - B; S f = pw(hs::pi() / p, 3, 2) * exp(-(p * x * (R(1) - x) * dot(D, D))), sum(0); S PA[3], PB[3]; for (int d = 0; d < 3; d++) { PA[d] = (x - R(1)) * D[d]; PB[d] = x * D[d]; }
    for (int k = 0; k < 3; k++) { if (what < 3 && k != what) continue; S r(1); for (int d = 0; d < 3; d++) r *= one(d == k ? (what == 3 ? 2 : 1) : 0, ea[d], eb[d], PA[d], PB[d], p, b); sum += r; }
    return (what == 3 ? R(-1, 2) : R(-1)) * sum * f;
}
struct PV { S p, x; };
static void compare(const ShellSpec &A, const ShellSpec &B, const std::function<PV(int, int)> &px, int stride = 1, int off = 0, bool swap_check = false) {
    auto *sa = A.make(), *sb = B.make(); int na = sa->cart_size, nb = sb->cart_size;
    vector<vector<double>> M(4, vector<double>(na * nb, 7.0)), W(4, vector<double>(na * nb, -7.0));
    LG(libgrpp_momentum_integrals)(sa, sb, M[0].data(), M[1].data(), M[2].data()); LG(libgrpp_kinetic_energy_integrals)(sa, sb, M[3].data());
    if (swap_check) { LG(libgrpp_momentum_integrals)(sb, sa, W[0].data(), W[1].data(), W[2].data()); LG(libgrpp_kinetic_energy_integrals)(sb, sa, W[3].data()); }
    for (int w = 0; w < 4; w++) for (int m = 0; m < na; m++) for (int n = 0; n < nb; n++) {
        if ((m * nb + n) % stride != off) continue;
        S o(0); int *ea = sa->cart_list + 3 * m, *eb = sb->cart_list + 3 * n;
        for (size_t i = 0; i < A.c.size(); i++) for (size_t j = 0; j < B.c.size(); j++) { PV q = px(i, j); o += A.c[i] * B.c[j] * norm_code(A.L, A.a[i]) * norm_code(B.L, B.a[j]) * prim(w, ea, eb, A.o, B.o, B.a[j], q.p, q.x); }
        string lab = string(w == 3 ? "T" : w == 0 ? "px" : w == 1 ? "py" : "pz") + "[" + to_string(m) + "," + to_string(n) + "]";
        hs::eq(lab, M[w][m * nb + n], o);
        if (swap_check) hs::eq("exchanged " + lab, W[w][n * na + m], w == 3 ? o : -o);
    }
    LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static string nm(const string &t, int la, int lb) { return t + "_" + to_string(la) + "_" + to_string(lb); }
static void full(int la, int lb, int pattern, int stride = 1, int off = 0, int turbomole = 0) {
    S p = hs::var("p", true), x = hs::var("x", true); hs::assume_between(x, R(0), R(1));
    V3 A = vec("A"), D = vec("D"); S ca = hs::var("ca"), cb = hs::var("cb");
    for (int d = 0; d < 3; d++) if (pattern >> d & 1) D[d] = S(0);
    if (pattern & 8) x = R(1, 2);
    if (turbomole) LG(libgrpp_set_cartesian_order)(LIBGRPP_CART_ORDER_TURBOMOLE);
    ShellSpec a{la, A, {ca}, {p * x}}, b{lb, A - D, {cb}, {p * (R(1) - x)}};
    compare(a, b, [&](int, int) { return PV{p, x}; }, stride, off, true);
    if (turbomole) LG(libgrpp_set_cartesian_order)(LIBGRPP_CART_ORDER_DIRAC);
}
static void contracted(int la, int lb, int na, int nb, bool symexp, bool zeros = false) {
    V3 A = vec("A"), B = vec("B"); ShellSpec a{la, A, {}, {}}, b{lb, B, {}, {}}; Rnd r(la * 100 + lb * 10 + na);
    if (!symexp) { for (int d = 0; d < 3; d++) { if (d != (la + lb) % 3) { A[d] = r.any(); B[d] = r.any(); } } a.o = A; b.o = B; }
    for (int i = 0; i < na; i++) { a.c.push_back(zeros && i % 3 == 1 ? S(0) : hs::var("ca" + to_string(i))); a.a.push_back(symexp ? hs::var("a" + to_string(i), true) : r.pos()); }
    for (int i = 0; i < nb; i++) { b.c.push_back(hs::var("cb" + to_string(i))); b.a.push_back(symexp ? hs::var("b" + to_string(i), true) : r.pos()); }
    compare(a, b, [&](int i, int j) { S p = a.a[i] + b.a[j]; return PV{p, a.a[i] / p}; });
}
// bra and ket are the same object
static void same_shell(int la) {
    V3 A = vec("A"); ShellSpec a{la, A, {hs::var("c0"), hs::var("c1")}, {hs::var("a0", true), hs::var("a1", true)}};
    auto *sa = a.make(); int n = sa->cart_size; vector<vector<double>> M(4, vector<double>(n * n, 3.0));
    LG(libgrpp_momentum_integrals)(sa, sa, M[0].data(), M[1].data(), M[2].data()); LG(libgrpp_kinetic_energy_integrals)(sa, sa, M[3].data());
    for (int w = 0; w < 4; w++) for (int m = 0; m < n; m++) for (int k = 0; k < n; k++) {
        S o(0); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { S p = a.a[i] + a.a[j]; o += a.c[i] * a.c[j] * norm_code(la, a.a[i]) * norm_code(la, a.a[j]) * prim(w, sa->cart_list + 3 * m, sa->cart_list + 3 * k, A, A, a.a[j], p, a.a[i] / p); }
        hs::eq("M" + to_string(w) + "[" + to_string(m) + "," + to_string(k) + "]", M[w][m * n + k], o); }
    LG(libgrpp_delete_shell)(sa);
}
static void declare() {
    bool th = hs::tier == "thorough"; int LF = th ? 6 : 4;
    for (int la = 10; la >= 0; la--) for (int lb = 10; lb >= 0; lb--) {
        int n = ncart(la) * ncart(lb);
        if (la <= LF && lb <= LF) hs::add(nm("full", la, lb), [=] { full(la, lb, 0); });
        else { int st = th ? std::max(1, n / 200) : std::max(1, n / 25); hs::add(nm("full", la, lb), [=] { full(la, lb, 0, st, (la * 7 + lb * 3) % st); }); }
    }
    for (int la = 0; la <= 3; la++) for (int lb = 0; lb <= 3; lb++) {
        for (int pat : {1, 2, 4, 6, 7, 8, 15}) hs::add(nm("coincide" + to_string(pat), la, lb), [=] { full(la, lb, pat); });
        hs::add(nm("turbomole", la, lb), [=] { full(la, lb, 0, 1, 0, 1); });
        hs::add(nm("contracted_7x9", la, lb), [=] { contracted(la, lb, 7, 9, false); });
        hs::add(nm("contracted_5x1_zeros", la, lb), [=] { contracted(la, lb, 5, 1, false, true); });
    }
    for (int la = 0; la <= 2; la++) for (int lb = 0; lb <= 2; lb++) { if (la + lb > (th ? 4 : 3)) continue; hs::add(nm("contracted_sym_2x2", la, lb), [=] { contracted(la, lb, 2, 2, true); }); hs::add(nm("contracted_sym_1x3", la, lb), [=] { contracted(la, lb, 1, 3, true); }); }
    for (int la = 0; la <= 4; la++) hs::add("same_shell_" + to_string(la), [=] { same_shell(la); });
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
