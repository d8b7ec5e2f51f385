// C01: overlap integrals of contracted Cartesian Gaussian shells
#include "common.h"
// primitive overlap of x^i.. on A with x^j.. on B: closed form from the Gaussian product theorem
static S prim(const int *ea, const int *eb, const V3 &A, const V3 &B, S a, S b, S p, S x) {     // a = p x, b = p (1-x)
    S r(1); V3 D = A - B; for (int d = 0; d < 3; d++) { S PA = (x - R(1)) * D[d], PB = x * D[d]; r *= ov1(ea[d], eb[d], PA, PB, p); }
    return r * pw(hs::pi() / p, 3, 2) * exp(-(p * x * (R(1) - x) * dot(D, D)));
}
struct PV { S p, x; };
static void compare(const ShellSpec &A, const ShellSpec &B, const std::function<PV(int, int)> &px, int stride = 1, int off = 0) {
    auto *sa = A.make(), *sb = B.make(); int na = sa->cart_size, nb = sb->cart_size;
    vector<double> M(na * nb, 7.0);
    LG(libgrpp_overlap_integrals)(sa, sb, M.data());
    for (int m = 0; m < na; m++) for (int n = 0; n < nb; n++) {
        if ((m * nb + n) % stride != off) continue;
        S o(0); int *ea = sa->cart_list + 3 * m, *eb = sb->cart_list + 3 * n;
        for (size_t i = 0; i < A.c.size(); i++) for (size_t j = 0; j < B.c.size(); j++) { PV q = px(i, j); o += A.c[i] * B.c[j] * norm_code(A.L, A.a[i]) * norm_code(B.L, B.a[j]) * prim(ea, eb, A.o, B.o, A.a[i], B.a[j], q.p, q.x); }
        hs::eq("S[" + to_string(m) + "," + to_string(n) + "]", M[m * nb + n], o);
    }
    LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}

static string nm(const char *t, int la, int lb) { return string(t) + "_" + to_string(la) + "_" + to_string(lb); }
// all exponents, coefficients and coordinates symbolic; pattern selects coincidences of the centres
static void full(int la, int lb, int pattern, int stride = 1, int off = 0, int turbomole = 0) {
    S p = hs::var("p", true), x = hs::var("x", true); hs::assume_between(x, R(0), R(1));
    V3 A = vec("A"), D = vec("D"); S ca = hs::var("ca"), cb = hs::var("cb");
    for (int d = 0; d < 3; d++) if (pattern >> d & 1) D[d] = S(0);
    if (pattern & 8) x = R(1, 2);
    if (turbomole) LG(libgrpp_set_cartesian_order)(LIBGRPP_CART_ORDER_TURBOMOLE);
    ShellSpec a{la, A, {ca}, {p * x}}, b{lb, A - D, {cb}, {p * (R(1) - x)}};
    compare(a, b, [&](int, int) { return PV{p, x}; }, stride, off);
    if (turbomole) LG(libgrpp_set_cartesian_order)(LIBGRPP_CART_ORDER_DIRAC);
}
// contracted shells: independent symbolic exponents and coefficients
static void contracted(int la, int lb, int na, int nb, bool symexp, bool zeros = false) {
    V3 A = vec("A"), B = vec("B"); ShellSpec a{la, A, {}, {}}, b{lb, B, {}, {}}; Rnd r(la * 100 + lb * 10 + na);
    if (!symexp) { for (int d = 0; d < 3; d++) { if (d != (la + lb) % 3) { A[d] = r.any(); B[d] = r.any(); } } a.o = A; b.o = B; }
    for (int i = 0; i < na; i++) { a.c.push_back(zeros && i % 3 == 1 ? S(0) : hs::var("ca" + to_string(i))); a.a.push_back(symexp ? hs::var("a" + to_string(i), true) : r.pos()); }
    for (int i = 0; i < nb; i++) { b.c.push_back(hs::var("cb" + to_string(i))); b.a.push_back(symexp ? hs::var("b" + to_string(i), true) : r.pos()); }
    compare(a, b, [&](int i, int j) { S p = a.a[i] + b.a[j]; return PV{p, a.a[i] / p}; });
}
// the same shell object as bra and ket; a second call must not depend on the first one
static void same_shell(int la) {
    V3 A = vec("A"); ShellSpec a{la, A, {hs::var("c0"), hs::var("c1")}, {hs::var("a0", true), hs::var("a1", true)}};
    auto *sa = a.make(); int n = sa->cart_size; vector<double> M(n * n, 3.0), M2(n * n, -5.0);
    LG(libgrpp_overlap_integrals)(sa, sa, M.data()); LG(libgrpp_overlap_integrals)(sa, sa, M2.data());
    for (int m = 0; m < n; m++) for (int k = 0; k < n; k++) {
        S o(0); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { S p = a.a[i] + a.a[j]; o += a.c[i] * a.c[j] * norm_code(la, a.a[i]) * norm_code(la, a.a[j]) * prim(sa->cart_list + 3 * m, sa->cart_list + 3 * k, A, A, a.a[i], a.a[j], p, a.a[i] / p); }
        hs::eq("S[" + to_string(m) + "," + to_string(k) + "]", M[m * n + k], o); hs::eqd("second call " + to_string(m) + "," + to_string(k), M[m * n + k], M2[m * n + k]); }
    LG(libgrpp_delete_shell)(sa);
}
static void declare() {
    bool th = hs::tier == "thorough";
    int LF = th ? 8 : 5;
    for (int la = 10; la >= 0; la--) for (int lb = 10; lb >= 0; lb--) {
        int n = ncart(la) * ncart(lb);
        if (la <= LF && lb <= LF) hs::add(nm("full", la, lb), [=] { full(la, lb, 0); });
        else { int st = th ? std::max(1, n / 400) : std::max(1, n / 60); hs::add(nm("full", la, lb), [=] { full(la, lb, 0, st, (la * 7 + lb * 3) % st); }); }
    }
    for (int la = 0; la <= 3; la++) for (int lb = 0; lb <= 3; lb++) {
        for (int pat : {1, 2, 4, 6, 7, 8, 15}) hs::add(nm(("coincide" + to_string(pat)).c_str(), la, lb), [=] { full(la, lb, pat); });
        hs::add(nm("turbomole", la, lb), [=] { full(la, lb, 0, 1, 0, 1); });
        hs::add(nm("contracted_12x9", la, lb), [=] { contracted(la, lb, 12, 9, false); });
        hs::add(nm("contracted_5x1_zeros", la, lb), [=] { contracted(la, lb, 5, 1, false, true); });
    }
    for (int la = 0; la <= (th ? 3 : 2); la++) for (int lb = 0; lb <= (th ? 3 : 2); lb++) { hs::add(nm("contracted_sym_2x2", la, lb), [=] { contracted(la, lb, 2, 2, true); }); hs::add(nm("contracted_sym_1x3", la, lb), [=] { contracted(la, lb, 1, 3, true); }); }
    for (int la = 0; la <= 6; la++) hs::add("same_shell_" + to_string(la), [=] { same_shell(la); });
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
