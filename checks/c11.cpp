// C11: no invalid memory access, no termination, for every supported angular momentum
#include "calls.h"
extern "C" { void *__asan_get_report_pc(); const char *__asan_get_report_description(); void __stub_none(); }
static string where(void *pc) { Dl_info i; return pc && dladdr(pc, &i) && i.dli_sname ? i.dli_sname : "?"; }
extern "C" { __attribute__((used, visibility("default"))) void __asan_on_error() { hs::fail(string(__asan_get_report_description()) + " in " + where(__asan_get_report_pc())); }
__attribute__((used, visibility("default"))) void __ubsan_on_report() { hs::fail("index out of the bounds of an array"); }
double angular_type1_integral(int, int, int, int, double *); double angular_type2_integral(int, int, int, int, int, int, const double *); double evaluate_real_spherical_harmonic(int, int, const double *); void evaluate_real_spherical_harmonics_array(int, const double *, double *);
void construct_angular_momentum_matrices_rsh(int, double *, double *, double *); void construct_angular_momentum_matrices_csh(int, double *, double *, double *);
void *tabulate_radial_type2_integrals(int, int, int, double, double, libgrpp_potential_t *, libgrpp_shell_t *, libgrpp_shell_t *); double get_radial_type2_integral(void *, int, int, int); void delete_radial_type2_integrals(void *);
void *tabulate_radial_type1_integrals(int, int, double, double, double, double, double, double, double (*)(double, void *), void *); double get_radial_type1_integral(void *, int, int); void delete_radial_type1_integrals(void *);
void boys_values(double, int, double *); void gfun_values(double, int, double *); double modified_bessel_scaled(int, double); }
template <class F> static void with(int n, F f) { double *b = (double *) malloc(n * sizeof(double)); f(b); for (int i = 0; i < n; i++) hs::expect(sym::is_handle(b[i]) || std::isfinite(b[i]), "every element of the result is a number"); free(b); }
static double dir[3] = {0.6, -0.64, 0.48};
static void angular(int L) {          // all orders that shells and projectors up to 10 ask for
    with(2 * L + 1, [&](double *b) { LG(evaluate_real_spherical_harmonics_array)(L, dir, b); });
    with(2 * L + 1, [&](double *b) { for (int m = -L; m <= L; m++) b[L + m] = LG(evaluate_real_spherical_harmonic)(L, m, dir); });
    if (L <= 10) { int n = (2 * L + 1) * (2 * L + 1); double *x = (double *) malloc(8 * n), *y = (double *) malloc(8 * n), *z = (double *) malloc(8 * n); LG(construct_angular_momentum_matrices_rsh)(L, x, y, z); for (int i = 0; i < n; i++) hs::expect(std::isfinite(x[i]) && std::isfinite(y[i]) && std::isfinite(z[i]), "angular momentum matrices"); free(x); free(y); free(z); } }
static void angular2(int lam, int L) { with(2 * lam + 1, [&](double *y) { LG(evaluate_real_spherical_harmonics_array)(lam, dir, y); for (int m = -L; m <= L; m++) for (int k = 0; k <= 11; k++) for (auto e : {array<int, 3>{k, 0, 0}, {0, k, 0}, {0, 0, k}, {k - 2 * (k / 3), k / 3, k / 3}}) { double v = LG(angular_type2_integral)(lam, L, m, e[0], e[1], e[2], y); hs::expect(std::isfinite(v), "angular integral is a number"); } }); }
static void radial2(int l1, int l2, int nm, int LA, int LB, int pw, int tail) { S sc = R(5, 4); if (l1 + l2 < 4) { sc = hs::var("scale", true); hs::assume_between(sc, R(1, 2), R(2)); } vector<S> o{S(0), S(0), S(0)}; auto *A = hs::shell(o, LA, {R(3, 4), R(1, 2)}, {R(5, 8), R(tail ? 40 : 9, 8)}), *B = hs::shell(o, LB, {R(2, 3)}, {R(7, 8)}); auto *p = hs::potential(0, 0, {pw}, {sc}, {R(tail ? 1 : 11, 8)});
    auto *t = LG(tabulate_radial_type2_integrals)(l1, l2, nm, 1.75, tail ? 100.0 : 0.5, p, A, B); for (int i = 0; i <= l1; i++) for (int j = 0; j <= l2; j++) for (int n = 0; n <= nm; n++) { double v = LG(get_radial_type2_integral)(t, i, j, n); hs::expect(sym::is_handle(v) || std::isfinite(v), "radial integral is a number"); }
    LG(delete_radial_type2_integrals)(t); LG(libgrpp_delete_shell)(A); LG(libgrpp_delete_shell)(B); LG(libgrpp_delete_potential)(p); }
static double cb(double r, void *p) { double v = std::exp(-r * r) * r; return hs::symbolic ? __sym_fmul(*(double *) p, v) : *(double *) p * v; }
static void radial1(int lm, int nm, double k) { S sc = R(5, 4); if (lm < 4) { sc = hs::var("scale", true); hs::assume_between(sc, R(1, 2), R(2)); } double s = hs::in(sc); auto *t = LG(tabulate_radial_type1_integrals)(lm, nm, 0.5, 1.25, 0.75, 0.875, k, 1.5, cb, &s); for (int i = 0; i <= lm; i++) for (int n = 0; n <= nm; n++) { double v = LG(get_radial_type1_integral)(t, i, n); hs::expect(sym::is_handle(v) || std::isfinite(v), "radial integral is a number"); } LG(delete_radial_type1_integrals)(t); }
static void declare() {
    bool th = hs::tier == "thorough"; static string mode = getenv("C11_MODE") ? getenv("C11_MODE") : "real"; bool cheap = mode == "cheap"; rsh_cap = mode == "sym" ? 16 : 40; check_outputs = true; t2_cheap = cheap;
    hs::setup = [] { if (hs::symbolic && mode != "sym") { sym::exact_mode = false; sym::simplify_cond = true; sym::tiny = 0; } LG(libgrpp_init)(); if (hs::symbolic && mode == "sym") snap_rad_norms(); };
    auto name = [](int k, int L, int la, int lb, int g) { return mode + "_" + nm[k] + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(g); };
    if (mode == "real") {
        for (int l = 0; l <= 40; l += th || l > 36 ? 1 : 4) hs::add("angular_" + to_string(l), [=] { angular(l); }); for (int l = 1; l <= 10; l++) hs::add("lmatrix_" + to_string(l), [=] { angular(l); });
        for (auto e : vector<array<int, 7>>{{20, 20, 20, 10, 10, 2, 0}, {21, 20, 22, 10, 10, 0, 1}, {20, 0, 10, 10, 0, 1, 0}, {2, 1, 2, 1, 2, 2, 1}, {0, 0, 0, 0, 0, 0, 0}}) { if (!th && e[0] >= 20 && e[1]) { e[0] = e[6] ? 9 : 21; e[1] = e[6] ? 21 : 9; e[2] = 8; } hs::add("radial2_" + to_string(e[0]) + "_" + to_string(e[1]) + "_" + to_string(e[2]), [=] { radial2(e[0], e[1], e[2], e[3], e[4], e[5], e[6]); }, 24); }
        for (auto e : vector<array<int, 3>>{{20, 20, 1}, {21, 21, 6}, {2, 2, 0}}) hs::add("radial1_" + to_string(e[0]) + "_" + to_string(e[1]), [=] { radial1(e[0], e[1], e[2]); }, 24);
        for (int s = 20; s >= 0; s--) for (int k = 0; k < NK; k++) for (int la = 0; la <= 10; la++) for (int lb = 0; lb <= 10; lb++) { int L = s - la - lb; if (L) continue; if (!(k <= N0 || k == GOV || k == GT1)) continue; int w = 1 + (la < 10) + (lb < 10); if (w > 1 && (la * 5 + lb * 3 + k) % (th ? 1 : k == T1 || k == N0 || k == GT1 ? 8 : 4)) continue; if (!th && k == GT1 && s > 17 && s < 20) continue;
            hs::add(name(k, 0, la, lb, 10), [=] { run(k, 0, la, lb, 10, 1, k == T1 ? vector<int>{0, 1, 2} : vector<int>{(la + lb) % 3}, true, false); }, 24); }
        // semilocal, spin-orbit, full with the radial code; nuclear models by quadrature
        for (auto e : vector<array<int, 4>>{{T2, 0, 1, 1}, {T2, 2, 1, 0}, {SO, 1, 0, 1}, {FULL, 1, 1, 0}, {GT2, 1, 0, 0}, {GSO, 1, 0, 0}, {GFULL, 1, 0, 0}, {N1, 0, 2, 1}, {N2, 0, 1, 2}, {N3, 0, 1, 1}, {N5, 0, 2, 2}, {N1, 0, 5, 0}, {N5, 0, 0, 6}}) for (int g : {10, 101, 102, 104}) if (th || g == 10 || (e[2] + e[3] + g) % 3 == 0) hs::add(name(e[0], e[1], e[2], e[3], g), [=] { run(e[0], e[1], e[2], e[3], g, 1, {e[1] % 3}, true, false); }, 24);
        for (auto e : vector<array<int, 4>>{{OC, 10, 0, 0}, {OC, 10, 2, 1}, {OC, 0, 10, 1}, {OC, 1, 1, 10}, {OC, 6, 5, 4}, {OC, 10, 10, 10}, {GOC, 10, 0, 0}, {GOC, 0, 10, 0}, {GOC, 1, 0, 10}, {GOC, 3, 2, 3}, {GOC, 9, 1, 1}}) { if (!th && e[1] + e[2] + e[3] > 20) continue; hs::add(name(e[0], e[1], e[2], e[3], 10), [=] { run(e[0], e[1], e[2], e[3], 10, 1, {e[1] % 3}, true, false); }, 24); }
    } else if (cheap) {
        for (int l = 0; l <= 21; l++) for (int L = 0; L <= 10; L += th ? 1 : 5) if (th || l >= 20 || (l + L) % 4 == 0) hs::add("angular2_" + to_string(l) + "_" + to_string(L), [=] { angular2(l, L); });
        // projectors and shells up to 10; red: which components large shells list
        auto one = [&](int k, int L, int la, int lb, int g, int red) { hs::add(name(k, L, la, lb, g) + (red ? "_some" + to_string(red) : ""), [=] { reduced = red; run(k, L, la, lb, g, 1, {L % 3}, true, false); reduced = 0; }, 24); };
        for (int L = 0; L <= 10; L += th ? 1 : 5) for (auto e : vector<array<int, 2>>{{0, 0}, {10, 0}, {0, 10}, {3, 1}, {1, 4}}) { one(T2, L, e[0], e[1], 10, 2); if (L) one(SO, L, e[0], e[1], 10, 2); }
        for (int L : {0, 4, 10}) { if (th || L < 10) { one(T2, L, 10, 10, 10, 1); if (L) one(SO, L, 10, 10, 10, 1); } one(T2, L, 10, 3, 101, 1); one(T2, L, 2, 10, 102, 1); one(T2, L, 10, 10, 104, 1); }
        for (int L : {0, 1, 10}) for (auto e : vector<array<int, 2>>{{0, 0}, {1, 0}, {0, 1}, {10, 0}, {0, 10}}) { if (!th && L == 10 && e[0] + e[1] >= 10) continue; for (int k : {FULL, GT2, GSO, GFULL}) if (L || k != GSO) one(k, L, e[0], e[1], 10, 0); }
    } else {
        for (int s = 0; s <= 4; s++) for (int k = 0; k < NK; k++) for (int la = 0; la <= s; la++) for (int lb = 0; la + lb <= s; lb++) { int L = s - la - lb; bool oc = k == OC || k == FULL || k == GOC || k == GFULL, so = k == SO || k == GSO; if ((k < T2 || k == GOV || k == GT1) && L) continue; if (so && !L) continue;
            int cap = k <= MOM ? 3 : k <= N5 ? 2 : k < OC ? 2 : oc ? 1 : k == GOV ? 2 : 1; cap += th; if (s > cap) continue; for (int pat : {0, 1, 2, 3, 4}) { if (!th && s == cap && (pat + la + k) % 2) continue; hs::add(name(k, L, la, lb, pat), [=] { run(k, L, la, lb, pat, 1, {(la + lb) % 3}, false, false); }, 48); } }
    }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
