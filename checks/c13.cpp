// C13: accuracy of the special functions
#include "within.h"
#include "stubs_rsh.h"
extern "C" { double boys_function(int, double); void boys_values(double, int, double *); void gfun_values(double, int, double *); double Dawsons_Integral(double); double modified_bessel_scaled(int, double); double specfunc_fermi_sk(int, double); }
namespace sym { quad boysq(int, quad); quad gfunq(int, quad); quad besselq(int, quad); }
// ---- references
static Ref boys(int n) { return {[=](quad x) { return sym::boysq(n, x); }, [=](quad x, int M) { vector<quad> r; quad f = 1; for (int k = 0; k < M; k++) { if (k) f *= -k; r.push_back(sym::boysq(n + k, x) / f); } return r; }}; }
static quad kbes(int n, quad x) { quad pre = 1; for (int i = 1; i <= n; i++) pre *= x / (2 * i + 1); quad t = 1, s = 1; for (int k = 1; k < 4000; k++) { t *= x * x / 2 / (k * (quad)(2 * n + 2 * k + 1)); s += t; if (t < 1e-36Q * s) break; } return expq(-x) * pre * s; }
static Ref bessel(int n) { return {[=](quad x) { return kbes(n, x); }, [=](quad x, int M) {
    static quad x0 = -1; static vector<vector<quad>> D; const int N = 60; if (x != x0 || D.empty()) { D.assign(M, vector<quad>(N + M, 0)); for (int l = 0; l < N + M; l++) D[0][l] = kbes(l, x); for (int k = 1; k < M; k++) for (int l = 0; l + k < N + M; l++) D[k][l] = ((l ? l * D[k - 1][l - 1] : 0) + (l + 1) * D[k - 1][l + 1]) / (2 * l + 1) - D[k - 1][l]; x0 = x; }
    vector<quad> r; quad f = 1; for (int k = 0; k < M; k++) { if (k) f *= k; r.push_back(D[k][n] / f); } return r; }}; }
static quad Sk(int k, quad x) {      // x <= 0
    quad y = expq(x);
    if (k >= 1) { const int n = 60; quad d = powq(3 + sqrtq(8.0Q), n); d = (d + 1 / d) / 2; quad b = -1, c = -d, s = 0, yn = 1; for (int j = 0; j < n; j++) { c = b - c; yn *= y; quad p = 1; for (int i = 0; i < k; i++) p *= j + 1; s += c * yn / p; b = (j + n) * (quad)(j - n) * b / ((j + 0.5Q) * (j + 1)); } return -(s / d); }
    vector<quad> a{0, -1}; for (int j = 0; j < -k; j++) { vector<quad> b(a.size() + 1, 0); for (size_t i = 1; i < a.size(); i++) { b[i] += i * a[i]; b[i + 1] -= i * a[i]; } a = b; } quad u = y / (1 + y), r = 0; for (size_t i = a.size(); i-- > 0;) r = r * u + a[i]; return r; }
static Ref fermi(int k) { return {[=](quad x) { return Sk(k, x); }, [=](quad x, int M) { vector<quad> r; quad f = 1; for (int j = 0; j < M; j++) { if (j) f *= j; r.push_back(Sk(k - j, x) / f); } return r; }}; }
static vector<quad> dawson_far(quad x, int M) { vector<quad> r(M, 0); quad c = 0.5Q; for (int k = 0; k < 60; k++) { int p = 2 * k + 1; quad t = c * powq(x, -p); if (k && fabsq(t) < 1e-40Q) break; for (int j = 0; j < M; j++) { r[j] += t; t *= -(quad)(p + j) / (j + 1) / x; } c *= (2 * k + 1) / 2.0Q; } return r; }
static quad dawson0(quad x) { return x * sym::gfunq(0, x * x); }
static Ref dawson() { return {dawson0, [=](quad x, int M) { if (x > 12) return dawson_far(x, M); vector<quad> d(M), r; d[0] = dawson0(x); d[1] = 1 - 2 * x * d[0]; for (int m = 1; m + 1 < M; m++) d[m + 1] = -2 * x * d[m] - 2 * m * d[m - 1]; quad f = 1; for (int j = 0; j < M; j++) { if (j) f *= j; r.push_back(d[j] / f); } return r; }}; }
static Ref gfun(int n) { return {[=](quad x) { return sym::gfunq(n, x); }, [=](quad x, int M) { vector<quad> G; for (int j = 0; j < M; j++) G.push_back(sym::gfunq(n + j, x)); vector<quad> r; quad f = 1; for (int j = 0; j < M; j++) { if (j) f *= j; r.push_back(G[0] / f); for (int i = 0; i + 1 < (int) G.size(); i++) G[i] = G[i + 1] - G[i]; G.pop_back(); } return r; }}; }
// ---- cases
static S arg(double lo, double hi, bool pos = false, bool closed_hi = true) { S x = hs::var("x", pos); hs::assume(x - S(sym::rat(mpq_class(lo))), 2); hs::assume(x - S(sym::rat(mpq_class(hi))), closed_hi ? 4 : 3); return x; }
static double tboys(int n, double lo, double hi) { double F = (double) sym::boysq(n, hi); if (lo < 29.9) return std::min(lo < 4.9 ? 2e-14 : 2e-15, 4e-13 * F); return 1.4 * exp(-lo) / (2 * (lo - n + 0.5)) + 2e-15 * F; }
static void c_boys(double lo, double hi, int nmax) { S x = arg(lo, hi); double xv = hs::in(x); vector<double> b(nmax + 1, 7.0), f; LG(boys_values)(xv, nmax, b.data()); for (int n = 0; n <= nmax; n += 3) f.push_back(LG(boys_function)(n, xv)); Within w(x);
    double a = xv, c = xv; if (hs::symbolic) { w.interval(); a = w.lo.get_d(); c = w.hi.get_d(); } else { a = std::max(lo, xv - 0.06); c = std::min(hi, xv + 0.06); }
    for (int n = 0; n <= nmax; n++) w.add("F" + to_string(n), b[n], boys(n), tboys(n, a, c)); for (int n = 0; n <= nmax; n += 3) w.add("f" + to_string(n), f[n / 3], boys(n), tboys(n, a, c)); w.decide(); }
// designed accuracy: fourth-order Taylor expansion on a grid of step 0.01 (table entries correctly rounded), at least 3e-13
static double tbessel(int n, double x) { quad X = x; auto t = bessel(n).taylor(X, 14); auto K = [&](int l) { return (double) kbes(l < 0 ? -l - 1 : l, X); }; double h = 0.0051, e = 1e-20, p = 1; for (int j = 0; j < 14; j++) { if (j >= 5) e += 2.5 * fabs((double) t[j]) * p; if (j < 5) e += 1e-15 * K(n - j < 0 ? 0 : n - j) * p * (1 << j); p *= h; } return std::min(3e-13, e); }
static void c_bessel(double lo, double hi, int nmax) { S x = arg(lo, hi); double xv = hs::in(x); Within w(x); vector<double> v; for (int n = 0; n <= nmax; n++) v.push_back(LG(modified_bessel_scaled)(n, xv)); double xc = xv; if (hs::symbolic) { w.interval(); xc = w.hi.get_d(); } for (int n = 0; n <= nmax; n++) w.add("K" + to_string(n), v[n], bessel(n), std::max(tbessel(n, xc), hs::symbolic ? tbessel(n, w.lo.get_d()) : tbessel(n, std::max(0.0, xv - 0.01)))); w.decide(); }
static void c_fermi(double lo, double hi) { S x = arg(lo, hi); double xv = hs::in(x); Within w(x); for (int k = 2; k <= 7; k++) w.add("S" + to_string(k), LG(specfunc_fermi_sk)(k, xv), fermi(k), lo < -10 ? 3e-13 * exp(hi) : 4e-11 * exp(hi) + 1e-15); w.decide(); }
static void c_dawson(double lo, double hi) { S x = arg(lo, hi, true); Within w(x); w.add("D", LG(Dawsons_Integral)(hs::in(x)), dawson(), 2e-15); w.decide(); hs::rtol = 0; }
// beyond x = 40 the closed asymptotic form
static void c_boys_inf(int nmax) { S x = hs::var("x", true); hs::assume(x - R(40), 1); double xv = hs::in(x); vector<double> b(nmax + 1, 7.0); LG(boys_values)(xv, nmax, b.data()); hs::atol_ = 1e-19; for (int n = 0; n <= nmax; n++) { S g = sqrt(hs::pi()); for (int i = 1; i <= n; i++) g = g * R(2 * i - 1, 2); hs::eq("F" + to_string(n), b[n], g / (R(2) * pw(x, 2 * n + 1, 2))); } }
// x > 16: 2x K_n(x) = R_n(-x) up to exp(-2x); t = 1/x
static vector<quad> rpoly(int n) { vector<quad> a; quad c = 1; for (int k = 0; k <= n; k++) { a.push_back(k % 2 ? -c : c); c *= (n + k + 1) * (quad)(n - k) / (2 * (k + 1)); } return a; }
static Ref rfun(int n) { return {[=](quad t) { auto a = rpoly(n); quad r = 0; for (int k = n; k >= 0; k--) r = r * t + a[k]; return r; }, [=](quad t, int) { auto a = rpoly(n); for (int k = 0; k <= n; k++) for (int j = n - 1; j >= k; j--) a[j] += t * a[j + 1]; return a; }}; }
static void c_bessel_inf(mpq_class lo, mpq_class hi, int nmax) { S t = hs::var("x", true); if (lo > 0) hs::assume(t - S(sym::rat(lo)), 2); else hs::assume(t, 1); hs::assume(t - S(sym::rat(hi)), 3); double xv = hs::in(S(1) / t); Within w(t); for (int n = 0; n <= nmax; n++) { double v = LG(modified_bessel_scaled)(n, xv); quad r = 0; auto a = rpoly(n); quad q = m2q(lo); for (int k = n; k >= 0; k--) r = r * q + fabsq(a[k]);
        w.add("R" + to_string(n), hs::symbolic ? __sym_fmul(v, __sym_fmul(2.0, xv)) : v * 2 * xv, rfun(n), 4e-15 * (double) r); } w.decide(); if (hi > mpq_class(1, 16) || lo == 0) hs::validate = false; }
static void c_gfun(double lo, double hi, int nmax) { S x = arg(lo, hi, true); if (hs::symbolic) { S e = exp(-x); hs::assume(e - S(sym::rat(mpq_class(exp(-hi) * (1 - 1e-12)))), 1); hs::assume(e - S(sym::rat(mpq_class(exp(-lo) * (1 + 1e-12)))), 3); } vector<double> g(nmax + 1, 5.0); LG(gfun_values)(hs::in(x), nmax, g.data()); Within w(x); for (int n = 0; n <= nmax; n++) w.add("G" + to_string(n), g[n], gfun(n), hi <= 1 ? 4e-15 : hi <= 4 ? 6e-14 : hi <= 8 ? 3e-12 : 1.5e-10); w.decide(); }
// x > 12: upward recursion from Dawson's integral (an uninterpreted value here)
extern "C" double __stub_Dawsons_Integral(double x) { return sym::fun(F_UF, x, 0, 77); }
static void c_gup(int nmax) { S x = hs::var("x", true); hs::assume(x - R(12), 1); hs::rtol = 1e-10; vector<double> g(nmax + 1, 5.0); LG(gfun_values)(hs::in(x), nmax, g.data()); if (!hs::symbolic) { double xv = hs::in(x); for (int n = 0; n <= nmax; n++) hs::eqd("G" + to_string(n), g[n], (double) sym::gfunq(n, xv)); return; }
    S D = S(sym::fun(F_UF, sqrt(x).v, 0, 77)) / sqrt(x); for (int n = 0; n <= nmax; n++) { S v = D; for (int j = 0; j < n; j++) v = (S(1) - R(2 * j + 1) * v) / (R(2) * x); (void) v; mpz_class df = 1; for (int i = 3; i < 2 * n; i += 2) df *= i; S r = R(n % 2 ? -1 : 1) * Z(df) / ipow(R(2) * x, n) * D; mpz_class dj = 1; for (int j = 0; j < n; j++) { if (j) dj *= 2 * j + 1; r += R((n - 1 - j) % 2 ? -1 : 1) * Z(df) / Z(dj) / ipow(R(2) * x, n - j); } hs::eq("G" + to_string(n), g[n], r); } }
static void declare() {
    hs::setup = [] { sym::tiny = 0; LG(libgrpp_init)(); }; bool th = hs::tier == "thorough"; auto nm = [](const string &s, double lo, double hi) { char b[64]; snprintf(b, 64, "%s_%g_%g", s.c_str(), lo, hi); return string(b); };
    for (int i = 0; i < 30; i += 2) hs::add(nm("boys", i, i + 2), [=] { c_boys(i, i + 2, th ? 33 : 24); }, 100); 
    for (int i = 0; i < 1600; i += 40) hs::add(nm("bessel", i / 100.0, (i + 40) / 100.0), [=] { c_bessel(i / 100.0, (i + 40) / 100.0, th ? 45 : 24); }, 200);
    for (int i = -1000; i < 0; i += 50) hs::add(nm("fermi", i / 100.0, (i + 50) / 100.0), [=] { c_fermi(i / 100.0, (i + 50) / 100.0); }, 300);
    for (int i = 30; i < 40; i++) hs::add(nm("boys", i, i + 1), [=] { c_boys(i, i + 1, 24); }, 100); hs::add("boys_inf", [=] { c_boys_inf(th ? 33 : 24); });
    { vector<mpq_class> t{0, {1, 64}, {1, 32}, {1, 24}, {1, 20}, {1, 18}, {1, 17}, {1, 16}}; for (size_t i = 0; i + 1 < t.size(); i++) hs::add("bessel_inf_" + to_string(i), [=] { c_bessel_inf(t[i], t[i + 1], th ? 45 : 24); }); }
    for (int i = -40; i < -20; i++) hs::add(nm("fermi", i / 2.0, (i + 1) / 2.0), [=] { c_fermi(i / 2.0, (i + 1) / 2.0); }); for (int i = -200; i < -20; i += 2) hs::add(nm("fermi", i, i + 2), [=] { c_fermi(i, i + 2); });
    for (double nx = 0, x = 7.25; x < 100; x = nx) { nx = x + (x < 12 ? 0.25 : x < 20 ? 1 : x < 40 ? 4 : 10); hs::add(nm("dawson", x, nx), [=] { c_dawson(x, nx); }); }
    for (int n : th ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 22, 24} : vector<int>{0, 1, 3, 6, 10, 16, 22}) for (int i = 0; i < 24; i++) hs::add(nm("gfun" + to_string(n), i / 2.0, (i + 1) / 2.0), [=] { c_gfun(i / 2.0, (i + 1) / 2.0, n); }, 100);
    for (int n : {0, 1, 2, 5, 11, 20, 24}) hs::add("gup_" + to_string(n), [=] { c_gup(n); });
    for (int i = 0; i < 29; i++) hs::add(nm("dawson", i / 4.0, (i + 1) / 4.0), [=] { c_dawson(i / 4.0, (i + 1) / 4.0); }, 60);
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
