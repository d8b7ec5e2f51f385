// C21: radial quadrature. One scale factor c (a potential coefficient) and the requested tolerance are symbolic; every other parameter is a
// machine number, so that each radial integral is c times the value of a quadrature sum and each path is a region of (c, tolerance).
#include "within.h"
extern "C" {
#include "radial_type1_integral.h"
#include "radial_type2_integral.h"
}
extern "C" void __stub_create_real_spherical_harmonic_coeffs_tables(int) { }
// exp(-x) i_l(x), l = 0..lm
static vector<quad> kbes(int lm, quad x) {
    vector<quad> k(lm + 1, 0); if (x == 0) { k[0] = 1; return k; } quad e = expq(-x);
    if (x > lm + 3 && x > 4) { quad a = (1 - e * e) / (2 * x), b = (1 + e * e) / (2 * x) - a / x; k[0] = a; if (lm) k[1] = b; for (int l = 1; l < lm; l++) k[l + 1] = k[l - 1] - (2 * l + 1) / x * k[l]; return k; }
    quad p = e; for (int l = 0; l <= lm; l++) { if (l) p *= x / (2 * l + 1); quad t = p, s = 0; for (int j = 1; t > 1e-40Q * p; j++) { s += t; t *= x * x / 2 / j / (2 * l + 2 * j + 1); } k[l] = s; } return k; }
static quad normq0(int L, quad a) { return powq(2 * a / M_PIq, 0.75Q) * powq(4 * a, L / 2.0Q); }
static quad phiq(quad x, int n) { quad r = 1; for (int i = 0; i < n; i++) r *= x; for (int i = 0; i > n; i--) r /= x; return r; }
static quad normq(int L, quad a) { static std::map<std::pair<int, double>, quad> m; auto &v = m[{L, (double) a}]; if (v == 0) v = normq0(L, a); return v; }
// sums of the rule of the levels 2^(b0+l) - 1, for several functions at once
struct Rule { vector<vector<quad>> s; vector<quad> scale;
    Rule(int base, int levels, int nf, const std::function<void(quad r, quad w, vector<quad> &f)> &fun) : s(levels, vector<quad>(nf, 0)), scale(nf, 0) {
        int N = base << (levels - 1); vector<quad> f(2 * nf);    // second half: magnitudes that the table accuracy of the Bessel functions refers to

        for (int j = 1; j < N; j++) { quad x = (quad) j / N, x3 = x * x * x, ln = logq(1 - x3), r = -5 * ln, w = 375 * x * x * ln * ln / (1 - x3); std::fill(f.begin(), f.end(), 0); fun(r, w, f);
            int h = f.size() / 2; for (int l = 0; l < levels; l++) if (j % (1 << (levels - 1 - l)) == 0) for (int i = 0; i < nf; i++) s[l][i] += f[i] * w / (base << l); for (int i = 0; i < nf; i++) scale[i] += f[h + i] * w / N; } } };
struct Decide { S c, tol; bool screen; vector<string> labels; vector<z3::expr> bad; z3::expr zc, zt; bool symtol;
    Decide(S c_, S t_, bool sc) : c(c_), tol(t_), screen(sc), zc(zctx()), zt(zctx()) { if (hs::symbolic) { zc = ze(c); zt = ze(tol); } }
    static z3::expr num(const mpq_class &q) { return zctx().real_val(q.get_str().c_str()); }
    static z3::expr ze(S x) { x = simp(x); vector<z3::expr> sides; z3::expr e = tz(x.v, sides); return e; }
    static z3::expr tz(double d, vector<z3::expr> &s);
    // value v; m: the sums of the rule, per unit of c
    void add(const string &label, double v, const vector<quad> &m, quad scale) {
        int L = m.size() - 1;
        if (!hs::symbolic) { double cv = hs::in(c), tv = hs::in(tol), s = 2e-12 * cv * (double) scale; bool ok = false; for (int l = 1; l <= L; l++) ok = ok || (fabs(v - cv * (double) m[l]) <= s * 1.01 && (l == L || fabs(cv * (double) (m[l] - m[l - 1])) <= 1.1 * tv + s)); if (screen) ok = ok || (fabs(v) <= 1.01 * tv && fabs(cv * (double) m[L]) <= 10 * tv); hs::expect(ok, label); return; }
        z3::expr zv = ze(S(v)), s = zc * num(q2m(2e-12Q * scale)), ok = zctx().bool_val(false); auto within = [](z3::expr a, z3::expr b) { return a <= b && -a <= b; };
        for (int l = 1; l <= L; l++) { z3::expr t = within(zv - zc * num(q2m(m[l])), s); if (l < L) t = t && within(zc * num(q2m(m[l] - m[l - 1])), zt * num(mpq_class(11, 10)) + s); ok = ok || t; }
        if (screen) ok = ok || (within(zv, zt * num(mpq_class(101, 100))) && within(zc * num(q2m(m[L])), zt * 10));
        labels.push_back(label); bad.push_back(!ok); hs::eqd(label, 0, 0); }
    void decide() {
        if (!hs::symbolic || bad.empty()) return; z3::expr_vector v(zctx()); for (auto &b : bad) v.push_back(b);
        z3::solver z(zctx()); z3::params pr(zctx()); pr.set("timeout", 60000u); z.set(pr); z.add(z3::mk_or(v)); sym::add_conditions(z, {});
        auto t0 = std::chrono::steady_clock::now(); auto r = z.check(); sym::st_eq.queries++; sym::st_eq.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (r == z3::unsat) return; if (r == z3::unknown) throw SymError("solver gave up on " + labels[0]);
        z3::model m = z.get_model(); string lab = "quadrature"; for (size_t i = 0; i < bad.size(); i++) if (m.eval(bad[i], true).is_true()) { lab = labels[i]; break; }
        auto fix = [&](S x) { if (!sym::is_handle(x.v)) return; z3::expr e = m.eval(ze(x), true); string t; if (e.is_numeral()) { mpq_class q(Z3_get_numeral_string(zctx(), e)); q = mpq_class(q.get_d()); sym::assume((x - Q(q)).v, 0); } }; fix(c); fix(tol); hs::expect(false, lab); }
};
namespace sym { z3::expr tozexpr(double d, vector<z3::expr> &sides); }
z3::expr Decide::tz(double d, vector<z3::expr> &s) { return sym::tozexpr(d, s); }
struct Sh { int L; vector<double> a, d; double C; };
struct Pt { vector<int> n; vector<double> c, z; double osc = 0; };
static libgrpp_shell_t *mk(const Sh &s) { double o[3] = {0, 0, 0}; return libgrpp_new_shell(o, s.L, s.a.size(), const_cast<double *>(s.d.data()), const_cast<double *>(s.a.data())); }
static S scale_var(double hi, double span = 0) { S c = hs::var("c", true); hs::assume(c - Q(mpq_class(span ? hi / span : 1e-9)), 2); hs::assume(c - Q(mpq_class(hi)), 4); return c; }
static void inexact() { if (hs::symbolic) { sym::exact_mode = false; sym::tiny = 0; } }
// numerical two-centre integrals (or one centre on the potential)
static void c_type2(const Sh &A, const Sh &B, const Pt &U, int l1, int l2, int nm, int sign, double top, double span) {
    int nf = (l1 + 1) * (l2 + 1) * (nm + 1); Rule rule(32, 9, nf, [&](quad r, quad w, vector<quad> &f) { quad u = 0; for (size_t k = 0; k < U.n.size(); k++) u += U.c[k] * phiq(r, U.n[k] - 2) * expq(-(quad) U.z[k] * r * r); (void) w; if (fabsq(u) < 1e-60Q) return;
        auto F = [&](const Sh &s, int lm) { vector<quad> t(2 * (lm + 1), 0); for (size_t i = 0; i < s.a.size(); i++) { quad e = s.a[i] * (r - s.C) * (r - s.C); if (e < 120) { quad x = 2 * (quad) s.a[i] * s.C * r; auto k = kbes(lm, x); e = s.d[i] * normq(s.L, s.a[i]) * expq(-e); for (int l = 0; l <= lm; l++) { t[l] += e * k[l]; t[lm + 1 + l] += fabsq(e) * (k[l] + (x && x < 16.1Q ? 0.15Q : 0)); } } } return t; };
        vector<quad> f1 = F(A, l1), f2 = F(B, l2); int i = 0; for (int a = 0; a <= l1; a++) for (int b = 0; b <= l2; b++) for (int n = 0; n <= nm; n++) { f[i] = u * f1[a] * f2[b] * phiq(r, n); f[nf + i] = fabsq(u) * f1[l1 + 1 + a] * f2[l2 + 1 + b] * phiq(r, n); i++; } });
    quad big = 0; for (quad s : rule.s.back()) big = std::max(big, fabsq(s)); S c = scale_var(std::min(1e9, top / (double) big), span); inexact();
    vector<S> pc, pz; for (size_t k = 0; k < U.n.size(); k++) { pc.push_back(Q(mpq_class(sign * U.c[k])) * c); pz.push_back(S(U.z[k])); }
    libgrpp_potential_t *u = hs::potential(0, 0, U.n, pc, pz); auto vec = [](const vector<double> &v) { return vector<S>(v.begin(), v.end()); }; libgrpp_shell_t *a = hs::shell({S(0), S(0), S(0)}, A.L, vec(A.d), vec(A.a)), *b = hs::shell({S(0), S(0), S(0)}, B.L, vec(B.d), vec(B.a));
    auto *t = LG(tabulate_radial_type2_integrals)(l1, l2, nm, A.C * A.C, B.C * B.C, u, a, b); Decide D(c, Q(mpq_class(1e-16)), true); int i = 0;
    for (int x = 0; x <= l1; x++) for (int y = 0; y <= l2; y++) for (int n = 0; n <= nm; n++, i++) { vector<quad> m; for (auto &s : rule.s) m.push_back(sign * s[i]); D.add("T" + to_string(n) + "_" + to_string(x) + to_string(y), LG(get_radial_type2_integral)(t, x, y, n), m, rule.scale[i]); }
    D.decide(); LG(delete_radial_type2_integrals)(t); }
// radial integrals of the numerical "type 1" scheme (arbitrary potential function)
struct CB { const Pt *U; vector<double> c; };
static double callback(double r, void *p) { CB *b = (CB *) p; double v = 0; for (size_t k = 0; k < b->c.size(); k++) { double f = pow(r, b->U->n[k] - 2) * exp(-b->U->z[k] * r * r) * (b->U->osc ? 1 + 0.9 * cos(b->U->osc * r) : 1); v = hs::symbolic ? __sym_fadd(v, __sym_fmul(b->c[k], f)) : v + b->c[k] * f; } return v; }
static void c_type1(double aA, double aB, double CA, double CB_, double k, double pref, const Pt &U, int lm, int sign, double top, double tlo, double thi) {
    int nf = (lm + 1) * (lm + 1); Rule rule(2048, 3, nf, [&](quad r, quad w, vector<quad> &f) { (void) w; quad e = k * r - ((quad) aA + aB) * r * r - aA * (quad) CA * CA - aB * (quad) CB_ * CB_; if (e < -150) return; quad u = 0; for (size_t q = 0; q < U.n.size(); q++) u += U.c[q] * phiq(r, U.n[q] - 2) * expq(-(quad) U.z[q] * r * r); u *= pref * expq(e); if (U.osc) u *= 1 + 0.9Q * cosq(U.osc * r);
        if (fabsq(u) < 1e-60Q) return; auto kb = kbes(lm, k * r); for (int l = 0; l <= lm; l++) for (int n = 0; n <= lm; n++) { f[l * (lm + 1) + n] = u * kb[l] * phiq(r, n); f[nf + l * (lm + 1) + n] = fabsq(u) * (kb[l] + (k && k * r < 16.1Q ? 0.15Q : 0)) * phiq(r, n); } });
    quad big = 0; for (quad s : rule.s.back()) big = std::max(big, fabsq(s)); S c = scale_var(std::min(1e9, top / (double) big)), tol = hs::var("tol", true); hs::assume(tol - Q(mpq_class(tlo)), 2); hs::assume(tol - Q(mpq_class(thi)), 4); inexact();
    CB b{&U, {}}; for (double x : U.c) b.c.push_back(hs::in(Q(mpq_class(sign * x)) * c)); LG(libgrpp_set_radial_tolerance)(hs::in(tol));
    auto *t = LG(tabulate_radial_type1_integrals)(lm, lm, CA * CA, CB_ * CB_, aA, aB, k, pref, callback, &b); Decide D(c, tol, false);
    for (int l = 0; l <= lm; l++) for (int n = 0; n <= lm; n++) { vector<quad> m; int i = l * (lm + 1) + n; for (auto &s : rule.s) m.push_back(sign * s[i]); D.add("Q" + to_string(l) + to_string(n), LG(get_radial_type1_integral)(t, l, n), m, rule.scale[i]); }
    LG(libgrpp_set_radial_tolerance)(1e-16); D.decide(); LG(delete_radial_type1_integrals)(t); }
// one centre: closed form
static S gint(int n, S p) { S r = n % 2 ? S(1) / (R(2) * p) : sqrt(hs::pi() / p) / R(2); for (int m = n % 2; m < n; m += 2) r = r * R(m + 1) / (R(2) * p); return r; }
static void c_one(int LA, int LB, int nA, int nB, const vector<int> &pow, int l1, int l2, int nm) {
    if (hs::symbolic) { sym::exact_mode = true; sym::tiny = 1.01e-12; } vector<S> a, b, da, db, c, z; for (int i = 0; i < nA; i++) { a.push_back(hs::var("a" + to_string(i), true)); da.push_back(hs::var("d" + to_string(i))); } for (int i = 0; i < nB; i++) { b.push_back(hs::var("b" + to_string(i), true)); db.push_back(hs::var("e" + to_string(i))); }
    for (size_t i = 0; i < pow.size(); i++) { z.push_back(hs::var("z" + to_string(i), true)); c.push_back(hs::var("c" + to_string(i))); } vector<S> o{S(0), S(0), S(0)};
    libgrpp_shell_t *A = hs::shell(o, LA, da, a), *B = hs::shell(o, LB, db, b); libgrpp_potential_t *u = hs::potential(0, 0, pow, c, z); auto *t = LG(tabulate_radial_type2_integrals)(l1, l2, nm, 0, 0, u, A, B);
    for (int x = 0; x <= l1; x++) for (int y = 0; y <= l2; y++) for (int n = 0; n <= nm; n++) { S r(0); if (!x && !y) for (int i = 0; i < nA; i++) for (int j = 0; j < nB; j++) for (size_t k = 0; k < pow.size(); k++) r += da[i] * db[j] * c[k] * norm_code(LA, a[i]) * norm_code(LB, b[j]) * gint(n + pow[k], a[i] + b[j] + z[k]); hs::eq("T" + to_string(n) + "_" + to_string(x) + to_string(y), LG(get_radial_type2_integral)(t, x, y, n), r); }
    LG(delete_radial_type2_integrals)(t); }
static void declare() {
    hs::setup = [] { if (hs::symbolic) { sym::exact_mode = false; sym::simplify_cond = true; sym::tiny = 0; } LG(libgrpp_init)(); }; bool th = hs::tier == "thorough";
    struct T2 { string id; Sh A, B; Pt U; int l1, l2, nm; double span = 0; }; vector<T2> t2{
        {"ss", {0, {0.7}, {1}, 1.1}, {0, {0.4}, {0.8}, 0.9}, {{2}, {1}, {0.3}}, 0, 0, 0},
        {"contracted", {1, {2.5, 0.6}, {0.4, 0.7}, 1.3}, {2, {1.1, 0.35, 6.0}, {0.5, 0.3, -0.2}, 2.2}, {{0, 1, 2}, {1, -0.6, 0.4}, {1.5, 0.8, 0.2}}, 1, 2, 2},
        {"narrow", {0, {300}, {1}, 1.7}, {1, {150}, {1}, 1.6}, {{2, 1}, {1, 2}, {0.3, 2}}, 1, 1, 1},
        {"steep", {3, {9000}, {1}, 0.8}, {0, {4000}, {1}, 0.79}, {{2}, {1}, {1}}, 2, 0, 1},
        {"far", {1, {0.9}, {1}, 5}, {1, {1.3}, {1}, 6}, {{2, 0}, {1, 1}, {0.9, 3}}, 1, th ? 2 : 1, th ? 2 : 1, th ? 0 : 1e7},
        {"onA", {2, {1.2, 0.3}, {1, 0.5}, 0}, {1, {0.8}, {1}, 1.4}, {{1, 2}, {1, 1}, {0.5, 2.5}}, 2, 3, 3},
        {"onB", {1, {0.5}, {1}, 2.1}, {3, {2.2, 0.9}, {0.3, 0.4}, 0}, {{2}, {1}, {0.7}}, 3, 1, 2},
        {"highl", {4, {0.9}, {1}, 1.5}, {5, {0.7, 1.9}, {1, -0.4}, 2.0}, {{2, 1}, {1, 1}, {0.4, 1.1}}, th ? 12 : 5, th ? 14 : 7, 0, 8}, {"highl2", {6, {1.9}, {1}, 1.5}, {3, {0.5}, {1}, 0.8}, {{1}, {1}, {1.1}}, 6, 3, 0, 3},
        {"highn", {5, {0.9}, {1}, 1.5}, {4, {0.7}, {1}, 0.6}, {{2}, {1}, {0.4}}, 1, 1, th ? 20 : 10},
        {"nearone", {1, {0.9}, {1}, 0.01}, {0, {0.7}, {1}, 0.02}, {{2, 0}, {1, 0.3}, {0.4, 2}}, 1, 2, 1}};
    { int i = 0; for (double x = 0.1; x < 5; x += th ? 0.07 : 0.14, i++) { double al = (i % 3 == 0 ? 60 : i % 3 == 1 ? 400 : 2500) * (x < 0.4 ? 10 : 1); t2.push_back({"pos" + to_string(i), {i % 2, {al}, {1}, x}, {0, {0.4 * al}, {1}, x + 0.01}, {{2 - i % 2}, {1}, {0.3}}, 0, 0, 0}); } }
    for (auto &t : t2) for (int s : {1, -1}) if (s > 0 || t.id.substr(0, 3) != "pos") for (int e : th ? vector<int>{-5, -4} : vector<int>{-5}) hs::add("type2_" + t.id + (s > 0 ? "+" : "-") + (e == -5 ? "" : "_b"), [=] { c_type2(t.A, t.B, t.U, t.l1, t.l2, t.nm, s, e == -5 ? 1e-5 : 2e-5, t.span); }, 2000);
    struct T1 { string id; double aA, aB, CA, CB, k, pref; Pt U; int lm; double tlo, thi, top = 1e-5; }; vector<T1> t1{
        {"plain", 0.7, 0.4, 1.1, 0.9, 1.7, 2.5, {{1, 0}, {1, -0.3}, {0, 1}}, 2, 1e-16, 1e-6},
        {"narrow", 9e4, 7e4, 1.0, 1.01, 3.2e5, 1.5, {{1}, {1}, {0.1}}, 1, 1e-16, 1e-6},
        {"waves", 0.7, 0.4, 1.1, 0.9, 1.7, 2.5, {{1, 0}, {1, -0.3}, {0, 1}, 1500}, 1, 1e-16, 1e-6},
        {"waves_big", 0.7, 0.4, 1.1, 0.9, 1.7, 2.5, {{1, 0}, {1, -0.3}, {0, 1}, 1500}, 1, 1e-8, 0.1, 1000},
        {"waves2", 0.7, 0.4, 1.1, 0.9, 1.7, 2.5, {{2}, {1}, {0.1}, 4100}, 1, 1e-16, 1e-6},
        {"centre", 3.0, 0.4, 0, 0, 0, 1, {{1, 2}, {1, 1}, {0, 0.5}}, 3, 1e-16, 1e-8},
        {"loose", 0.6, 0.8, 1.5, 1.2, 2.9, 1, {{1, 2, 0}, {1, 1, 0.1}, {0, 0.5, 2}}, th ? 16 : 8, 1e-4, 1e-2},
        {"diffuse", 0.01, 0.02, 3, 2, 0.1, 1, {{1}, {1}, {0}}, 2, 1e-16, 1e-6}};
    for (auto &t : t1) for (int s : {1, -1}) hs::add("type1_" + t.id + (s > 0 ? "+" : "-"), [=] { c_type1(t.aA, t.aB, t.CA, t.CB, t.k, t.pref, t.U, t.lm, s, t.top, t.tlo, t.thi); }, 2000);
    for (int LA = 0; LA <= (th ? 6 : 3); LA++) for (int LB = 0; LB <= (th ? 6 : 3); LB++) hs::add("one_" + to_string(LA) + to_string(LB), [=] { c_one(LA, LB, 1, 1, {LA % 3, 2}, LA, LB, LA + LB); });
    hs::add("one_contracted", [] { c_one(1, 2, 2, 3, {0, 1, 2}, 2, 3, 3); }); hs::add("one_high", [=] { c_one(10, 10, 1, 1, {2}, 1, 2, th ? 40 : 20); });
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
