// C18: real spherical harmonics, angular integrals and L matrices
#include "rsh.h"
#include "stubs.h"
#include "stubs_rsh.h"
extern "C" {
double angular_type1_integral(int, int, int, int, double *); double angular_type2_integral(int, int, int, int, int, int, const double *);
double spherical_to_cartesian_coef(int, int, int, int, int); double evaluate_real_spherical_harmonic(int, int, const double *); void evaluate_real_spherical_harmonics_array(int, const double *, double *);
void construct_angular_momentum_matrices_rsh(int, double *, double *, double *); void construct_angular_momentum_matrices_csh(int, double *, double *, double *);
}
static string t2(int a, int b) { return to_string(a) + "," + to_string(b); }
static S unit_value(int l, int m, const V3 &k) { S n = sqrt(dot(k, k)); return solid(l, m, k) / ipow(n, l); }
// replay tolerance: the expansion in monomials loses accuracy to cancellation, in proportion to the sum of the terms' magnitudes
static void tol(int l, const V3 &k) {
    if (hs::symbolic || l < 12) return; double kk[3], n = 0; for (int d = 0; d < 3; d++) { kk[d] = fabs(hs::in(k[d])); n += kk[d] * kk[d]; } n = sqrt(n); for (auto &x : kk) x /= n;
    for (int m = -l; m <= l; m++) { double s = 0; for (auto &t : rsh(l, m).p) s += fabs(t.second.get_d()) * pow(kk[0], t.first[0]) * pow(kk[1], t.first[1]) * pow(kk[2], t.first[2]); s *= sqrt(rsh(l, m).N.get_d() / 3.14); hs::atol_ = std::max(hs::atol_, 1e-14 * s); } }
static V3 kvec(int pat) { V3 k = vec("k"); for (int d = 0; d < 3; d++) { if (pat >> d & 1) k[d] = S(0); if (pat >> (d + 3) & 1) k[d] = R(3 + 2 * d, 4) * (d == 1 ? S(-1) : S(1)); } hs::assume(dot(k, k) - R(1, 1000000), 1); return k; }
// values at every point of the unit sphere; pat: bits 0-2 zero components, 3-5 rational components
static void values(int l, int pat) {
    V3 k = kvec(pat); auto kv = hs::inv(vs(k)); vector<double> v(2 * l + 1, 7.0); LG(evaluate_real_spherical_harmonics_array)(l, kv.data(), v.data()); tol(l, k);
    for (int m = -l; m <= l; m++) { S o = unit_value(l, m, k); hs::eq("array " + t2(l, m), v[m + l], o); if (l <= 8 || m % 4 == 0) hs::eq("value " + t2(l, m), LG(evaluate_real_spherical_harmonic)(l, m, kv.data()), o); }
}
// coefficient table, all (lx,ly,lz)
static void coefs(int l) {
    for (int m = -l; m <= l; m++) { S n = rsh_norm(l, m); auto &p = rsh(l, m).p; for (int x = 0; x <= l; x++) for (int y = 0; x + y <= l; y++) { auto it = p.find({x, y, l - x - y}); hs::eq("c " + t2(l, m) + "," + t2(x, y), LG(spherical_to_cartesian_coef)(l, m, x, y, l - x - y), it == p.end() ? S(0) : n * Q(it->second)); } }
}
static void zero_vec(int l) { vector<double> k(3, 0.0), v(2 * l + 1, 7.0); LG(evaluate_real_spherical_harmonics_array)(l, k.data(), v.data()); for (int m = -l; m <= l; m++) { hs::eq("v", v[m + l], l ? S(0) : S(1) / sqrt(R(4) * hs::pi())); hs::eq("v", LG(evaluate_real_spherical_harmonic)(l, m, k.data()), l ? S(0) : S(1) / sqrt(R(4) * hs::pi())); } }
// int Y_lambda,mu(k) Y_lambda,mu Y_Lm x^a y^b z^c, summed over mu, for arbitrary values of Y(k)
static void type2(int lambda, int L, int amax) {
    vector<S> y; for (int i = 0; i <= 2 * lambda; i++) y.push_back(hs::var("y" + to_string(i))); auto yv = hs::inv(y);
    for (int n = 0; n <= amax; n++) { if ((n + lambda + L) % 2 || lambda > L + n || L > lambda + n) continue; for (int a = 0; a <= n; a++) for (int b = 0; a + b <= n; b++) { int c = n - a - b; if (n > 3 && (a * 3 + b * 5 + lambda + L) % 4) continue;
        for (int m = -L; m <= L; m++) { S o(0); QPoly q = qmul(rsh(L, m).p, qmono(a, b, c)); for (int mu = -lambda; mu <= lambda; mu++) { mpq_class w = qsphere(qmul(rsh(lambda, mu).p, q)); if (w != 0) o += y[mu + lambda] * rsh_norm(lambda, mu) * rsh_norm(L, m) * R(4) * hs::pi() * Q(w); }
            hs::eq("w2 " + t2(lambda, L) + "," + t2(m, a) + "," + t2(b, c), LG(angular_type2_integral)(lambda, L, m, a, b, c, yv.data()), o); } } }
}
static void type1(int lambda, int nmax) {
    V3 k = kvec(0); auto kv = hs::inv(vs(k));
    for (int n = lambda % 2; n <= nmax; n += 2) for (int a = 0; a <= n; a++) for (int b = 0; a + b <= n; b++) { if (n > 3 && (a * 3 + b * 5 + lambda) % 4) continue; int c = n - a - b; S o(0);
        for (int mu = -lambda; mu <= lambda; mu++) { mpq_class w = qsphere(qmul(rsh(lambda, mu).p, qmono(a, b, c))); if (w != 0) o += unit_value(lambda, mu, k) * rsh_norm(lambda, mu) * R(4) * hs::pi() * Q(w); }
        hs::eq("w1 " + t2(lambda, a) + "," + t2(b, c), LG(angular_type1_integral)(lambda, a, b, c, kv.data()), o); }
}
// M_k = Im <S_m1| l_k |S_m2>: sum_m1 M[m1][m2] S_m1(r) = -(r x grad)_k S_m2(r) for every r
static void lmat(int l) {
    int d = 2 * l + 1; vector<vector<double>> M(3, vector<double>(d * d, 7.0)); LG(construct_angular_momentum_matrices_rsh)(l, M[0].data(), M[1].data(), M[2].data());
    V3 r = vec("r");
    for (int k = 0; k < 3; k++) {
        for (int m2 = -l; m2 <= l; m2++) { S lhs(0); for (int m1 = -l; m1 <= l; m1++) lhs += S(M[k][(m1 + l) * d + m2 + l]) * solid(l, m1, r); hs::eq("L" + t2(k, m2), hs::in(lhs), -(rsh_norm(l, m2) * qeval(qrot(rsh(l, m2).p, k), r))); }
        for (int i = 0; i < d; i++) for (int j = 0; j <= i; j++) hs::eqd("antisym", M[k][i * d + j], hs::in(-S(M[k][j * d + i])));
    }
    // algebra: [Lx,Ly] = i Lz (L = iM) -> MxMy - MyMx = Mz ; sum M_k^2 = -l(l+1)
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { S c(0), q(0); for (int t = 0; t < d; t++) { c += S(M[0][i * d + t]) * S(M[1][t * d + j]) - S(M[1][i * d + t]) * S(M[0][t * d + j]); for (int k = 0; k < 3; k++) q += S(M[k][i * d + t]) * S(M[k][t * d + j]); }
        hs::eq("commutator", hs::in(c), S(M[2][i * d + j])); hs::eq("casimir", hs::in(q), i == j ? R(-l * (l + 1)) : S(0)); }
}
static void lmat_csh(int l) {
    int d = 2 * l + 1; vector<vector<double>> M(3, vector<double>(d * d, 7.0)); LG(construct_angular_momentum_matrices_csh)(l, M[0].data(), M[1].data(), M[2].data());
    for (int i = -l; i <= l; i++) for (int j = -l; j <= l; j++) { int t = (i + l) * d + j + l; S p = i == j + 1 ? sqrt(R((l - j) * (l + j + 1))) : S(0), q = i == j - 1 ? sqrt(R((l + j) * (l - j + 1))) : S(0);
        hs::eq("lx", M[0][t], (p + q) / R(2)); hs::eq("i ly", M[1][t], (p - q) / R(2)); hs::eq("lz", M[2][t], i == j ? R(j) : S(0)); }
}
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 30; hs::setup = [] { LG(libgrpp_init)(); };
    for (int l = 30; l >= 0; l--) { hs::add("coefs_" + to_string(l), [=] { coefs(l); }); hs::add("values_" + to_string(l), [=] { values(l, l <= (th ? 20 : 10) ? 0 : 48); }); if (l) for (int pat : {1, 2, 4, 3, 5, 6}) if (l <= (th ? 30 : 6)) hs::add("values_" + to_string(l) + "_p" + to_string(pat), [=] { values(l, pat); }); hs::add("values_zero_" + to_string(l), [=] { zero_vec(l); }); }
    for (int l = 10; l >= 0; l--) { hs::add("lmatrix_" + to_string(l), [=] { lmat(l); }); hs::add("lmatrix_csh_" + to_string(l), [=] { lmat_csh(l); }); }
    for (int lam = th ? 20 : 12; lam >= 0; lam--) for (int L = th ? 10 : 6; L >= 0; L--) hs::add("type2_" + to_string(lam) + "_" + to_string(L), [=] { type2(lam, L, th ? 10 : 6); });
    for (int lam = th ? 12 : 7; lam >= 0; lam--) hs::add("type1_" + to_string(lam), [=] { type1(lam, th ? 12 : 7); });
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
