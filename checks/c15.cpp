// C15: nuclear attraction integrals with every model
#include "closed.h"
#include "nuc.h"
extern "C" {
struct T1Table { int lm, nm; vector<S> Q; };
static Nuc *cur = nullptr; static int ncalls = 0;
static bool hide = true;
// model of the radial layer (its own correctness: C21, C13): the integrand at r
void *__stub_tabulate_radial_type1_integrals(int lm, int nm, double CA2, double CB2, double aA, double aB, double k, double pref, double (*pot)(double, void *), void *pp) {
    auto *t = new T1Table; t->lm = lm; t->nm = nm; S r = t2_r(); double u = pot(r.v, pp); S U(u);
    if (cur) { bool in = cur->kinked() && hs::less(r, cur->split()); S v = cur->V(r, in); hs::eq("potential" + to_string(ncalls++), u, v); U = S(sym::opaque(v.v, true)); }
    S K = simp(S(k)), K2 = simp(K * K), g = exp(-((S(aA) + S(aB)) * r * r + S(aA) * S(CA2) + S(aB) * S(CB2))); S P(pref);
    for (int l = 0; l <= lm; l++) for (int n = 0; n <= nm; n++) t->Q.push_back(simp(P * U * ipow(r, n + 2) * g * ipow(K * r, l) * jn(l, K2 * r * r)));
    return t; }
double __stub_get_radial_type1_integral(void *p, int l, int n) { auto *t = (T1Table *) p; if (l < 0 || n < 0 || l > t->lm || n > t->nm) throw PathAbort{"radial table index out of range"}; return t->Q[l * (t->nm + 1) + n].v; }
void __stub_delete_radial_type1_integrals(void *p) { delete (T1Table *) p; }
}
static int MODEL[] = {LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, LIBGRPP_NUCLEAR_MODEL_FERMI, LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL};
static Nuc mk(int m, int Z) { Nuc n{m, R(Z), {}}; auto P = [&](const char *s, S lo, S hi) { S v = hs::var(s, true); hs::assume_between(v, lo, hi); n.p.push_back(v); };
    if (m == N_BALL || m == N_GAUSS) P("Rrms", R(1, 4), R(3)); if (m == N_FERMI || m == N_BUBBLE) { P("c", R(1, 2), R(3)); P("a", R(1, 4), R(2)); } if (m == N_BUBBLE) P("k", R(1, 8), R(2)); return n; }
static void wrapper(const Nuc &n, libgrpp_shell_t *a, libgrpp_shell_t *b, double *C, int Z, double *M) { auto p = hs::inv(n.p); switch (n.model) {
    case N_POINT: LG(libgrpp_nuclear_attraction_integrals_point_charge)(a, b, C, Z, M); break; case N_BALL: LG(libgrpp_nuclear_attraction_integrals_charged_ball)(a, b, C, Z, p[0], M); break; case N_GAUSS: LG(libgrpp_nuclear_attraction_integrals_gaussian_model)(a, b, C, Z, p[0], M); break;
    case N_FERMI: LG(libgrpp_nuclear_attraction_integrals_fermi_model)(a, b, C, Z, p[0], p[1], M); break; case N_BUBBLE: LG(libgrpp_nuclear_attraction_integrals_fermi_bubble_model)(a, b, C, Z, p[0], p[1], p[2], M); break; default: LG(libgrpp_nuclear_attraction_integrals)(a, b, C, Z, MODEL[n.model], nullptr, M); } }
struct PairO { S f, p; V3 PA, PB, P; Proj pr; std::map<vector<int>, vector<S>> me;
    PairO(S f_, S a, S b, const V3 &A, const V3 &B) : pr(0, a + b, V3{}) { p = simp(a + b); V3 AB = A - B; for (int d = 0; d < 3; d++) { AB[d] = simp(AB[d]); P[d] = simp((a * A[d] + b * B[d]) / p); PA[d] = simp(P[d] - A[d]); PB[d] = simp(P[d] - B[d]); } pr = Proj(0, p, P); f = f_ * exp(-(a * b / p * dot(AB, AB))) * sqrt(R(4) * hs::pi()); }
    const vector<S> &E(int d, int i, int j) { auto &e = me[{d, i, j}]; if (e.empty()) e = E1(i, j, PA[d], PB[d], p); return e; }
    S get(const int *ea, const int *eb) { S v(0); auto &x = E(0, ea[0], eb[0]), &y = E(1, ea[1], eb[1]), &z = E(2, ea[2], eb[2]); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y.size(); j++) for (size_t k = 0; k < z.size(); k++) v += x[i] * y[j] * z[k] * pr.value(0, {(int) i, (int) j, (int) k}); return f * v; } };
// pat: 0 general; 1 A = C; 2 B = C; 3 A = B; 4 all coincide; 5 P = C (charge at the Gaussian product centre); 6 rational geometry and exponents; 7 one direction
static void integral(int m, int la, int lb, int pat, int np, int Z, bool wrap, bool zeros = false) {
    hs::rtol = m == N_BALL || m == N_FERMI || m == N_BUBBLE ? 2e-6 : 1e-7; t2_order = la + lb; Rnd rr(la * 31 + lb * 7 + pat + m); Nuc n = mk(m, Z); S r = t2_r();
    V3 C = vec("C"), A, B; ShellSpec sA{la, A, {}, {}}, sB{lb, B, {}, {}};
    for (int i = 0; i < np; i++) { sA.c.push_back(zeros && i == 0 ? S(0) : hs::var("ca" + to_string(i))); sB.c.push_back(zeros && i == 1 ? S(0) : hs::var("cb" + to_string(i))); }
    if (np > 1) { for (int i = 0; i < np; i++) { sA.a.push_back(rr.pos()); sB.a.push_back(rr.pos()); } A = {hs::var("Ax"), rr.any(), rr.any()}; B = {rr.any(), rr.any(), hs::var("Bz")}; if (pat == 1) A = V3{S(0), S(0), S(0)}; if (pat == 3) B = A; }
    else { S p = pat == 6 ? R(9, 8) : hs::var("p", true), x = pat == 6 || pat == 7 ? R(3, 8) : hs::var("x", true); if (sym::is_handle(x.v) && !(pat == 6 || pat == 7)) hs::assume_between(x, R(0), R(1)); if (pat != 6) hs::assume_between(p, R(1, 8), R(4));
        V3 P = vec("P"), D = vec("D"); if (pat == 1) P = (x - R(1)) * D; if (pat == 2) P = x * D; if (pat == 3) D = {S(0), S(0), S(0)}; if (pat == 4) P = D = {S(0), S(0), S(0)}; if (pat == 5) P = {S(0), S(0), S(0)}; if (pat == 6) { P = {rr.any(), rr.any(), rr.any()}; D = {rr.any(), rr.any(), rr.any()}; C = {rr.any(), rr.any(), rr.any()}; } if (pat == 7) { P = {P[0], rr.any(), rr.any()}; D = {rr.any(), D[1], rr.any()}; }
        A = P + (R(1) - x) * D; B = P - x * D; sA.a = {p * x}; sB.a = {p * (R(1) - x)}; }
    sA.o = C + A; sB.o = C + B; auto *a = sA.make(), *b = sB.make(); int na = a->cart_size, nb = b->cart_size; auto Cv = hs::inv(vs(C)); vector<double> M(na * nb, 5.0);
    cur = hs::symbolic ? &n : nullptr; ncalls = 0; if (hs::symbolic && n.kinked()) hs::assume(r - n.split(), 5); auto p = hs::inv(n.p); vector<double> pp = p; pp.resize(10, -3.0);
    if (wrap) wrapper(n, a, b, Cv.data(), Z, M.data()); else LG(libgrpp_nuclear_attraction_integrals)(a, b, Cv.data(), Z, MODEL[m], pp.data(), M.data());
    vector<PairO> pr; for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) if (!(zeros && (i == 0 || j == 1))) pr.emplace_back(sA.c[i] * sB.c[j] * norm_code(la, sA.a[i]) * norm_code(lb, sB.a[j]), sA.a[i], sB.a[j], A, B);
    bool kinked = n.kinked(); auto VV = [&](bool in) { S v = n.V(r, in); return hs::symbolic ? S(sym::opaque(v.v, true)) : v; }; S vo = VV(false), vi = kinked ? VV(true) : vo;
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { S g(0); for (auto &q : pr) g += q.get(a->cart_list + 3 * i, b->cart_list + 3 * j); g = simp(g * r * r); string l = "V[" + to_string(i) + "," + to_string(j) + "]"; if (kinked) hs::eqint2(l, M[i * nb + j], g * vi, g * vo, r, n.split()); else hs::eqint(l, M[i * nb + j], g * vo, r); }
    LG(libgrpp_delete_shell)(a); LG(libgrpp_delete_shell)(b); }
// every specialised routine equals the general one; the numerical point charge is the point charge model's integrand; linear in the charge
static void same(int m, int la, int lb) { Rnd rr(5 + la * 3 + lb); Nuc n = mk(m, 1); ShellSpec sA{la, {rr.any(), rr.any(), rr.any()}, {hs::var("ca"), hs::var("cb")}, {rr.pos(), rr.pos()}}, sB{lb, {rr.any(), rr.any(), rr.any()}, {hs::var("cc")}, {rr.pos()}}; auto *a = sA.make(), *b = sB.make(); int sz = a->cart_size * b->cart_size; double C[3] = {0.25, -0.5, 0.125};
    t2_order = la + lb; cur = nullptr; auto p = hs::inv(n.p); p.resize(10, -3.0); vector<double> M1(sz, 1.0), MZ(sz, 2.0), M0(sz, 3.0);
    LG(libgrpp_nuclear_attraction_integrals)(a, b, C, 1, MODEL[m], p.data(), M1.data());
    for (int Z : {0, 1, -3, 2, 17, 118}) { LG(libgrpp_nuclear_attraction_integrals)(a, b, C, Z, MODEL[m], p.data(), MZ.data()); wrapper(n, a, b, C, Z, M0.data()); for (int i = 0; i < sz; i++) { hs::eqd("same" + to_string(Z) + "," + to_string(i), MZ[i], M0[i]); hs::eqd("linear" + to_string(Z) + "," + to_string(i), MZ[i], hs::symbolic ? __sym_fmul((double) Z, M1[i]) : Z * M1[i]); } }
    LG(libgrpp_delete_shell)(a); LG(libgrpp_delete_shell)(b); }
static void declare() {
    hs::setup = [] { LG(libgrpp_init)(); }; const char *nm[] = {"point", "ball", "gaussian", "fermi", "bubble", "pointnum"}; bool th = hs::tier == "thorough"; int LM = th ? 3 : 2;
    for (int m = N_BALL; m <= N_POINTNUM; m++) { string s = nm[m];
        for (int la = 0; la <= LM; la++) for (int lb = 0; lb <= LM; lb++) if (la + lb <= (th ? 4 : 2)) for (int pat = 0; pat <= 5; pat++) { if (!th && pat && la + lb == 0) continue; if (!th && (la + lb + pat + m) % 2 && la + lb > 1) continue; hs::add(s + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat), [=] { integral(m, la, lb, pat, 1, 1 + (m * 37 + la * 11 + lb * 5) % 118, (la + lb) % 2); }); }
        hs::add(s + "_contracted", [=] { integral(m, 1, 1, 0, 3, 8, true); }); hs::add(s + "_contracted_zero", [=] { integral(m, 1, 0, 3, 3, 8, false, true); }); hs::add(s + "_contracted_A", [=] { integral(m, 2, 1, 1, 2, 92, true); });
        for (auto l : th ? vector<array<int, 2>>{{3, 3}, {4, 2}, {2, 5}, {4, 4}, {6, 1}, {0, 6}} : vector<array<int, 2>>{{3, 2}, {1, 4}}) hs::add(s + "_high_" + to_string(l[0]) + "_" + to_string(l[1]), [=] { integral(m, l[0], l[1], 6, 1, 79, true); });
        hs::add(s + "_dir", [=] { integral(m, 1, 2, 7, 1, 47, false); }); }
    for (int m = N_POINT; m <= N_POINTNUM; m++) { hs::add(string("same_") + nm[m] + "_0_1", [=] { same(m, 0, 1); }); hs::add(string("same_") + nm[m] + "_2_1", [=] { same(m, 2, 1); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
