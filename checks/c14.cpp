// C14: nuclear models
#include "nuc.h"
static Nuc mk(int m, bool ratc = false) { Nuc n{m, hs::var("Z", true), {}}; if (m == N_BALL || m == N_GAUSS) n.p = {hs::var("Rrms", true)}; else n.p = {hs::var("c", true), ratc ? R(1, 3) : hs::var("a", true)}; if (m == N_BUBBLE) n.p.push_back(hs::var("k", true)); return n; }
extern "C" { double libgrpp_coulomb_potential_point(double, double); double fermi_model_norm_factor(double, double); }
static double vcode(const Nuc &n, double r) { double Z = hs::in(n.Z); auto p = hs::inv(n.p); switch (n.model) { case N_POINT: return LG(libgrpp_coulomb_potential_point)(r, Z); case N_BALL: return LG(libgrpp_coulomb_potential_ball)(r, Z, p[0]); case N_GAUSS: return LG(libgrpp_coulomb_potential_gaussian)(r, Z, p[0]); case N_FERMI: return LG(libgrpp_coulomb_potential_fermi)(r, Z, p[0], p[1]); default: return LG(libgrpp_coulomb_potential_fermi_bubble)(r, Z, p[0], p[1], p[2]); } }
static double rcode(const Nuc &n, double r) { double Z = hs::in(n.Z); auto p = hs::inv(n.p); switch (n.model) { case N_BALL: return LG(libgrpp_charge_density_ball)(r, Z, p[0]); case N_GAUSS: return LG(libgrpp_charge_density_gaussian)(r, Z, p[0]); case N_FERMI: return LG(libgrpp_charge_density_fermi)(r, Z, p[0], p[1]); default: return LG(libgrpp_charge_density_fermi_bubble)(r, Z, p[0], p[1], p[2]); } }
// keep the models of the solver in a range where double precision resolves the exponentials
static void range(const Nuc &n, S r) { hs::assume_between(r, R(1, 8), R(16)); hs::assume_between(n.Z, R(1, 2), R(120)); for (size_t i = 0; i < n.p.size(); i++) hs::assume_between(n.p[i], i == 1 ? R(1, 4) : R(1, 4), i == 1 ? R(2) : R(8)); }
static void values(int m) { Nuc n = mk(m); S r = hs::var("r", true); range(n, r); if (n.kinked()) hs::assume(r - n.split(), 5); double v = vcode(n, hs::in(r)); bool in = n.kinked() && hs::less(r, n.split()); hs::eq("potential", v, n.V(r, in)); if (m != N_POINT) { double d = rcode(n, hs::in(r)); hs::eq("4 pi density", d, n.rho(r, in) / (R(4) * hs::pi())); } }
// the oracle itself: Poisson, behaviour at the origin, continuity, neutrality
static void model(int m) { Nuc n = mk(m); S r = hs::var("r", true); range(n, r); if (!hs::symbolic) return; hs::validate = false;
    for (int in = 0; in <= (n.kinked() ? 1 : 0); in++) { S f = r * n.V(r, in); S d2(sym::diff(sym::diff(f.v, r.v), r.v)); hs::eq("poisson" + to_string(in), d2.v, n.rho(r, in) * r); }
    int rk = sym::nodes[sym::handle_id(r.v)].k; auto at = [&](S f, S x) { std::unordered_map<int, double> mm; mm[rk] = x.v; return S(sym::subst(f.v, mm)); };
    bool in0 = n.kinked(); hs::eq("rV at the origin", at(simp(r * n.V(r, in0)), S(0)).v, S(0));
    if (in0) { S c = n.split(), fi = r * n.V(r, true), fo = r * n.V(r, false); hs::eq("continuous", at(fi, c).v, at(fo, c)); hs::eq("smooth", at(S(sym::diff(fi.v, r.v)), c).v, at(S(sym::diff(fo.v, r.v)), c)); }
}
static S rms2(const Nuc &n) { S c = n.p[0], a = n.p[1]; return (fermi_mom(4, c, a) + n.k() / (c * c) * fermi_mom(6, c, a)) / n.norm(); }
static void rms(int m, int Z) { Nuc n = mk(m); S r = hs::var("r", true); range(n, r); auto p = hs::inv(n.p); double v = m == N_FERMI ? LG(libgrpp_rms_radius_fermi)(Z, p[0], p[1]) : LG(libgrpp_rms_radius_fermi_bubble)(Z, p[0], p[1], p[2]); if (hs::symbolic) hs::eq("rms^2", __sym_fmul(v, v), rms2(n)); else hs::eq("rms^2", v * v, rms2(n)); }
// moments: d I_k / dc = k I_{k-1}, I_0 = c - a S_1(-c/a), value at c = 0
static void moments() { S c = hs::var("c", true), a = hs::var("a", true); if (!hs::symbolic) return; hs::validate = false; hs::eq("I0", fermi_mom(0, c, a).v, c - a * SK(1, -(c / a))); hs::eq("I0'", sym::diff(fermi_mom(0, c, a).v, c.v), R(1) + SK(0, -(c / a)));
    for (int k = 1; k <= 6; k++) { hs::eq("I" + to_string(k), sym::diff(fermi_mom(k, c, a).v, c.v), R(k) * fermi_mom(k - 1, c, a)); }
    // int_0^inf r^k/(1+e^{r/a}) dr = k! a^{k+1} eta(k+1) = -k! a^{k+1} S_{k+1}(0)
    for (int k = 1; k <= 6; k++) hs::eq("I" + to_string(k) + "(0)", fermi_mom(k, S(0), a).v, -(Z(factz(k)) * ipow(a, k + 1) * SK(k + 1, S(0)))); }
static void estimate() { S Rr = hs::var("Rrms", true); hs::assume_between(Rr, R(1, 8), R(20)); double c = -7, a = -7; int st = LG(libgrpp_estimate_fermi_model_parameters)(hs::in(Rr), &c, &a); S av = R(23, 10) / (R(4) * S(__sym_log(3.0))), p2 = hs::pi() * hs::pi();
    hs::eq("a", a, av); S c2 = R(5, 3) * Rr * Rr - R(7, 3) * p2 * av * av; bool neg = hs::less(c2, S(0)); hs::expect(st == (neg ? -1 : 1), "status"); if (neg) return; if (hs::symbolic) hs::eq("c^2", __sym_fmul(c, c), c2); else hs::eq("c^2", c * c, c2);
    if (hs::symbolic) { sk_zero = 1; double v = LG(libgrpp_rms_radius_fermi)(80, c, a); sk_zero = 0; hs::eq("rms reproduced", __sym_fmul(v, v), Rr * Rr); } }
static void empirical(int A) { hs::rtol = 1e-12; if (hs::symbolic) sym::var("dummy"); double j = LG(libgrpp_estimate_nuclear_rms_radius_johnson_1985)(A), g = LG(libgrpp_estimate_nuclear_rms_radius_golovko_2008)(A); S t = pw(R(A), 1, 3); hs::eq("johnson", j, R(836, 1000) * t + R(57, 100)); hs::eq("golovko", g, R(77, 100) * t + R(98, 100)); }
static void declare() {
    hs::setup = [] { LG(libgrpp_init)(); }; const char *nm[] = {"point", "ball", "gaussian", "fermi", "bubble"};
    for (int m = N_POINT; m <= N_BUBBLE; m++) { hs::add(string("values_") + nm[m], [=] { values(m); }); hs::add(string("poisson_") + nm[m], [=] { if (m) model(m); }); }
    for (int m : {N_FERMI, N_BUBBLE}) for (int Z : {1, 7, 92}) hs::add(string("rms_") + nm[m] + to_string(Z), [=] { rms(m, Z); });
    hs::add("moments", moments); hs::add("estimate", estimate); for (int A0 = 0; A0 < 300; A0 += 30) hs::add("empirical_" + to_string(A0 + 1) + "_" + to_string(A0 + 30), [=] { for (int A = A0 + 1; A <= A0 + 30; A++) empirical(A); });
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
