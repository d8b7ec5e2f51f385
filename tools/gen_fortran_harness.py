# generates checks/bmc/fortran.c
A='''double *, int *, int *, double *, double *'''
sh = "oA, &LA_, &nA_, cA, eA, oB, &LB_, &nB_, cB, eB"
out = r'''/* Fortran entry points (C16): the C routines are stand-ins that check what they are given and write known results */
#include "nd.h"
#include "libgrpp.h"
#ifndef LA
#define LA 1
#define LB 2
#endif
#ifndef NA
#define NA 2
#define NB 1
#define NP 2
#define NP2 1
#define NS 2
#define NS2 1
#endif
#define SZ(L) (((L) + 1) * ((L) + 2) / 2)
#define MS (SZ(LA) * SZ(LB))
#define X(n) ((n) ? (n) : 1)
/* caller's data and reference copies */
typedef struct { double o[3]; int L, n; double c[4], e[4]; } sh_t;
typedef struct { int L, J, n; int p[4]; double c[4], e[4]; } po_t;
static sh_t A, B, S1, S2, A0, B0, S10, S20; static po_t P, Q, P0, Q0;
static double C[3], C0[3], D[3], D0[3]; static int charge, model, charge0, model0; static double mp[3], mp0[3];
static double M[9][MS + 1], V[9][MS]; static int calls, which;
static int k_;
static void real3(double *x) { for (int i = 0; i < 3; i++) x[i] = in_real(k_++); }
static void mksh(sh_t *s, int L, int n) { s->L = L; s->n = n; real3(s->o); for (int i = 0; i < n; i++) { s->c[i] = in_real(k_++); s->e[i] = in_real(k_++); } }
static void mkpo(po_t *p, int n) { p->L = in_range(k_++, 0, 10); p->J = in_range(k_++, 0, 21); p->n = n; for (int i = 0; i < n; i++) { p->c[i] = in_real(k_++); ASSUME(p->c[i] > 1e-13 || p->c[i] < -1e-13); p->e[i] = in_real(k_++); p->p[i] = in_range(k_ + 60, 0, 4); } }
static void inputs(void)
{
    k_ = 0; calls = 0;
    mksh(&A, LA, NA); mksh(&B, LB, NB); mksh(&S1, 0, NS); mksh(&S2, 0, NS2); mkpo(&P, NP); mkpo(&Q, NP2);
#ifdef ZTERM
    P.c[ZTERM] = 0;
#endif
    S1.L = P.L = LS1; S2.L = Q.L = LS2;
    real3(C); real3(D); real3(mp); charge = in_range(k_ + 1, -200, 200); model = in_range(k_ + 2, 0, 5);
    for (int m = 0; m < 9; m++) for (int i = 0; i <= MS; i++) M[m][i] = 1000 + m;
    for (int m = 0; m < 9; m++) { double v = in_real(k_++); for (int i = 0; i < MS; i++) V[m][i] = i == 0 ? v : 7 * m + i; }
    A0 = A; B0 = B; S10 = S1; S20 = S2; P0 = P; Q0 = Q; for (int i = 0; i < 3; i++) C0[i] = C[i], D0[i] = D[i], mp0[i] = mp[i]; charge0 = charge; model0 = model;
}
static int same3(const double *a, const double *b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static int samesh(const sh_t *a, const sh_t *b) { int r = a->L == b->L && a->n == b->n && same3(a->o, b->o); for (int i = 0; i < 4; i++) r = r && a->c[i] == b->c[i] && a->e[i] == b->e[i]; return r; }
static int samepo(const po_t *a, const po_t *b) { int r = a->L == b->L && a->J == b->J && a->n == b->n; for (int i = 0; i < 4; i++) r = r && a->c[i] == b->c[i] && a->e[i] == b->e[i] && a->p[i] == b->p[i]; return r; }
/* after the call: one call of the expected routine, results passed on, inputs untouched */
static void done(int w, int nm)
{
    CHECK(calls == 1 && which == w, "the C routine of the same meaning is called once");
    for (int m = 0; m < 9; m++) { for (int i = 0; i < MS; i++) CHECK(M[m][i] == (m < nm ? V[m][i] : 1000 + m), "results are returned unchanged"); CHECK(M[m][MS] == 1000 + m, "nothing beyond the matrix"); }
    CHECK(samesh(&A, &A0) && samesh(&B, &B0) && samesh(&S1, &S10) && samesh(&S2, &S20) && samepo(&P, &P0) && samepo(&Q, &Q0), "inputs untouched");
    CHECK(same3(C, C0) && same3(D, D0) && same3(mp, mp0) && charge == charge0 && model == model0, "inputs untouched");
    REACHED();
}
static int ok_list(libgrpp_shell_t *s) { int c = 0; for (int r = s->L; r >= 0; r--) for (int t = s->L - r; t >= 0; t--) { if (s->cart_list[3 * c] != r || s->cart_list[3 * c + 1] != t || s->cart_list[3 * c + 2] != s->L - r - t) return 0; c++; } return 1; }
static void is_shell(libgrpp_shell_t *s, const sh_t *x, const double *o)
{
    CHECK(s->L == x->L && s->cart_size == SZ(x->L) && ok_list(s), "angular momentum and components");
    CHECK(same3(s->origin, o), "centre"); CHECK(s->num_primitives == x->n, "number of primitives");
    for (int i = 0; i < x->n; i++) CHECK(s->coeffs[i] == x->c[i] && s->alpha[i] == x->e[i], "contraction");
}
static void is_pair(libgrpp_shell_t *a, libgrpp_shell_t *b) { is_shell(a, &A0, A0.o); is_shell(b, &B0, B0.o); }
static void is_pot(libgrpp_potential_t *p, const po_t *x, int L, int J)
{
    if (L) CHECK(p->L == x->L, "L of the potential"); if (J) CHECK(p->J == x->J, "J of the potential");
    int n = 0; for (int i = 0; i < x->n; i++) { if (x->c[i] == 0) continue; CHECK(n < p->num_primitives && p->powers[n] == x->p[i] && p->coeffs[n] == x->c[i] && p->alpha[n] == x->e[i], "terms of the potential"); n++; }
    CHECK(p->num_primitives == n, "number of terms");
}
static void give(int m, double *out) { for (int i = 0; i < MS; i++) out[i] = V[m][i]; }
static void is_point(const double *p, const double *q) { CHECK(same3(p, q), "point"); }
'''
stubs = []
cases = []
cid = [0]
def case(name, proto, call, w, nm, pre="", post=None):
    cases.append(f"void {name}();\nvoid case_{name}(void)\n{{\n    inputs(); {pre}\n    {name}({call});\n    {post or f'done({w}, {nm});'}\n}}\n")
SH = "A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e"
def mats(n): return ", ".join(f"M[{i}]" for i in range(n))
def stub(cname, params, checks, w, gives):
    stubs.append(f"void {cname}({params})\n{{\n    calls++; which = {w}; {checks} {' '.join(gives)}\n}}\n")
shp = "libgrpp_shell_t *a, libgrpp_shell_t *b"
stub("libgrpp_type1_integrals", shp + ", double *o, libgrpp_potential_t *p, double *m", "is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 0, 0);", 1, ["give(0, m);"])
case("libgrpp_type1_integrals_", "", f"{SH}, C, &P.n, P.p, P.c, P.e, {mats(1)}", 1, 1)
stub("libgrpp_type2_integrals", shp + ", double *o, libgrpp_potential_t *p, double *m", "is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 0);", 2, ["give(0, m);"])
case("libgrpp_type2_integrals_", "", f"{SH}, C, &P.L, &P.n, P.p, P.c, P.e, {mats(1)}", 2, 1)
stub("libgrpp_spin_orbit_integrals", shp + ", double *o, libgrpp_potential_t *p, double *x, double *y, double *z", "is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 0);", 3, ["give(0, x);", "give(1, y);", "give(2, z);"])
case("libgrpp_spin_orbit_integrals_", "", f"{SH}, C, &P.L, &P.n, P.p, P.c, P.e, {mats(3)}", 3, 3)
four = ["give(0, m);", "give(1, x);", "give(2, y);", "give(3, z);"]
stub("libgrpp_outercore_potential_integrals_part_1", shp + ", double *o, libgrpp_potential_t *p, libgrpp_shell_t *s, double *m, double *x, double *y, double *z", "is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 1); is_shell(s, &S10, C0);", 4, four)
case("libgrpp_outercore_potential_integrals_part_1_", "", f"{SH}, C, &P.L, &P.J, &P.n, P.p, P.c, P.e, &S1.n, S1.c, S1.e, {mats(4)}", 4, 4)
stub("libgrpp_outercore_potential_integrals_part_2", shp + ", double *o, libgrpp_potential_t *p, libgrpp_shell_t *s, libgrpp_potential_t *q, libgrpp_shell_t *t, double *m, double *x, double *y, double *z", "is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 1); is_shell(s, &S10, C0); is_pot(q, &Q0, 1, 1); is_shell(t, &S20, C0);", 5, four)
case("libgrpp_outercore_potential_integrals_part_2_", "", f"{SH}, C, &P.L, &P.J, &P.n, P.p, P.c, P.e, &S1.n, S1.c, S1.e, &Q.L, &Q.J, &Q.n, Q.p, Q.c, Q.e, &S2.n, S2.c, S2.e, {mats(4)}", 5, 4)
g3 = ["give(0, g[0]);", "give(1, g[1]);", "give(2, g[2]);"]
stub("libgrpp_type1_integrals_gradient", shp + ", double *o, libgrpp_potential_t *p, double *d, double **g", "is_pair(a, b); is_point(o, C0); is_point(d, D0); is_pot(p, &P0, 0, 0);", 6, g3)
case("libgrpp_type1_integrals_gradient_", "", f"{SH}, C, &P.n, P.p, P.c, P.e, D, {mats(3)}", 6, 3)
stub("libgrpp_type2_integrals_gradient", shp + ", double *o, libgrpp_potential_t *p, double *d, double **g", "is_pair(a, b); is_point(o, C0); is_point(d, D0); is_pot(p, &P0, 1, 0);", 7, g3)
case("libgrpp_type2_integrals_gradient_", "", f"{SH}, C, &P.L, &P.n, P.p, P.c, P.e, D, {mats(3)}", 7, 3)
stub("libgrpp_spin_orbit_integrals_gradient", shp + ", double *o, libgrpp_potential_t *p, double *d, double **g, double **h, double **f", "is_pair(a, b); is_point(o, C0); is_point(d, D0); is_pot(p, &P0, 1, 0);", 8, g3 + ["give(3, h[0]); give(4, h[1]); give(5, h[2]); give(6, f[0]); give(7, f[1]); give(8, f[2]);"])
case("libgrpp_spin_orbit_integrals_gradient_", "", f"{SH}, C, &P.L, &P.n, P.p, P.c, P.e, D, {mats(9)}", 8, 9)
# overlap is also used by the evaluation of one element
stubs.append('''static int element;
static double code_of(const int *a, const int *b) { return 1 + a[0] + 16 * a[1] + 256 * a[2] + 4096.0 * b[0] + 65536.0 * b[1] + 1048576.0 * b[2]; }
void libgrpp_overlap_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *m)
{
    calls++; which = 9;
    if (!element) { is_pair(a, b); give(0, m); return; }
    CHECK(a->L == A0.L && b->L == B0.L && same3(a->origin, A0.o) && same3(b->origin, B0.o) && a->num_primitives == A0.n && b->num_primitives == B0.n, "shells");
    for (int i = 0; i < A0.n; i++) CHECK(a->coeffs[i] == A0.c[i] && a->alpha[i] == A0.e[i], "contraction of A");
    for (int i = 0; i < B0.n; i++) CHECK(b->coeffs[i] == B0.c[i] && b->alpha[i] == B0.e[i], "contraction of B");
    for (int i = 0; i < a->cart_size; i++) for (int j = 0; j < b->cart_size; j++) m[i * b->cart_size + j] = code_of(a->cart_list + 3 * i, b->cart_list + 3 * j);
}
''')
case("libgrpp_overlap_integrals_", "", f"{SH}, {mats(1)}", 9, 1)
cases.append('''#ifndef IA\n#define IA 0\n#define IB 0\n#endif\nvoid evaluate_overlap_integral_contracted_();
void case_element(void)
{
    inputs(); element = 1;
    int a[3], b[3]; double v[2] = {-1, 5};
    int n = 0; for (int r = LA; r >= 0; r--) for (int t = LA - r; t >= 0; t--) { if (n++ == IA) { a[0] = r; a[1] = t; a[2] = LA - r - t; } }
    n = 0; for (int r = LB; r >= 0; r--) for (int t = LB - r; t >= 0; t--) { if (n++ == IB) { b[0] = r; b[1] = t; b[2] = LB - r - t; } }
    int a0[3] = {a[0], a[1], a[2]}, b0[3] = {b[0], b[1], b[2]};
    evaluate_overlap_integral_contracted_(A.o, a, a + 1, a + 2, &A.n, A.c, A.e, B.o, b, b + 1, b + 2, &B.n, B.c, B.e, v);
    CHECK(v[0] == code_of(a0, b0) && v[1] == 5, "the element asked for");
    for (int i = 0; i < 3; i++) CHECK(a[i] == a0[i] && b[i] == b0[i], "exponents untouched");
    done(9, 0);
}
''')
stub("libgrpp_kinetic_energy_integrals", shp + ", double *m", "is_pair(a, b);", 10, ["give(0, m);"])
case("libgrpp_kinetic_energy_integrals_", "", f"{SH}, {mats(1)}", 10, 1)
stub("libgrpp_momentum_integrals", shp + ", double *x, double *y, double *z", "is_pair(a, b);", 11, ["give(0, x);", "give(1, y);", "give(2, z);"])
case("libgrpp_momentum_integrals_", "", f"{SH}, {mats(3)}", 11, 3)
stub("libgrpp_nuclear_attraction_integrals", shp + ", double *o, int q, int mod, double *par, double *m", 'is_pair(a, b); is_point(o, C0); CHECK(q == charge0 && mod == model0, "charge and model"); CHECK(same3(par, mp0), "parameters of the model");', 12, ["give(0, m);"])
case("libgrpp_nuclear_attraction_integrals_", "", f"{SH}, C, &charge, &model, mp, {mats(1)}", 12, 1)
w = 13
for nm, k in (("point_charge", 0), ("charged_ball", 1), ("gaussian_model", 1), ("fermi_model", 2), ("fermi_bubble_model", 3)):
    c = f"libgrpp_nuclear_attraction_integrals_{nm}"
    stub(c, shp + ", double *o, int q, " + "".join(f"double p{i}, " for i in range(k)) + "double *m", 'is_pair(a, b); is_point(o, C0); CHECK(q == charge0, "charge"); ' + "".join(f'CHECK(p{i} == mp0[{i}], "parameter {i + 1}"); ' for i in range(k)), w, ["give(0, m);"])
    case(c + "_", "", f"{SH}, C, &charge, " + "".join(f"mp + {i}, " for i in range(k)) + mats(1), w, 1)
    w += 1
# scalar functions of the nuclear models
sc = []
def scalar(cname, ints, nd):
    global w
    ps = [f"int q"] * ints + [f"double p{i}" for i in range(nd)]
    stubs.append(f"double {cname}({', '.join(ps)})\n{{\n    calls++; which = {w}; " + ('CHECK(q == charge0, "integer argument"); ' if ints else "") + "".join(f'CHECK(p{i} == ({["r0_", "z0_", "mp0[0]", "mp0[1]", "mp0[2]"][i] if not ints else f"mp0[{i}]"}), "argument {i + 1}"); ' for i in range(nd)) + " return V[0][0];\n}\n")
    args = (["&charge"] if ints else []) + [(["&r_", "&z_", "mp", "mp + 1", "mp + 2"][i] if not ints else f"mp + {i}") for i in range(nd)]
    cases.append(f"void {cname}_();\nvoid case_{cname}_(void)\n{{\n    inputs(); scalars(); double v[2] = {{-1, 5}};\n    {cname}_({', '.join(args)}, v);\n    CHECK(v[0] == V[0][0] && v[1] == 5, \"the value is returned\"); CHECK(r_ == r0_ && z_ == z0_, \"inputs untouched\");\n    done({w}, 0);\n}}\n")
    w += 1
stubs.append("static double r_, z_, r0_, z0_;\nstatic void scalars(void) { r_ = r0_ = in_real(k_++); z_ = z0_ = in_real(k_++); }\n")
scalar("libgrpp_estimate_nuclear_rms_radius_johnson_1985", 1, 0)
scalar("libgrpp_estimate_nuclear_rms_radius_golovko_2008", 1, 0)
for n, k in (("ball", 3), ("gaussian", 3), ("fermi", 4), ("fermi_bubble", 5)): scalar("libgrpp_charge_density_" + n, 0, k)
for n, k in (("point", 2), ("ball", 3), ("gaussian", 3), ("fermi", 4), ("fermi_bubble", 5)): scalar("libgrpp_coulomb_potential_" + n, 0, k)
scalar("libgrpp_rms_radius_fermi", 1, 2)
scalar("libgrpp_rms_radius_fermi_bubble", 1, 3)
stubs.append(f'int libgrpp_estimate_fermi_model_parameters(double R, double *c, double *a)\n{{\n    calls++; which = {w}; CHECK(R == r0_, "radius"); *c = V[0][0]; *a = V[1][0]; return charge0;\n}}\n')
cases.append(f'void libgrpp_estimate_fermi_model_parameters_();\nvoid case_estimate(void)\n{{\n    inputs(); scalars(); double c[2] = {{-1, 5}}, a[2] = {{-1, 5}}; int e = 77;\n    libgrpp_estimate_fermi_model_parameters_(&r_, c, a, &e);\n    CHECK(c[0] == V[0][0] && a[0] == V[1][0] && e == charge0 && c[1] == 5 && a[1] == 5, "the parameters and the status are returned"); CHECK(r_ == r0_, "inputs untouched");\n    done({w}, 0);\n}}\n')
w += 1
# parameters and state
stubs.append(f"void libgrpp_init() {{ calls++; which = {w}; }}\nvoid libgrpp_finalize() {{ calls++; which = {w + 1}; }}\n")
cases.append(f"void libgrpp_init_(); void libgrpp_finalize_();\nvoid case_init(void) {{ inputs(); libgrpp_init_(); done({w}, 0); }}\nvoid case_finalize(void) {{ inputs(); libgrpp_finalize_(); done({w + 1}, 0); }}\n")
cases.append('''void libgrpp_set_default_parameters_(); void libgrpp_set_radial_tolerance_(); void libgrpp_set_angular_screening_tolerance_(); void libgrpp_set_modified_bessel_tolerance_(); void libgrpp_set_cartesian_order_();
static int custom(int L, int *l) { int n = (L + 1) * (L + 2) / 2, c = n; calls++; for (int r = L; r >= 0; r--) for (int s = L - r; s >= 0; s--) { c--; l[3 * c] = r; l[3 * c + 1] = s; l[3 * c + 2] = L - r - s; } return n; }
void case_parameters(void)
{
    double rt = 1e-16, at = 1e-16, bt = 1e-16; int cu = 0;
    for (int t = 0; t < 4; t++) {
        int op = in_range(t, 0, 5); double v = in_real(t), v0 = v;
        if (op == 0) { libgrpp_set_radial_tolerance_(&v); rt = v0; }
        else if (op == 1) { libgrpp_set_angular_screening_tolerance_(&v); at = v0; }
        else if (op == 2) { libgrpp_set_modified_bessel_tolerance_(&v); bt = v0; }
        else if (op == 3) { libgrpp_set_default_parameters_(); rt = at = bt = 1e-16; cu = 0; }
        else if (op == 4) { int o = t & 1 ? LIBGRPP_CART_ORDER_DIRAC : LIBGRPP_CART_ORDER_TURBOMOLE; libgrpp_set_cartesian_order_(&o); cu = 0; }
        else { libgrpp_set_cartesian_generator(custom); cu = 1; }
        CHECK(v == v0, "argument untouched");
        CHECK(libgrpp_params.radial_tolerance == rt && libgrpp_params.angular_screening_tolerance == at && libgrpp_params.modified_bessel_tolerance == bt, "the parameter named is set");
    }
    calls = 0; int *l = libgrpp_generate_shell_cartesians(1); CHECK(calls == cu, "order of components"); free(l);
    REACHED();
}
''')
open('/verif/checks/bmc/fortran.c', 'w').write(out.replace("S1.L = P.L = LS1; S2.L = Q.L = LS2;", "P.L = S1.L = 2; Q.L = S2.L = 1;") + "\n".join(stubs) + "\n" + "\n".join(cases))
import re
names = re.findall(r"^void (case_\w+)\(void\)", "\n".join(cases), re.M)
print(len(names), names)
