/* Fortran entry points (C16): the C routines are stand-ins that check what they are given and write known results */
#include "nd.h"
#include "libgrpp.h"
#ifndef LA
#define LA 1
#define LB 2
#endif
#ifndef NA
#define NA 2
#define NB 1
#define NP 2
#define NP2 1
#define NS 2
#define NS2 1
#endif
#define SZ(L) (((L) + 1) * ((L) + 2) / 2)
#define MS (SZ(LA) * SZ(LB))
#define X(n) ((n) ? (n) : 1)
/* caller's data and reference copies */
typedef struct { double o[3]; int L, n; double c[4], e[4]; } sh_t;
typedef struct { int L, J, n; int p[4]; double c[4], e[4]; } po_t;
static sh_t A, B, S1, S2, A0, B0, S10, S20; static po_t P, Q, P0, Q0;
static double C[3], C0[3], D[3], D0[3]; static int charge, model, charge0, model0; static double mp[3], mp0[3];
static double M[9][MS + 1], V[9][MS]; static int calls, which;
static int k_;
static void real3(double *x) { for (int i = 0; i < 3; i++) x[i] = in_real(k_++); }
static void mksh(sh_t *s, int L, int n) { s->L = L; s->n = n; real3(s->o); for (int i = 0; i < n; i++) { s->c[i] = in_real(k_++); s->e[i] = in_real(k_++); } }
static void mkpo(po_t *p, int n) { p->L = in_range(k_++, 0, 10); p->J = in_range(k_++, 0, 21); p->n = n; for (int i = 0; i < n; i++) { p->c[i] = in_real(k_++); ASSUME(p->c[i] > 1e-13 || p->c[i] < -1e-13); p->e[i] = in_real(k_++); p->p[i] = in_range(k_ + 60, 0, 4); } }
static void inputs(void)
{
    k_ = 0; calls = 0;
    mksh(&A, LA, NA); mksh(&B, LB, NB); mksh(&S1, 0, NS); mksh(&S2, 0, NS2); mkpo(&P, NP); mkpo(&Q, NP2);
#ifdef ZTERM
    P.c[ZTERM] = 0;
#endif
    P.L = S1.L = 2; Q.L = S2.L = 1;
    real3(C); real3(D); real3(mp); charge = in_range(k_ + 1, -200, 200); model = in_range(k_ + 2, 0, 5);
    for (int m = 0; m < 9; m++) for (int i = 0; i <= MS; i++) M[m][i] = 1000 + m;
    for (int m = 0; m < 9; m++) { double v = in_real(k_++); for (int i = 0; i < MS; i++) V[m][i] = i == 0 ? v : 7 * m + i; }
    A0 = A; B0 = B; S10 = S1; S20 = S2; P0 = P; Q0 = Q; for (int i = 0; i < 3; i++) C0[i] = C[i], D0[i] = D[i], mp0[i] = mp[i]; charge0 = charge; model0 = model;
}
static int same3(const double *a, const double *b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static int samesh(const sh_t *a, const sh_t *b) { int r = a->L == b->L && a->n == b->n && same3(a->o, b->o); for (int i = 0; i < 4; i++) r = r && a->c[i] == b->c[i] && a->e[i] == b->e[i]; return r; }
static int samepo(const po_t *a, const po_t *b) { int r = a->L == b->L && a->J == b->J && a->n == b->n; for (int i = 0; i < 4; i++) r = r && a->c[i] == b->c[i] && a->e[i] == b->e[i] && a->p[i] == b->p[i]; return r; }
/* after the call: one call of the expected routine, results passed on, inputs untouched */
static void done(int w, int nm)
{
    CHECK(calls == 1 && which == w, "the C routine of the same meaning is called once");
    for (int m = 0; m < 9; m++) { for (int i = 0; i < MS; i++) CHECK(M[m][i] == (m < nm ? V[m][i] : 1000 + m), "results are returned unchanged"); CHECK(M[m][MS] == 1000 + m, "nothing beyond the matrix"); }
    CHECK(samesh(&A, &A0) && samesh(&B, &B0) && samesh(&S1, &S10) && samesh(&S2, &S20) && samepo(&P, &P0) && samepo(&Q, &Q0), "inputs untouched");
    CHECK(same3(C, C0) && same3(D, D0) && same3(mp, mp0) && charge == charge0 && model == model0, "inputs untouched");
    REACHED();
}
static int ok_list(libgrpp_shell_t *s) { int c = 0; for (int r = s->L; r >= 0; r--) for (int t = s->L - r; t >= 0; t--) { if (s->cart_list[3 * c] != r || s->cart_list[3 * c + 1] != t || s->cart_list[3 * c + 2] != s->L - r - t) return 0; c++; } return 1; }
static void is_shell(libgrpp_shell_t *s, const sh_t *x, const double *o)
{
    CHECK(s->L == x->L && s->cart_size == SZ(x->L) && ok_list(s), "angular momentum and components");
    CHECK(same3(s->origin, o), "centre"); CHECK(s->num_primitives == x->n, "number of primitives");
    for (int i = 0; i < x->n; i++) CHECK(s->coeffs[i] == x->c[i] && s->alpha[i] == x->e[i], "contraction");
}
static void is_pair(libgrpp_shell_t *a, libgrpp_shell_t *b) { is_shell(a, &A0, A0.o); is_shell(b, &B0, B0.o); }
static void is_pot(libgrpp_potential_t *p, const po_t *x, int L, int J)
{
    if (L) CHECK(p->L == x->L, "L of the potential"); if (J) CHECK(p->J == x->J, "J of the potential");
    int n = 0; for (int i = 0; i < x->n; i++) { if (x->c[i] == 0) continue; CHECK(n < p->num_primitives && p->powers[n] == x->p[i] && p->coeffs[n] == x->c[i] && p->alpha[n] == x->e[i], "terms of the potential"); n++; }
    CHECK(p->num_primitives == n, "number of terms");
}
static void give(int m, double *out) { for (int i = 0; i < MS; i++) out[i] = V[m][i]; }
static void is_point(const double *p, const double *q) { CHECK(same3(p, q), "point"); }
void libgrpp_type1_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, double *m)
{
    calls++; which = 1; is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 0, 0); give(0, m);
}

void libgrpp_type2_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, double *m)
{
    calls++; which = 2; is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 0); give(0, m);
}

void libgrpp_spin_orbit_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, double *x, double *y, double *z)
{
    calls++; which = 3; is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 0); give(0, x); give(1, y); give(2, z);
}

void libgrpp_outercore_potential_integrals_part_1(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, libgrpp_shell_t *s, double *m, double *x, double *y, double *z)
{
    calls++; which = 4; is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 1); is_shell(s, &S10, C0); give(0, m); give(1, x); give(2, y); give(3, z);
}

void libgrpp_outercore_potential_integrals_part_2(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, libgrpp_shell_t *s, libgrpp_potential_t *q, libgrpp_shell_t *t, double *m, double *x, double *y, double *z)
{
    calls++; which = 5; is_pair(a, b); is_point(o, C0); is_pot(p, &P0, 1, 1); is_shell(s, &S10, C0); is_pot(q, &Q0, 1, 1); is_shell(t, &S20, C0); give(0, m); give(1, x); give(2, y); give(3, z);
}

void libgrpp_type1_integrals_gradient(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, double *d, double **g)
{
    calls++; which = 6; is_pair(a, b); is_point(o, C0); is_point(d, D0); is_pot(p, &P0, 0, 0); give(0, g[0]); give(1, g[1]); give(2, g[2]);
}

void libgrpp_type2_integrals_gradient(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, double *d, double **g)
{
    calls++; which = 7; is_pair(a, b); is_point(o, C0); is_point(d, D0); is_pot(p, &P0, 1, 0); give(0, g[0]); give(1, g[1]); give(2, g[2]);
}

void libgrpp_spin_orbit_integrals_gradient(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, libgrpp_potential_t *p, double *d, double **g, double **h, double **f)
{
    calls++; which = 8; is_pair(a, b); is_point(o, C0); is_point(d, D0); is_pot(p, &P0, 1, 0); give(0, g[0]); give(1, g[1]); give(2, g[2]); give(3, h[0]); give(4, h[1]); give(5, h[2]); give(6, f[0]); give(7, f[1]); give(8, f[2]);
}

static int element;
static double code_of(const int *a, const int *b) { return 1 + a[0] + 16 * a[1] + 256 * a[2] + 4096.0 * b[0] + 65536.0 * b[1] + 1048576.0 * b[2]; }
void libgrpp_overlap_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *m)
{
    calls++; which = 9;
    if (!element) { is_pair(a, b); give(0, m); return; }
    CHECK(a->L == A0.L && b->L == B0.L && same3(a->origin, A0.o) && same3(b->origin, B0.o) && a->num_primitives == A0.n && b->num_primitives == B0.n, "shells");
    for (int i = 0; i < A0.n; i++) CHECK(a->coeffs[i] == A0.c[i] && a->alpha[i] == A0.e[i], "contraction of A");
    for (int i = 0; i < B0.n; i++) CHECK(b->coeffs[i] == B0.c[i] && b->alpha[i] == B0.e[i], "contraction of B");
    for (int i = 0; i < a->cart_size; i++) for (int j = 0; j < b->cart_size; j++) m[i * b->cart_size + j] = code_of(a->cart_list + 3 * i, b->cart_list + 3 * j);
}

void libgrpp_kinetic_energy_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *m)
{
    calls++; which = 10; is_pair(a, b); give(0, m);
}

void libgrpp_momentum_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *x, double *y, double *z)
{
    calls++; which = 11; is_pair(a, b); give(0, x); give(1, y); give(2, z);
}

void libgrpp_nuclear_attraction_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, int q, int mod, double *par, double *m)
{
    calls++; which = 12; is_pair(a, b); is_point(o, C0); CHECK(q == charge0 && mod == model0, "charge and model"); CHECK(same3(par, mp0), "parameters of the model"); give(0, m);
}

void libgrpp_nuclear_attraction_integrals_point_charge(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, int q, double *m)
{
    calls++; which = 13; is_pair(a, b); is_point(o, C0); CHECK(q == charge0, "charge");  give(0, m);
}

void libgrpp_nuclear_attraction_integrals_charged_ball(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, int q, double p0, double *m)
{
    calls++; which = 14; is_pair(a, b); is_point(o, C0); CHECK(q == charge0, "charge"); CHECK(p0 == mp0[0], "parameter 1");  give(0, m);
}

void libgrpp_nuclear_attraction_integrals_gaussian_model(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, int q, double p0, double *m)
{
    calls++; which = 15; is_pair(a, b); is_point(o, C0); CHECK(q == charge0, "charge"); CHECK(p0 == mp0[0], "parameter 1");  give(0, m);
}

void libgrpp_nuclear_attraction_integrals_fermi_model(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, int q, double p0, double p1, double *m)
{
    calls++; which = 16; is_pair(a, b); is_point(o, C0); CHECK(q == charge0, "charge"); CHECK(p0 == mp0[0], "parameter 1"); CHECK(p1 == mp0[1], "parameter 2");  give(0, m);
}

void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(libgrpp_shell_t *a, libgrpp_shell_t *b, double *o, int q, double p0, double p1, double p2, double *m)
{
    calls++; which = 17; is_pair(a, b); is_point(o, C0); CHECK(q == charge0, "charge"); CHECK(p0 == mp0[0], "parameter 1"); CHECK(p1 == mp0[1], "parameter 2"); CHECK(p2 == mp0[2], "parameter 3");  give(0, m);
}

static double r_, z_, r0_, z0_;
static void scalars(void) { r_ = r0_ = in_real(k_++); z_ = z0_ = in_real(k_++); }

double libgrpp_estimate_nuclear_rms_radius_johnson_1985(int q)
{
    calls++; which = 18; CHECK(q == charge0, "integer argument");  return V[0][0];
}

double libgrpp_estimate_nuclear_rms_radius_golovko_2008(int q)
{
    calls++; which = 19; CHECK(q == charge0, "integer argument");  return V[0][0];
}

double libgrpp_charge_density_ball(double p0, double p1, double p2)
{
    calls++; which = 20; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3");  return V[0][0];
}

double libgrpp_charge_density_gaussian(double p0, double p1, double p2)
{
    calls++; which = 21; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3");  return V[0][0];
}

double libgrpp_charge_density_fermi(double p0, double p1, double p2, double p3)
{
    calls++; which = 22; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3"); CHECK(p3 == (mp0[1]), "argument 4");  return V[0][0];
}

double libgrpp_charge_density_fermi_bubble(double p0, double p1, double p2, double p3, double p4)
{
    calls++; which = 23; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3"); CHECK(p3 == (mp0[1]), "argument 4"); CHECK(p4 == (mp0[2]), "argument 5");  return V[0][0];
}

double libgrpp_coulomb_potential_point(double p0, double p1)
{
    calls++; which = 24; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2");  return V[0][0];
}

double libgrpp_coulomb_potential_ball(double p0, double p1, double p2)
{
    calls++; which = 25; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3");  return V[0][0];
}

double libgrpp_coulomb_potential_gaussian(double p0, double p1, double p2)
{
    calls++; which = 26; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3");  return V[0][0];
}

double libgrpp_coulomb_potential_fermi(double p0, double p1, double p2, double p3)
{
    calls++; which = 27; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3"); CHECK(p3 == (mp0[1]), "argument 4");  return V[0][0];
}

double libgrpp_coulomb_potential_fermi_bubble(double p0, double p1, double p2, double p3, double p4)
{
    calls++; which = 28; CHECK(p0 == (r0_), "argument 1"); CHECK(p1 == (z0_), "argument 2"); CHECK(p2 == (mp0[0]), "argument 3"); CHECK(p3 == (mp0[1]), "argument 4"); CHECK(p4 == (mp0[2]), "argument 5");  return V[0][0];
}

double libgrpp_rms_radius_fermi(int q, double p0, double p1)
{
    calls++; which = 29; CHECK(q == charge0, "integer argument"); CHECK(p0 == (mp0[0]), "argument 1"); CHECK(p1 == (mp0[1]), "argument 2");  return V[0][0];
}

double libgrpp_rms_radius_fermi_bubble(int q, double p0, double p1, double p2)
{
    calls++; which = 30; CHECK(q == charge0, "integer argument"); CHECK(p0 == (mp0[0]), "argument 1"); CHECK(p1 == (mp0[1]), "argument 2"); CHECK(p2 == (mp0[2]), "argument 3");  return V[0][0];
}

int libgrpp_estimate_fermi_model_parameters(double R, double *c, double *a)
{
    calls++; which = 31; CHECK(R == r0_, "radius"); *c = V[0][0]; *a = V[1][0]; return charge0;
}

void libgrpp_init() { calls++; which = 32; }
void libgrpp_finalize() { calls++; which = 33; }

void libgrpp_type1_integrals_();
void case_libgrpp_type1_integrals_(void)
{
    inputs(); 
    libgrpp_type1_integrals_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.n, P.p, P.c, P.e, M[0]);
    done(1, 1);
}

void libgrpp_type2_integrals_();
void case_libgrpp_type2_integrals_(void)
{
    inputs(); 
    libgrpp_type2_integrals_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.L, &P.n, P.p, P.c, P.e, M[0]);
    done(2, 1);
}

void libgrpp_spin_orbit_integrals_();
void case_libgrpp_spin_orbit_integrals_(void)
{
    inputs(); 
    libgrpp_spin_orbit_integrals_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.L, &P.n, P.p, P.c, P.e, M[0], M[1], M[2]);
    done(3, 3);
}

void libgrpp_outercore_potential_integrals_part_1_();
void case_libgrpp_outercore_potential_integrals_part_1_(void)
{
    inputs(); 
    libgrpp_outercore_potential_integrals_part_1_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.L, &P.J, &P.n, P.p, P.c, P.e, &S1.n, S1.c, S1.e, M[0], M[1], M[2], M[3]);
    done(4, 4);
}

void libgrpp_outercore_potential_integrals_part_2_();
void case_libgrpp_outercore_potential_integrals_part_2_(void)
{
    inputs(); 
    libgrpp_outercore_potential_integrals_part_2_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.L, &P.J, &P.n, P.p, P.c, P.e, &S1.n, S1.c, S1.e, &Q.L, &Q.J, &Q.n, Q.p, Q.c, Q.e, &S2.n, S2.c, S2.e, M[0], M[1], M[2], M[3]);
    done(5, 4);
}

void libgrpp_type1_integrals_gradient_();
void case_libgrpp_type1_integrals_gradient_(void)
{
    inputs(); 
    libgrpp_type1_integrals_gradient_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.n, P.p, P.c, P.e, D, M[0], M[1], M[2]);
    done(6, 3);
}

void libgrpp_type2_integrals_gradient_();
void case_libgrpp_type2_integrals_gradient_(void)
{
    inputs(); 
    libgrpp_type2_integrals_gradient_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.L, &P.n, P.p, P.c, P.e, D, M[0], M[1], M[2]);
    done(7, 3);
}

void libgrpp_spin_orbit_integrals_gradient_();
void case_libgrpp_spin_orbit_integrals_gradient_(void)
{
    inputs(); 
    libgrpp_spin_orbit_integrals_gradient_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &P.L, &P.n, P.p, P.c, P.e, D, M[0], M[1], M[2], M[3], M[4], M[5], M[6], M[7], M[8]);
    done(8, 9);
}

void libgrpp_overlap_integrals_();
void case_libgrpp_overlap_integrals_(void)
{
    inputs(); 
    libgrpp_overlap_integrals_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, M[0]);
    done(9, 1);
}

#ifndef IA
#define IA 0
#define IB 0
#endif
void evaluate_overlap_integral_contracted_();
void case_element(void)
{
    inputs(); element = 1;
    int a[3], b[3]; double v[2] = {-1, 5};
    int n = 0; for (int r = LA; r >= 0; r--) for (int t = LA - r; t >= 0; t--) { if (n++ == IA) { a[0] = r; a[1] = t; a[2] = LA - r - t; } }
    n = 0; for (int r = LB; r >= 0; r--) for (int t = LB - r; t >= 0; t--) { if (n++ == IB) { b[0] = r; b[1] = t; b[2] = LB - r - t; } }
    int a0[3] = {a[0], a[1], a[2]}, b0[3] = {b[0], b[1], b[2]};
    evaluate_overlap_integral_contracted_(A.o, a, a + 1, a + 2, &A.n, A.c, A.e, B.o, b, b + 1, b + 2, &B.n, B.c, B.e, v);
    CHECK(v[0] == code_of(a0, b0) && v[1] == 5, "the element asked for");
    for (int i = 0; i < 3; i++) CHECK(a[i] == a0[i] && b[i] == b0[i], "exponents untouched");
    done(9, 0);
}

void libgrpp_kinetic_energy_integrals_();
void case_libgrpp_kinetic_energy_integrals_(void)
{
    inputs(); 
    libgrpp_kinetic_energy_integrals_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, M[0]);
    done(10, 1);
}

void libgrpp_momentum_integrals_();
void case_libgrpp_momentum_integrals_(void)
{
    inputs(); 
    libgrpp_momentum_integrals_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, M[0], M[1], M[2]);
    done(11, 3);
}

void libgrpp_nuclear_attraction_integrals_();
void case_libgrpp_nuclear_attraction_integrals_(void)
{
    inputs(); 
    libgrpp_nuclear_attraction_integrals_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &charge, &model, mp, M[0]);
    done(12, 1);
}

void libgrpp_nuclear_attraction_integrals_point_charge_();
void case_libgrpp_nuclear_attraction_integrals_point_charge_(void)
{
    inputs(); 
    libgrpp_nuclear_attraction_integrals_point_charge_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &charge, M[0]);
    done(13, 1);
}

void libgrpp_nuclear_attraction_integrals_charged_ball_();
void case_libgrpp_nuclear_attraction_integrals_charged_ball_(void)
{
    inputs(); 
    libgrpp_nuclear_attraction_integrals_charged_ball_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &charge, mp + 0, M[0]);
    done(14, 1);
}

void libgrpp_nuclear_attraction_integrals_gaussian_model_();
void case_libgrpp_nuclear_attraction_integrals_gaussian_model_(void)
{
    inputs(); 
    libgrpp_nuclear_attraction_integrals_gaussian_model_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &charge, mp + 0, M[0]);
    done(15, 1);
}

void libgrpp_nuclear_attraction_integrals_fermi_model_();
void case_libgrpp_nuclear_attraction_integrals_fermi_model_(void)
{
    inputs(); 
    libgrpp_nuclear_attraction_integrals_fermi_model_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &charge, mp + 0, mp + 1, M[0]);
    done(16, 1);
}

void libgrpp_nuclear_attraction_integrals_fermi_bubble_model_();
void case_libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(void)
{
    inputs(); 
    libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(A.o, &A.L, &A.n, A.c, A.e, B.o, &B.L, &B.n, B.c, B.e, C, &charge, mp + 0, mp + 1, mp + 2, M[0]);
    done(17, 1);
}

void libgrpp_estimate_nuclear_rms_radius_johnson_1985_();
void case_libgrpp_estimate_nuclear_rms_radius_johnson_1985_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_estimate_nuclear_rms_radius_johnson_1985_(&charge, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(18, 0);
}

void libgrpp_estimate_nuclear_rms_radius_golovko_2008_();
void case_libgrpp_estimate_nuclear_rms_radius_golovko_2008_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_estimate_nuclear_rms_radius_golovko_2008_(&charge, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(19, 0);
}

void libgrpp_charge_density_ball_();
void case_libgrpp_charge_density_ball_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_charge_density_ball_(&r_, &z_, mp, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(20, 0);
}

void libgrpp_charge_density_gaussian_();
void case_libgrpp_charge_density_gaussian_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_charge_density_gaussian_(&r_, &z_, mp, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(21, 0);
}

void libgrpp_charge_density_fermi_();
void case_libgrpp_charge_density_fermi_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_charge_density_fermi_(&r_, &z_, mp, mp + 1, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(22, 0);
}

void libgrpp_charge_density_fermi_bubble_();
void case_libgrpp_charge_density_fermi_bubble_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_charge_density_fermi_bubble_(&r_, &z_, mp, mp + 1, mp + 2, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(23, 0);
}

void libgrpp_coulomb_potential_point_();
void case_libgrpp_coulomb_potential_point_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_coulomb_potential_point_(&r_, &z_, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(24, 0);
}

void libgrpp_coulomb_potential_ball_();
void case_libgrpp_coulomb_potential_ball_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_coulomb_potential_ball_(&r_, &z_, mp, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(25, 0);
}

void libgrpp_coulomb_potential_gaussian_();
void case_libgrpp_coulomb_potential_gaussian_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_coulomb_potential_gaussian_(&r_, &z_, mp, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(26, 0);
}

void libgrpp_coulomb_potential_fermi_();
void case_libgrpp_coulomb_potential_fermi_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_coulomb_potential_fermi_(&r_, &z_, mp, mp + 1, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(27, 0);
}

void libgrpp_coulomb_potential_fermi_bubble_();
void case_libgrpp_coulomb_potential_fermi_bubble_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_coulomb_potential_fermi_bubble_(&r_, &z_, mp, mp + 1, mp + 2, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(28, 0);
}

void libgrpp_rms_radius_fermi_();
void case_libgrpp_rms_radius_fermi_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_rms_radius_fermi_(&charge, mp + 0, mp + 1, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(29, 0);
}

void libgrpp_rms_radius_fermi_bubble_();
void case_libgrpp_rms_radius_fermi_bubble_(void)
{
    inputs(); scalars(); double v[2] = {-1, 5};
    libgrpp_rms_radius_fermi_bubble_(&charge, mp + 0, mp + 1, mp + 2, v);
    CHECK(v[0] == V[0][0] && v[1] == 5, "the value is returned"); CHECK(r_ == r0_ && z_ == z0_, "inputs untouched");
    done(30, 0);
}

void libgrpp_estimate_fermi_model_parameters_();
void case_estimate(void)
{
    inputs(); scalars(); double c[2] = {-1, 5}, a[2] = {-1, 5}; int e = 77;
    libgrpp_estimate_fermi_model_parameters_(&r_, c, a, &e);
    CHECK(c[0] == V[0][0] && a[0] == V[1][0] && e == charge0 && c[1] == 5 && a[1] == 5, "the parameters and the status are returned"); CHECK(r_ == r0_, "inputs untouched");
    done(31, 0);
}

void libgrpp_init_(); void libgrpp_finalize_();
void case_init(void) { inputs(); libgrpp_init_(); done(32, 0); }
void case_finalize(void) { inputs(); libgrpp_finalize_(); done(33, 0); }

void libgrpp_set_default_parameters_(); void libgrpp_set_radial_tolerance_(); void libgrpp_set_angular_screening_tolerance_(); void libgrpp_set_modified_bessel_tolerance_(); void libgrpp_set_cartesian_order_();
static int custom(int L, int *l) { int n = (L + 1) * (L + 2) / 2, c = n; calls++; for (int r = L; r >= 0; r--) for (int s = L - r; s >= 0; s--) { c--; l[3 * c] = r; l[3 * c + 1] = s; l[3 * c + 2] = L - r - s; } return n; }
void case_parameters(void)
{
    double rt = 1e-16, at = 1e-16, bt = 1e-16; int cu = 0;
    for (int t = 0; t < 4; t++) {
        int op = in_range(t, 0, 5); double v = in_real(t), v0 = v;
        if (op == 0) { libgrpp_set_radial_tolerance_(&v); rt = v0; }
        else if (op == 1) { libgrpp_set_angular_screening_tolerance_(&v); at = v0; }
        else if (op == 2) { libgrpp_set_modified_bessel_tolerance_(&v); bt = v0; }
        else if (op == 3) { libgrpp_set_default_parameters_(); rt = at = bt = 1e-16; cu = 0; }
        else if (op == 4) { int o = t & 1 ? LIBGRPP_CART_ORDER_DIRAC : LIBGRPP_CART_ORDER_TURBOMOLE; libgrpp_set_cartesian_order_(&o); cu = 0; }
        else { libgrpp_set_cartesian_generator(custom); cu = 1; }
        CHECK(v == v0, "argument untouched");
        CHECK(libgrpp_params.radial_tolerance == rt && libgrpp_params.angular_screening_tolerance == at && libgrpp_params.modified_bessel_tolerance == bt, "the parameter named is set");
    }
    calls = 0; int *l = libgrpp_generate_shell_cartesians(1); CHECK(calls == cu, "order of components"); free(l);
    REACHED();
}
