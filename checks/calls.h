#pragma once
// every integral and gradient routine on one set of objects
#include "oc.h"
#include "stubs.h"
#include "stubs_rsh.h"
#include "geo.h"
#include "nuc.h"
// radial tables of the local-type radial layer: r is symbolic, the model of the nucleus is evaluated by the real code
struct T1Table { int lm, nm; double u; };
extern "C" {
void *__stub_tabulate_radial_type1_integrals(int lm, int nm, double, double, double, double, double, double, double (*pot)(double, void *), void *pp) { return new T1Table{lm, nm, pot(t2_r().v, pp)}; }
double __stub_get_radial_type1_integral(void *p, int l, int n) { auto *t = (T1Table *) p; if (l < 0 || n < 0 || l > t->lm || n > t->nm) throw PathAbort{"radial table index out of range"}; return sym::opaque((S(t->u) * S(1 + l + 100 * n)).v, true); }
void __stub_delete_radial_type1_integrals(void *p) { delete (T1Table *) p; }
}
enum { OV, KIN, MOM, T1, N0, N1, N2, N3, N4, N5, T2, SO, OC, FULL, GOV, GT1, GT2, GSO, GOC, GFULL, NK };
static bool check_outputs = false; static int reduced = 0;       // reduced: shells with L >= 4 list only some of their components
static int gen_some(int L, int *o) { vector<array<int, 3>> l; if (L < 4) for (int r = L; r >= 0; r--) for (int q = L - r; q >= 0; q--) l.push_back({r, q, L - r - q}); else { l = {{L, 0, 0}, {0, 0, L}}; if (reduced > 1) { l.push_back({0, L, 0}); l.push_back({L - 2 * (L / 3), L / 3, L / 3}); } } for (size_t i = 0; i < l.size(); i++) for (int d = 0; d < 3; d++) o[3 * i + d] = l[i][d]; return l.size(); }

static const char *nm[] = {"overlap", "kinetic", "momentum", "local", "point", "ball", "gaussian", "fermi", "bubble", "pointnum", "semilocal", "spinorbit", "outercore", "full", "g_overlap", "g_local", "g_semilocal", "g_spinorbit", "g_outercore", "g_full"};
template <class T> static T *heap(const vector<T> &v) { T *p = (T *) malloc(sizeof(T) * (v.size() + 1)); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return p; }
// np primitives in A (exponents one symbol, two rationals), nc in B; real: the radial code itself is executed
static void run(int kind, int L, int la, int lb, int pat, int np, vector<int> pw, bool real, bool dup) {
    t2_stub_angular = false; t2_order = std::max(L + std::max(la, lb) + 1, 1); if (hs::symbolic) sym::exact_mode = !real; Geo g = geo(pat, L + la * 3 + lb); Rnd rn(17 * la + lb + L + 5 * kind); int id = 0; S scale = real ? hs::var("scale", true) : S(1); if (real) hs::assume_between(scale, R(1, 2), R(2));
    auto exps = [&](int n) { vector<S> a; for (int i = 0; i < n; i++) a.push_back(rn.pos()); return a; }; auto cs = [&](const string &s, int n) { vector<S> c; for (int i = 0; i < n; i++) c.push_back(real ? (kind <= N5 || kind == GOV || kind == GT1) && s == "ca" ? rn.any() * scale : rn.any() : hs::var(s + to_string(i))); return c; };
    ShellSpec sA{la, g.A, cs("ca", np), exps(np)}, sB{lb, g.B, cs("cb", 1), exps(1)};
    double *C = heap(hs::inv(vs(g.C))), *P = heap(hs::inv(vs(np > 1 ? g.B : pw.size() > 1 ? g.C : g.A)));
    auto pot = [&](int l, int j) { vector<S> c, a; for (size_t k = 0; k < pw.size(); k++) { c.push_back(real ? kind < T2 || kind == GOV || kind == GT1 ? rn.any() : rn.any() * scale : hs::var("d" + to_string(id) + "_" + to_string(k))); a.push_back(rn.pos()); } id++; return hs::potential(l, j, pw, c, a); };
    bool oc = kind == OC || kind == FULL || kind == GOC || kind == GFULL, full = kind == FULL || kind == GFULL;
    if (reduced) LG(libgrpp_set_cartesian_generator)(gen_some); auto *x = sA.make(), *y = dup ? x : sB.make(); if (reduced) LG(libgrpp_set_default_parameters)(); libgrpp_potential_t *p = pot(L, 0), *pl = pot(0, 0), *pso = pot(std::max(L, 1), 0); vector<libgrpp_potential_t *> op; vector<libgrpp_shell_t *> os;
    if (oc) for (int k = 0; k < 2; k++) { op.push_back(pot(L, 2 * L + 1)); os.push_back(hs::shell({g.C[0], g.C[1], g.C[2]}, L, {real ? rn.any() : hs::var("oc" + to_string(k))}, {rn.pos()})); }
    auto *G = LG(libgrpp_new_grpp)(); if (full) { LG(libgrpp_grpp_set_local_potential)(G, pl); LG(libgrpp_grpp_add_averaged_potential)(G, p); LG(libgrpp_grpp_add_spin_orbit_potential)(G, pso); for (size_t k = 0; k < op.size(); k++) LG(libgrpp_grpp_add_outercore_potential)(G, op[k], os[k]); }
    auto **OPa = heap(op); auto **OSa = heap(os); int nn = x->cart_size * y->cart_size; double **m = heap(vector<double *>(12)); for (int i = 0; i < 12; i++) m[i] = heap(vector<double>(nn, 1.5)); double *np_ = heap(hs::inv({R(7, 8), R(1, 4), R(1, 5)}));
    hs::frame_begin(); auto outs = [&](int k) { for (int i = 0; i < k; i++) hs::frame_output(m[i], nn * sizeof(double)); };
    switch (kind) { case OV: outs(1); LG(libgrpp_overlap_integrals)(x, y, m[0]); break; case KIN: outs(1); LG(libgrpp_kinetic_energy_integrals)(x, y, m[0]); break; case MOM: outs(3); LG(libgrpp_momentum_integrals)(x, y, m[0], m[1], m[2]); break;
        case T1: outs(1); LG(libgrpp_type1_integrals)(x, y, C, p, m[0]); break; case N0: case N1: case N2: case N3: case N4: case N5: outs(1); LG(libgrpp_nuclear_attraction_integrals)(x, y, C, 3 + L, kind - N0, np_, m[0]); break;
        case T2: outs(1); LG(libgrpp_type2_integrals)(x, y, C, p, m[0]); break; case SO: outs(3); LG(libgrpp_spin_orbit_integrals)(x, y, C, pso, m[0], m[1], m[2]); break;
        case OC: outs(4); LG(libgrpp_outercore_potential_integrals)(x, y, C, (int) op.size(), OPa, OSa, m[0], m[1], m[2], m[3]); break; case FULL: outs(4); LG(libgrpp_full_grpp_integrals)(x, y, G, C, m[0], m[1], m[2], m[3]); break;
        case GOV: outs(3); LG(libgrpp_overlap_integrals_gradient)(x, y, P, m); break; case GT1: outs(3); LG(libgrpp_type1_integrals_gradient)(x, y, C, p, P, m); break; case GT2: outs(3); LG(libgrpp_type2_integrals_gradient)(x, y, C, p, P, m); break;
        case GSO: outs(9); LG(libgrpp_spin_orbit_integrals_gradient)(x, y, C, pso, P, m, m + 3, m + 6); break; case GOC: outs(12); LG(libgrpp_outercore_potential_integrals_gradient)(x, y, C, (int) op.size(), OPa, OSa, P, m, m + 3, m + 6, m + 9); break;
        case GFULL: outs(12); LG(libgrpp_full_grpp_integrals_gradient)(x, y, G, C, P, m, m + 3, m + 6, m + 9); break; }
    hs::frame_end(); int no = 0; switch (kind) { case MOM: case SO: case GOV: case GT1: case GT2: no = 3; break; case GSO: no = 9; break; case OC: case FULL: no = 4; break; case GOC: case GFULL: no = 12; break; default: no = 1; }
    if (check_outputs) for (int i = 0; i < no; i++) for (int j = 0; j < nn; j++) hs::expect(sym::is_handle(m[i][j]) || std::isfinite(m[i][j]), "every element of the result is a number");
    for (int i = 0; i < 12; i++) free(m[i]); free(m); free(C); free(P); free(np_); free(OPa); free(OSa); LG(libgrpp_delete_shell)(x); if (y != x) LG(libgrpp_delete_shell)(y); LG(libgrpp_delete_grpp)(G); if (!full) { LG(libgrpp_delete_potential)(p); LG(libgrpp_delete_potential)(pl); LG(libgrpp_delete_potential)(pso); for (auto *q : op) LG(libgrpp_delete_potential)(q); for (auto *q : os) LG(libgrpp_delete_shell)(q); }
}
