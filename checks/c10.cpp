// C10: an integral belongs to its component labels, in whatever order shells list them
#include "oc.h"
#include "stubs.h"
#include "stubs_rsh.h"
#include "geo.h"
#include <map>
enum { OV, KIN, MOM, T1, NUC, T2, SO, OC, FULL, GOV, GT1, GT2, GSO, GOC, GFULL, NK };
static const char *nm[] = {"overlap", "kinetic", "momentum", "local", "nuclear", "semilocal", "spinorbit", "outercore", "full", "g_overlap", "g_local", "g_semilocal", "g_spinorbit", "g_outercore", "g_full"};
static vector<array<int, 3>> base(int L) { vector<array<int, 3>> l; for (int r = L; r >= 0; r--) for (int s = L - r; s >= 0; s--) l.push_back({r, s, L - r - s}); return l; }
static int emit(int L, int *out, int k) { auto l = base(L); int n = l.size(); for (int i = 0; i < n; i++) { int j = k == 0 ? n - 1 - i : (i % 2 ? i / 2 + (n + 1) / 2 : i / 2); for (int d = 0; d < 3; d++) out[3 * i + d] = l[j][d]; } return n; }
static int gen_rev(int L, int *o) { return emit(L, o, 0); }
static int gen_mix(int L, int *o) { return emit(L, o, 1); }
typedef int (*gen_t)(int, int *);
static void use(gen_t g) { if (g) LG(libgrpp_set_cartesian_generator)(g); else LG(libgrpp_set_default_parameters)(); }
static void run(int kind, int L, int la, int lb, int pat, int var, vector<int> pw) {
    t2_stub_angular = false; t2_order = std::max(L + std::max(la, lb) + 1, 1); hs::validate = false; Geo g = geo(pat, L + la * 3 + lb); Rnd rn(17 * la + lb + L);
    ShellSpec sA{la, g.A, {hs::var("ca")}, {rn.pos()}}, sB{lb, g.B, {hs::var("cb")}, {rn.pos()}}; int id = 0; bool second = false;
    auto Cv = hs::inv(vs(g.C)); auto Pv = hs::inv(vs(var == 1 ? g.B : var == 2 ? g.C : g.A));
    struct Pot { int l; vector<S> c, a; }; vector<Pot> pots; auto pot = [&](int l, int j) { vector<S> c, a; for (size_t k = 0; k < pw.size(); k++) { c.push_back(hs::var("d" + to_string(id) + "_" + to_string(k))); a.push_back(rn.pos()); } id++; return hs::potential(l, j, pw, c, a); };
    bool oc = kind == OC || kind == FULL || kind == GOC || kind == GFULL, full = kind == FULL || kind == GFULL;
    libgrpp_potential_t *p = oc ? nullptr : pot(L, 0), *pl = pot(0, 0), *pso = pot(1, 0); vector<libgrpp_potential_t *> op; vector<S> occ, oca; if (oc) for (int k = 0; k < 2; k++) { op.push_back(pot(L, 2 * L + 1)); occ.push_back(hs::var("oc" + to_string(k))); oca.push_back(rn.pos()); }
    // labels -> value
    typedef std::map<vector<int>, double> Res;
    auto once = [&](gen_t ga, gen_t gb, gen_t go, gen_t now) {
        use(ga); auto *sa = sA.make(); use(gb); auto *sb = sB.make(); vector<libgrpp_shell_t *> os; for (size_t k = 0; k < op.size(); k++) { use(k == 1 && second && var >= 3 ? gen_mix : go); os.push_back(hs::shell({g.C[0], g.C[1], g.C[2]}, L, {occ[k]}, {oca[k]})); } use(now);
        auto *ca = LG(libgrpp_shell_deep_copy)(sa); int na = ca->cart_size, nb = sb->cart_size, nn = na * nb; vector<vector<double>> M(12, vector<double>(nn, 1.5)); double *m[12]; for (int i = 0; i < 12; i++) m[i] = M[i].data();
        auto *G = LG(libgrpp_new_grpp)(); if (full) { LG(libgrpp_grpp_set_local_potential)(G, pl); LG(libgrpp_grpp_add_averaged_potential)(G, pso); LG(libgrpp_grpp_add_spin_orbit_potential)(G, pso); for (size_t k = 0; k < op.size(); k++) LG(libgrpp_grpp_add_outercore_potential)(G, op[k], os[k]); }
        double *C = Cv.data(), *P = Pv.data(); auto *x = ca, *y = sb;
        switch (kind) { case OV: LG(libgrpp_overlap_integrals)(x, y, m[0]); break; case KIN: LG(libgrpp_kinetic_energy_integrals)(x, y, m[0]); break; case MOM: LG(libgrpp_momentum_integrals)(x, y, m[0], m[1], m[2]); break;
            case T1: LG(libgrpp_type1_integrals)(x, y, C, p, m[0]); break; case NUC: LG(libgrpp_nuclear_attraction_integrals_point_charge)(x, y, C, 3 + L, m[0]); break; case T2: LG(libgrpp_type2_integrals)(x, y, C, p, m[0]); break; case SO: LG(libgrpp_spin_orbit_integrals)(x, y, C, p, m[0], m[1], m[2]); break;
            case OC: LG(libgrpp_outercore_potential_integrals)(x, y, C, (int) op.size(), op.data(), os.data(), m[0], m[1], m[2], m[3]); break; case FULL: LG(libgrpp_full_grpp_integrals)(x, y, G, C, m[0], m[1], m[2], m[3]); break;
            case GOV: LG(libgrpp_overlap_integrals_gradient)(x, y, P, m); break; case GT1: LG(libgrpp_type1_integrals_gradient)(x, y, C, p, P, m); break; case GT2: LG(libgrpp_type2_integrals_gradient)(x, y, C, p, P, m); break; case GSO: LG(libgrpp_spin_orbit_integrals_gradient)(x, y, C, p, P, m, m + 3, m + 6); break;
            case GOC: LG(libgrpp_outercore_potential_integrals_gradient)(x, y, C, (int) op.size(), op.data(), os.data(), P, m, m + 3, m + 6, m + 9); break; case GFULL: LG(libgrpp_full_grpp_integrals_gradient)(x, y, G, C, P, m, m + 3, m + 6, m + 9); break; }
        Res r; auto bl = base(la), bb = base(lb); vector<int> la_(3 * na), lb_(3 * nb); if (ga) ga(la, la_.data()); if (gb) gb(lb, lb_.data());
        for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { vector<int> k; for (int d = 0; d < 3; d++) k.push_back(ga ? la_[3 * i + d] : bl[i][d]); for (int d = 0; d < 3; d++) k.push_back(gb ? lb_[3 * j + d] : bb[j][d]);
            for (int d = 0; d < 3; d++) hs::expect(ca->cart_list[3 * i + d] == k[d] && sa->cart_list[3 * i + d] == k[d] && sb->cart_list[3 * j + d] == k[3 + d], "shells and copies keep their components"); for (int t = 0; t < 12; t++) { auto kk = k; kk.push_back(t); r[kk] = M[t][i * nb + j]; } }
        LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb); LG(libgrpp_delete_shell)(ca); use(nullptr); return r; };
    Res a = once(nullptr, nullptr, nullptr, nullptr); second = true; Res b = var == 0 ? once(gen_rev, gen_rev, gen_rev, gen_rev) : var == 1 ? once(gen_mix, nullptr, gen_mix, nullptr) : var == 2 ? once(nullptr, gen_rev, nullptr, gen_mix) : var == 3 ? once(gen_mix, gen_rev, gen_rev, gen_rev) : once(nullptr, nullptr, nullptr, nullptr);
    for (auto &e : a) { string t; for (int v : e.first) t += to_string(v) + ","; hs::eqd(t, e.second, b[e.first]); }
}
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 16; hs::setup = [] { LG(libgrpp_init)(); snap_rad_norms(); };
    for (int k = 0; k < NK; k++) for (int la = 0; la <= 4; la++) for (int lb = 0; lb <= 4; lb++) for (int L = 0; L <= 2; L++) for (int var = 0; var < 5; var++) { if (var == 4 && k != OC && k != FULL && k != GOC && k != GFULL) continue;
        bool grad = k >= GOV; int s = la + lb + L; if (la + lb == 0 && !grad) continue; if (k <= MOM || k == GOV || k == T1 || k == NUC || k == GT1) { if (L) continue; }
        int cap = k <= MOM ? 6 : k <= NUC ? 5 : k < FULL ? 4 : k == FULL ? 3 : k == GOV ? 4 : k == GT1 ? 3 : k <= GSO ? 3 : 2; cap += th ? 2 : 1; if (s > cap) continue; if (!th && (la * 5 + lb * 3 + L + var + k) % 2) continue;
        hs::add(string(nm[k]) + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb) + "_v" + to_string(var), [=] { run(k, L, la, lb, 10, var, {(la + lb) % 3}); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
