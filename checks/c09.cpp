// C09: exchange of bra and ket
#include "oc.h"
#include "stubs.h"
#include "stubs_rsh.h"
#include "geo.h"
enum { OV, KIN, MOM, T1, NUC, T2, SO, OC, FULL, NBALL };
static void run(int kind, int L, int la, int lb, int pat, int np, bool ratexp, vector<int> pw, int stride = 1, bool stubang = false) {
    t2_stub_angular = stubang; t2_order = std::max(L + std::max(la, lb), 1); Geo g = geo(pat, L + la * 3 + lb); Rnd rn(17 * la + lb + L); ShellSpec sA{la, g.A, {}, {}}, sB{lb, g.B, {}, {}};
    auto ex = [&](const string &n) { return ratexp ? rn.pos() : hs::var(n, true); };
    int npb = np + (ratexp && !stubang);
    for (int i = 0; i < npb; i++) { string t = to_string(i); if (i >= np) { sB.c.push_back(hs::var("cb" + t)); sB.a.push_back(ex("b" + t)); continue; } sA.c.push_back(hs::var("ca" + t)); sA.a.push_back(ex("a" + t)); sB.c.push_back(hs::var("cb" + t)); sB.a.push_back(ex("b" + t)); }
    auto *sa = sA.make(), *sb = sB.make(); int na = sa->cart_size, nb = sb->cart_size, nn = na * nb; auto Cv = hs::inv(vs(g.C)); int id = 0;
    auto pot = [&](int l, int j) { vector<S> c, a; vector<int> pw2(pw); if (id % 2 == 1) pw2.push_back(pw[0] == 2 ? 1 : 2); for (size_t k = 0; k < pw2.size(); k++) { c.push_back(hs::var("d" + to_string(id) + "_" + to_string(k))); a.push_back(ex("z" + to_string(id) + "_" + to_string(k))); } id++; return hs::potential(l, j, pw2, c, a); };
    vector<libgrpp_potential_t *> op; vector<libgrpp_shell_t *> os; libgrpp_potential_t *p = nullptr; auto *G = LG(libgrpp_new_grpp)();
    if (kind == T1 || kind == T2 || kind == SO) p = pot(L, 0);
    if (kind == OC || kind == FULL) for (int k = 0; k < 2; k++) { op.push_back(pot(L, 2 * L + 1)); vector<S> oc_c, oc_a; for (int q = 0; q < (ratexp && !stubang ? 1 + k : 1); q++) { oc_c.push_back(hs::var("oc" + to_string(k) + to_string(q))); oc_a.push_back(rn.pos()); } os.push_back(hs::shell({R(1), R(2), R(3)}, L, oc_c, oc_a)); }
    if (kind == FULL) { LG(libgrpp_grpp_set_local_potential)(G, pot(L + 1, 0)); LG(libgrpp_grpp_add_averaged_potential)(G, pot(L, 0)); LG(libgrpp_grpp_add_spin_orbit_potential)(G, pot(1, 0)); for (int k = 0; k < 2; k++) LG(libgrpp_grpp_add_outercore_potential)(G, op[k], os[k]); }
    auto call = [&](libgrpp_shell_t *x, libgrpp_shell_t *y, vector<vector<double>> &M) { M.assign(4, vector<double>(nn, 1.5)); double *m[4] = {M[0].data(), M[1].data(), M[2].data(), M[3].data()};
        switch (kind) { case OV: LG(libgrpp_overlap_integrals)(x, y, m[0]); break; case KIN: LG(libgrpp_kinetic_energy_integrals)(x, y, m[0]); break; case MOM: LG(libgrpp_momentum_integrals)(x, y, m[1], m[2], m[3]); break;
            case T1: LG(libgrpp_type1_integrals)(x, y, Cv.data(), p, m[0]); break; case NUC: LG(libgrpp_nuclear_attraction_integrals_point_charge)(x, y, Cv.data(), 3 + L, m[0]); break; case T2: LG(libgrpp_type2_integrals)(x, y, Cv.data(), p, m[0]); break; case SO: LG(libgrpp_spin_orbit_integrals)(x, y, Cv.data(), p, m[1], m[2], m[3]); break;
            case OC: LG(libgrpp_outercore_potential_integrals)(x, y, Cv.data(), (int) op.size(), op.data(), os.data(), m[0], m[1], m[2], m[3]); break; case FULL: LG(libgrpp_full_grpp_integrals)(x, y, G, Cv.data(), m[0], m[1], m[2], m[3]); break; } };
    vector<vector<double>> P, Q; call(sa, sb, P); call(sb, sa, Q);
    bool sc = kind != MOM && kind != SO, so = kind == MOM || kind == SO || kind == OC || kind == FULL;
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { if ((i * nb + j) % stride) continue; string t = "[" + to_string(i) + "," + to_string(j) + "]"; if (sc) hs::eqd("scalar" + t, P[0][i * nb + j], Q[0][j * na + i]); if (so) for (int k = 1; k < 4; k++) hs::eqd(string("vector") + "?xyz"[k] + t, P[k][i * nb + j], hs::symbolic ? (-S(Q[k][j * na + i])).v : -Q[k][j * na + i]); }
}
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 14; hs::setup = [] { LG(libgrpp_init)(); snap_rad_norms(); }; const char *nm[] = {"overlap", "kinetic", "momentum", "local", "nuclear", "semilocal", "spinorbit", "outercore", "full"};
    for (int kind = 0; kind <= FULL; kind++) for (int L = 0; L <= (kind <= NUC ? 0 : th ? 3 : 2); L++) for (int la = 0; la <= 3; la++) for (int lb = 0; lb <= 3; lb++) for (int pat : {0, 1, 2, 3, 7, 8}) {
        int s = L + la + lb; if (la > lb || (kind <= MOM && (pat == 1 || pat == 2))) continue; int cap = kind <= MOM ? (pat >= 7 ? 5 : kind == OV ? 6 : 4) : kind <= NUC ? 4 : kind == FULL ? 2 : 3; if (th) cap++; if (pat >= 7) cap++; if (s > cap) continue; if (!th && s > 1 && kind > MOM && (s + pat + kind) % 2) continue;
        hs::add(string(nm[kind]) + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat), [=] { run(kind, L, la, lb, pat, pat >= 7 ? 2 : 1, pat >= 7, pat >= 7 ? vector<int>{2, 1, 0} : vector<int>{(s + pat) % 3}); }); }
    int hl[][3] = {{0, 10, 0}, {0, 5, 4}, {0, 7, 2}, {0, 10, 10}, {4, 2, 1}, {6, 1, 2}, {2, 4, 2}, {1, 6, 1}, {3, 3, 3}, {5, 0, 2}, {9, 1, 0}}; int q = 0;
    for (int kind = 0; kind < FULL; kind++) for (auto &h : hl) { q++; int L = h[0], la = h[1], lb = h[2], nn = ncart(la) * ncart(lb); if (kind <= NUC && L) continue; if (!th && la + lb > (kind <= MOM ? 12 : kind <= NUC ? 9 : kind == OC ? 7 : 6)) continue; hs::add(string("hi") + nm[kind] + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb), [=] { run(kind, L, la, lb, 10, 1, true, {q % 3}, std::max(1, nn / 24), true); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
