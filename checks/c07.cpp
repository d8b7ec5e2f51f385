// C07: the full GRPP integrals are the sum of the parts
#include "ufs.h"
#include "rsh.h"
#include "stubs.h"
#include "stubs_rsh.h"
static bool u_on = true;
extern "C" {
void libgrpp_type1_integrals(libgrpp_shell_t *, libgrpp_shell_t *, double *, libgrpp_potential_t *, double *);
static void ufill(const string &what, libgrpp_shell_t *a, libgrpp_shell_t *b, double *c, const string &op, double *m) { string k = what + kshell(a) + kshell(b) + k3(c) + op; for (int i = 0; i < a->cart_size; i++) for (int j = 0; j < b->cart_size; j++) m[i * b->cart_size + j] = uf(k + kcart(a, i) + kcart(b, j)).v; }
void __stub_libgrpp_type1_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *c, libgrpp_potential_t *p, double *m) { if (!p) { memset(m, 0, sizeof(double) * a->cart_size * b->cart_size); return; } ufill("t1", a, b, c, kpot(p), m); }
void __stub_libgrpp_type2_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *c, libgrpp_potential_t *p, double *m) { ufill("t2", a, b, c, kpot(p), m); }
void __stub_libgrpp_spin_orbit_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *c, libgrpp_potential_t *p, double *x, double *y, double *z) { ufill("sx", a, b, c, kpot(p), x); ufill("sy", a, b, c, kpot(p), y); ufill("sz", a, b, c, kpot(p), z); }
void __stub_libgrpp_outercore_potential_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *c, int n, libgrpp_potential_t **p, libgrpp_shell_t **s, double *m, double *x, double *y, double *z) {
    string k; for (int i = 0; i < n; i++) k += kpot(p[i]) + kshell(s[i], false); double *o[4] = {m, x, y, z}; const char *nm[4] = {"o0", "ox", "oy", "oz"};
    for (int i = 0; i < 4; i++) if (n) ufill(nm[i], a, b, c, k, o[i]); else memset(o[i], 0, sizeof(double) * a->cart_size * b->cart_size); }
}
struct Parts { bool local; vector<int> arep, esop; vector<std::pair<int, int>> oc; int nt = 2; };
static void run(int la, int lb, int pat, Parts pt, int np, bool raw) {
    hs::validate = la + lb <= 3;
    Geo g = geo(pat, 5 * la + lb + pt.arep.size()); Rnd rn(3 * la + 7 * lb + pt.oc.size()); ShellSpec sA{la, g.A, {}, {}}, sB{lb, g.B, {}, {}};
    for (int i = 0; i < np; i++) { string t = to_string(i); sA.c.push_back(hs::var("ca" + t)); sA.a.push_back(hs::var("a" + t, true)); sB.c.push_back(hs::var("cb" + t)); sB.a.push_back(hs::var("b" + t, true)); }
    auto *sa = sA.make(), *sb = sB.make(); int na = sa->cart_size, nb = sb->cart_size; auto Cv = hs::inv(vs(g.C)); auto *G = LG(libgrpp_new_grpp)();
    vector<libgrpp_potential_t *> ar, es, op; vector<libgrpp_shell_t *> os; int id = 0;
    auto pot = [&](int L, int J) { vector<int> n; vector<S> c, a; for (int k = 0; k < pt.nt; k++) { string t = to_string(id) + "_" + to_string(k); n.push_back((k + id + 2) % 3); c.push_back(hs::var("d" + t)); a.push_back(rn.pos()); } id++; return hs::potential(L, J, n, c, a); };
    libgrpp_potential_t *loc = nullptr; if (pt.local) { loc = pot(pt.arep.size(), 0); LG(libgrpp_grpp_set_local_potential)(G, loc); }
    for (int L : pt.arep) { ar.push_back(pot(L, 0)); LG(libgrpp_grpp_add_averaged_potential)(G, ar.back()); }
    for (int L : pt.esop) { es.push_back(pot(L, 0)); LG(libgrpp_grpp_add_spin_orbit_potential)(G, es.back()); }
    for (auto &x : pt.oc) { op.push_back(pot(x.first, x.second)); os.push_back(hs::shell({R(1, 3), R(-1), R(2)}, x.first, {hs::var("oc" + to_string(id))}, {rn.pos()})); LG(libgrpp_grpp_add_outercore_potential)(G, op.back(), os.back()); }
    vector<vector<double>> M(4, vector<double>(na * nb, 3.5)), b(4, vector<double>(na * nb)); vector<vector<S>> E(4, vector<S>(na * nb, S(0)));
    auto call = [&] { LG(libgrpp_full_grpp_integrals)(sa, sb, G, Cv.data(), M[0].data(), M[1].data(), M[2].data(), M[3].data()); };
    call(); if (raw) call();                        // twice: outputs are overwritten, not accumulated
    auto add = [&](int k, S w) { for (int i = 0; i < na * nb; i++) E[k][i] += w * S(b[k][i]); };
    bool u = hs::symbolic;
    if (loc) { (u ? __stub_libgrpp_type1_integrals : LG(libgrpp_type1_integrals))(sa, sb, Cv.data(), loc, b[0].data()); add(0, S(1)); }
    for (auto *p : ar) { (u ? __stub_libgrpp_type2_integrals : LG(libgrpp_type2_integrals))(sa, sb, Cv.data(), p, b[0].data()); add(0, S(1)); }
    for (auto *p : es) { (u ? __stub_libgrpp_spin_orbit_integrals : LG(libgrpp_spin_orbit_integrals))(sa, sb, Cv.data(), p, b[1].data(), b[2].data(), b[3].data()); for (int k = 1; k < 4; k++) add(k, R(2, 2 * p->L + 1)); }
    if (op.size()) { (u ? __stub_libgrpp_outercore_potential_integrals : LG(libgrpp_outercore_potential_integrals))(sa, sb, Cv.data(), (int) op.size(), op.data(), os.data(), b[0].data(), b[1].data(), b[2].data(), b[3].data()); for (int k = 0; k < 4; k++) add(k, S(1)); }
    for (int k = 0; k < 4; k++) for (int i = 0; i < na * nb; i++) hs::eq(string(k ? "so" : "arep") + (k ? string(1, "xyz"[k - 1]) : string()) + "[" + to_string(i) + "]", M[k][i], E[k][i]);
    LG(libgrpp_delete_grpp)(G); LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 11; hs::setup = [] { LG(libgrpp_init)(); };
    vector<std::pair<string, Parts>> ps = {
        {"empty", {false, {}, {}, {}}}, {"local", {true, {}, {}, {}}}, {"arep1", {false, {0}, {}, {}}}, {"arep2", {false, {2, 1}, {}, {}}}, {"so1", {false, {}, {1}, {}}}, {"so3", {false, {}, {3, 1, 2}, {}}}, {"so0", {false, {}, {0, 1}, {}}},
        {"oc1", {false, {}, {}, {{1, 3}}}}, {"oc3", {false, {}, {}, {{0, 1}, {1, 1}, {1, 3}}}}, {"localarep", {true, {0, 1, 2}, {}, {}}}, {"localso", {true, {}, {1, 2}, {}}}, {"arepso", {false, {0, 1}, {1}, {}}}, {"localoc", {true, {}, {}, {{0, 1}}}}, {"areposo", {false, {3}, {3}, {{3, 7}, {3, 5}}}},
        {"all", {true, {0, 1, 2}, {1, 2}, {{0, 1}, {1, 1}, {1, 3}}}}, {"big", {true, {0, 1, 2, 3, 4, 5}, {1, 2, 3, 4, 5}, {{0, 1}, {0, 1}, {1, 1}, {1, 3}, {2, 3}, {2, 5}}}}, {"dup", {true, {1, 1, 1}, {2, 2}, {{1, 3}, {1, 3}}}}, {"high", {true, {10, 9, 8}, {10, 9, 7}, {{8, 17}, {4, 9}}, 1}}, {"one", {true, {0}, {1}, {{1, 3}}, 3}}, {"unordered", {true, {4, 0, 2}, {3, 0, 1}, {{2, 5}, {0, 1}}}}, {"nosolocal", {false, {0, 1, 2}, {1, 2}, {{0, 1}, {2, 3}}}} };
    for (auto &p : ps) for (int la = 0; la <= 3; la++) for (int lb = 0; lb <= 3; lb++) for (int pat : {7, 1, 2, 3, 4}) { if ((la + lb + pat + (int) p.first.size()) % (th ? 1 : 4) && pat != 7) continue; if (pat == 7 && !th && la + lb > 4) continue;
        hs::add(p.first + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat), [=] { run(la, lb, pat, p.second, 1 + (la + lb + pat) % 2, (la + pat) % 2); }); }
    for (auto &p : ps) for (auto l : {std::make_pair(10, 0), std::make_pair(0, 10), std::make_pair(5, 6), std::make_pair(10, 10)}) { if (l.first + l.second > 11 && !th && p.first != "all") continue; hs::add("hi_" + p.first + "_" + to_string(l.first) + "_" + to_string(l.second), [=] { run(l.first, l.second, 0, p.second, 1, false); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
