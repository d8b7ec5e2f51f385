// C06: outercore (non-local) integrals
#include "oc.h"
#include "stubs.h"
#include "stubs_rsh.h"
#include "geo.h"
// kind of a projector: angular momentum, 2J, primitives of the shell, powers of the potential
struct OcKind { int L, J2, np; vector<int> pw; };
static void run(int la, int lb, int pat, vector<OcKind> ks, int np, bool ratexp, int zero = 0, int stride = 1, bool again = false) {
    Geo g = geo(pat, la * 3 + lb + 11 * ks.size()); Rnd rn(17 * la + lb + ks.size()); ShellSpec sA{la, g.A, {}, {}}, sB{lb, g.B, {}, {}};
    for (int i = 0; i < np; i++) { string t = to_string(i); sA.c.push_back(hs::var("ca" + t)); sA.a.push_back(ratexp ? rn.pos() : hs::var("a" + t, true)); sB.c.push_back(hs::var("cb" + t)); sB.a.push_back(ratexp ? rn.pos() : hs::var("b" + t, true)); }
    vector<OcSpec> oc; V3 other = {R(1, 3), R(-2), R(5, 7)};
    for (size_t i = 0; i < ks.size(); i++) { auto &k = ks[i]; OcSpec o; o.sh.L = k.L; o.sh.o = other; string t = to_string(i) + "_"; for (int j = 0; j < k.np; j++) { o.sh.c.push_back(hs::var("oc" + t + to_string(j))); o.sh.a.push_back(ratexp ? rn.pos() : hs::var("oa" + t + to_string(j), true)); }
        o.pot.L = k.L; o.pot.J = k.J2; for (size_t j = 0; j < k.pw.size(); j++) { o.pot.n.push_back(k.pw[j]); o.pot.c.push_back(zero & 1 && j == 1 ? S(0) : hs::var("od" + t + to_string(j))); o.pot.a.push_back(ratexp ? rn.pos() : hs::var("oz" + t + to_string(j), true)); } oc.push_back(o); }
    auto *sa = sA.make(), *sb = sB.make(); int na = sa->cart_size, nb = sb->cart_size; auto Cv = hs::inv(vs(g.C)); vector<libgrpp_shell_t *> os; vector<libgrpp_potential_t *> op; for (auto &o : oc) { os.push_back(o.sh.make()); op.push_back(o.pot.make()); }
    vector<vector<double>> M(4, vector<double>(na * nb, 5.0)); auto call = [&] { LG(libgrpp_outercore_potential_integrals)(sa, sb, Cv.data(), (int) oc.size(), op.data(), os.data(), M[0].data(), M[1].data(), M[2].data(), M[3].data()); };
    if (again) { vector<double> c2 = {1.25, -0.5, 2}; LG(libgrpp_outercore_potential_integrals)(sa, sb, c2.data(), (int) oc.size(), op.data(), os.data(), M[0].data(), M[1].data(), M[2].data(), M[3].data()); }
    call(); OcOracle O(sA, sB, g.C, oc);
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { if ((i * nb + j) % stride) continue; string t = "[" + to_string(i) + "," + to_string(j) + "]"; for (int k = -1; k < 3; k++) hs::eq((k < 0 ? string("arep") : string("so") + "xyz"[k]) + t, M[k + 1][i * nb + j], O.get(k, sa->cart_list + 3 * i, sb->cart_list + 3 * j)); }
    for (auto *p : op) LG(libgrpp_delete_potential)(p); for (auto *p : os) LG(libgrpp_delete_shell)(p); LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 14; hs::setup = [] { LG(libgrpp_init)(); snap_rad_norms(); };
    auto id = [](string t, int L, int J, int la, int lb, int pat) { return t + "_L" + to_string(L) + "_J" + to_string(J) + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat); };
    for (int L = 0; L <= (th ? 4 : 3); L++) for (int J : {2 * L - 1, 2 * L + 1}) { if (J < 0) continue;
        for (int la = 0; la <= 2; la++) for (int lb = 0; lb <= 2; lb++) { if (!th && L + la + lb > 4) continue;
            hs::add(id("sym", L, J, la, lb, 0), [=] { run(la, lb, 0, {{L, J, 1, {(L + la + J / 2) % 3}}}, 1, false); });
            for (int pat : {1, 2, 3, 4, 7, 8}) { if (!th && (pat + L + la + J / 2) % 2 && pat < 7) continue; hs::add(id("geo", L, J, la, lb, pat), [=] { run(la, lb, pat, {{L, J, 1, {(L + lb) % 3, (L + lb + 1) % 3}}}, 1, pat > 4); }); } }
        // several projectors of the same and of different (L,J); contracted; the same call repeated with another origin
        for (int la = 0; la <= 1; la++) for (int lb = 0; lb <= 1; lb++) { hs::add(id("pair", L, J, la, lb, 7), [=] { run(la, lb, 7, {{L, J, 2, {2, 1}}, {L, J, 1, {0}}}, 1, true, 0, 1, la); });
            hs::add(id("mixed", L, J, la, lb, 8), [=] { run(la, lb, 8, {{L, J, 1, {2}}, {L, J == 2 * L - 1 ? 2 * L + 1 : std::abs(2 * L - 1), 1, {1}}, {L ? L - 1 : 1, 2 * L + 1, 1, {0, 2}}, {L, J, 2, {0, 1}}}, 1, true, 1); });
            hs::add(id("contr", L, J, la, lb, 9), [=] { run(la, lb, 9, {{L, J, 3, {2, 0, 1}}, {L, J, 2, {1}}}, 3, true, 1); }); }
        hs::add(id("symcontr", L, J, 1, 0, 10), [=] { run(1, 0, 10, {{L, J, 2, {2, 1}}, {L, J, 2, {0}}}, 2, false); }); }
    for (int la = 0; la <= 2; la++) for (int lb = 0; lb <= 2; lb++) hs::add(id("none", 0, 0, la, lb, 0), [=] { run(la, lb, 0, {}, 1, false); });
    int hl[][3] = {{10, 0, 0}, {9, 1, 0}, {8, 0, 1}, {7, 1, 1}, {6, 2, 1}, {5, 2, 2}, {4, 3, 3}, {0, 10, 0}, {0, 0, 10}, {1, 8, 1}, {1, 2, 9}, {2, 5, 5}, {3, 3, 5}, {0, 7, 7}, {0, 4, 6}, {1, 4, 4}, {10, 1, 2}, {2, 10, 10}};
    int k = 0; for (auto &h : hl) { int L = h[0], la = h[1], lb = h[2], nn = ncart(la) * ncart(lb), st = std::max(1, nn / (th ? 150 : 12)); k++; if (!th && (L + la + lb > 14 || (L >= 10 && la + lb > 2))) continue; for (int J : {2 * L - 1, 2 * L + 1}) if (J > 0 && (th || (k + J / 2) % 2)) hs::add(id("high", L, J, la, lb, 10), [=] { run(la, lb, 10, {{L, J, 1, {k % 3}}, {L, J, 1, {(k + 1) % 3}}}, 1, true, 0, st); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
