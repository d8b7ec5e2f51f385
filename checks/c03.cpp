// C03: local (type-1) potential and point-charge integrals
#include "closed.h"
#include "stubs.h"
extern "C" void __stub_create_real_spherical_harmonic_coeffs_tables(int) { }
// second, independent oracle (low L): every Cartesian Gaussian is a combination of derivatives of s functions with respect to
// its centre; the derivatives of the closed s-s integral are taken symbolically.
struct Deriv {
    std::function<S(S, int)> dA, dB; std::map<vector<int>, S> memo; S s0;
    S get(const vector<int> &t) {      // t[0..2] derivatives in A, t[3..5] in B
        auto it = memo.find(t); if (it != memo.end()) return it->second;
        for (int k = 0; k < 6; k++) if (t[k]) { auto u = t; u[k]--; S f = get(u); S r = k < 3 ? dA(f, k) : dB(f, k - 3); return memo[t] = r; }
        return memo[t] = simp(s0);
    }
};
static S cart_integral(Deriv &D, const int *ea, const int *eb, S a, S b) {
    vector<std::pair<S, vector<int>>> t{{S(1), {}}};
    for (int d = 0; d < 6; d++) { int n = d < 3 ? ea[d] : eb[d - 3]; vector<std::pair<S, vector<int>>> u; for (auto &x : t) for (int k = 0; 2 * k <= n; k++) { auto w = x.second; w.push_back(n - 2 * k); u.push_back({x.first * herm(n, k, d < 3 ? a : b), w}); } t = u; }
    S r(0); for (auto &x : t) r += x.first * D.get(x.second); return r;
}
static S s0_raw(int n, S a, S b, S c, const V3 &A, const V3 &B, const V3 &C) {
    S q = a + b + c; V3 Q = (R(1) / q) * (a * A + b * B + c * C), AB = A - B, AC = A - C, BC = B - C, QC = Q - C;
    S K = exp(-(a * b / q * dot(AB, AB) + a * c / q * dot(AC, AC) + b * c / q * dot(BC, BC))), T = simp(q * dot(QC, QC));
    if (n == 2) return K * pw(hs::pi() / q, 3, 2);
    if (n == 1) return K * R(2) * hs::pi() / q * S(sym::fun(F_BOYS, T.v, 0, 0));
    return K * R(2) * pw(hs::pi(), 3, 2) / sqrt(q) * S(sym::fun(F_GFUN, T.v, 0, 0));
}
static string nm(const string &t, int la, int lb, int n) { return t + "_n" + to_string(n) + "_" + to_string(la) + "_" + to_string(lb); }
// one primitive each, everything symbolic. n = 3: point charge. pattern bits 0-2: D component zero, 3-5: (fixed) rational P component, 6: x = 1/2; 7: w rational; 8: q rational
static void full(int n, int la, int lb, int pattern, int stride = 1, int off = 0) {
    int pn = n == 3 ? 1 : n; Rnd r(la * 31 + lb * 7 + n + pattern);
    S q = hs::var("q", true), x = hs::var("x", true), w = n == 3 ? S(1) : hs::var("w", true); 
    if (pattern & 64) x = R(1, 2); else if (pattern & 512) x = R(3, 8); else hs::assume_between(x, R(0), R(1));
    if (n != 3) { if (pattern & 128) w = R(5, 8); else hs::assume_between(w, R(0), R(1)); }
    if (pattern & 256) q = R(11, 8);
    V3 P = vec("P"), D = vec("D"), C = vec("C"); for (int d = 0; d < 3; d++) { if (pattern >> d & 1) D[d] = S(0); if (pattern >> (d + 3) & 1) { P[d] = r.any(); if (pattern & 1024) D[d] = r.any(); } }
    if (pattern & 2048) for (int d = 0; d < 3; d++) P[d] = (x - R(1)) * D[d];       // A = C
    if (pattern & 4096) for (int d = 0; d < 3; d++) P[d] = x * D[d];                // B = C
    if (pattern & 8192) for (int d = 0; d < 3; d++) P[d] = D[d] = S(0);             // A = B = C
    S ca = hs::var("ca"), cb = hs::var("cb"), dk = hs::var("dk");
    V3 A = C + P + (R(1) - x) * D, B = C + P - x * D; S a = q * w * x, b = q * w * (R(1) - x);
    ShellSpec sA{la, A, {ca}, {a}}, sB{lb, B, {cb}, {b}};
    auto *sa = sA.make(), *sb = sB.make(); int na = sa->cart_size, nb = sb->cart_size; vector<double> M(na * nb, 5.0); auto Cv = hs::inv(vs(C));
    int Zc = 1 + (la * 37 + lb * 11) % 118;
    if (n == 3) { LG(libgrpp_nuclear_attraction_integrals_point_charge)(sa, sb, Cv.data(), Zc, M.data()); }
    else { auto *pot = hs::potential(-1, 0, {n}, {dk}, {q * (R(1) - w)}); LG(libgrpp_type1_integrals)(sa, sb, Cv.data(), pot, M.data()); LG(libgrpp_delete_potential)(pot); }
    Closed T(pn, la + lb, q * w, q, P, (x - R(1)) * D, x * D, q * w * x * (R(1) - x) * dot(D, D));
    S f = (n == 3 ? R(-Zc) : dk) * ca * cb * norm_code(la, a) * norm_code(lb, b);
    for (int m = 0; m < na; m++) for (int k = 0; k < nb; k++) { if ((m * nb + k) % stride != off) continue;
        S o = T.get(sa->cart_list + 3 * m, sb->cart_list + 3 * k);
        hs::eq("U[" + to_string(m) + "," + to_string(k) + "]", M[m * nb + k], f * o); }
    LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}

// contracted shells and several potential terms, all parameters independent
static void contracted(int la, int lb, int na, int nb, vector<int> pows, bool symbolic_exp, bool zeros = false) {
    Rnd r(la * 31 + lb * 7 + na); V3 A = vec("A"), B = vec("B"), C = vec("C");
    if (!symbolic_exp) for (int d = 0; d < 3; d++) { A[d] = r.any(); B[d] = r.any(); C[d] = r.any(); }
    ShellSpec sA{la, A, {}, {}}, sB{lb, B, {}, {}}; vector<S> pc, pa;
    for (int i = 0; i < na; i++) { sA.c.push_back(zeros && i == 1 ? S(0) : hs::var("ca" + to_string(i))); sA.a.push_back(symbolic_exp ? hs::var("a" + to_string(i), true) : r.pos()); }
    for (int i = 0; i < nb; i++) { sB.c.push_back(hs::var("cb" + to_string(i))); sB.a.push_back(symbolic_exp ? hs::var("b" + to_string(i), true) : r.pos()); }
    for (size_t k = 0; k < pows.size(); k++) { pc.push_back(hs::var("d" + to_string(k))); pa.push_back(symbolic_exp ? hs::var("z" + to_string(k), true) : r.pos()); }
    auto *sa = sA.make(), *sb = sB.make(); int n1 = sa->cart_size, n2 = sb->cart_size; vector<double> M(n1 * n2, 5.0), N(n1 * n2, 5.0); auto Cv = hs::inv(vs(C));
    auto *pot = hs::potential(-1, 0, pows, pc, pa); LG(libgrpp_type1_integrals)(sa, sb, Cv.data(), pot, M.data());
    LG(libgrpp_nuclear_attraction_integrals_point_charge)(sa, sb, Cv.data(), 17, N.data());
    V3 Av = vec("tA"), Bv = vec("tB"), Cc = vec("tC"); std::unordered_map<int, double> sm; for (int d = 0; d < 3; d++) { char ch = "xyz"[d]; sm[sym::var_index(string("tA") + ch)] = A[d].v; sm[sym::var_index(string("tB") + ch)] = B[d].v; sm[sym::var_index(string("tC") + ch)] = C[d].v; }
    vector<S> O(n1 * n2, S(0)), ON(n1 * n2, S(0));
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) for (size_t k = 0; k <= pows.size(); k++) {
        bool nuc = k == pows.size(); if (!symbolic_exp) {
            S a = sA.a[i], b = sB.a[j], p = a + b, q = nuc ? p : p + pa[k]; V3 P = (R(1) / p) * (a * A + b * B), AB = A - B; int nn = nuc ? 1 : pows[k];
            Closed T(nn, la + lb, p, q, P - C, P - A, P - B, a * b / p * dot(AB, AB)); S f = (nuc ? R(-17) : pc[k]) * sA.c[i] * sB.c[j] * norm_code(la, a) * norm_code(lb, b);
            for (int m = 0; m < n1; m++) for (int l = 0; l < n2; l++) { S &o = nuc ? ON[m * n2 + l] : O[m * n2 + l]; o += f * T.get(sa->cart_list + 3 * m, sb->cart_list + 3 * l); } continue; }
        Deriv T; S cz = nuc ? S(0) : pa[k]; T.s0 = s0_raw(nuc ? 1 : pows[k], sA.a[i], sB.a[j], cz, Av, Bv, Cc);
        T.dA = [=](S f, int d) { return dS(f, Av[d]); }; T.dB = [=](S f, int d) { return dS(f, Bv[d]); };
        S f = (nuc ? R(-17) : pc[k]) * sA.c[i] * sB.c[j] * norm_code(la, sA.a[i]) * norm_code(lb, sB.a[j]);
        for (int m = 0; m < n1; m++) for (int l = 0; l < n2; l++) { S &o = nuc ? ON[m * n2 + l] : O[m * n2 + l]; o += f * S(sym::subst(cart_integral(T, sa->cart_list + 3 * m, sb->cart_list + 3 * l, sA.a[i], sB.a[j]).v, sm)); } }
    for (int m = 0; m < n1; m++) for (int l = 0; l < n2; l++) { string t = "[" + to_string(m) + "," + to_string(l) + "]"; hs::eq("U" + t, M[m * n2 + l], O[m * n2 + l]); hs::eq("V" + t, N[m * n2 + l], ON[m * n2 + l]); }
    LG(libgrpp_delete_potential)(pot); LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static void empty(int la, int lb, bool null) {
    V3 A = vec("A"), B = vec("B"), C = vec("C"); ShellSpec sA{la, A, {hs::var("ca")}, {hs::var("a", true)}}, sB{lb, B, {hs::var("cb")}, {hs::var("b", true)}};
    auto *sa = sA.make(), *sb = sB.make(); vector<double> M(sa->cart_size * sb->cart_size, 5.0); auto Cv = hs::inv(vs(C));
    auto *pot = null ? nullptr : hs::potential(-1, 0, {}, {}, {}); LG(libgrpp_type1_integrals)(sa, sb, Cv.data(), pot, M.data());
    for (size_t i = 0; i < M.size(); i++) hs::eq("zero " + to_string(i), M[i], S(0));
    if (pot) LG(libgrpp_delete_potential)(pot); LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static void declare() {
    bool th = hs::tier == "thorough"; int LF = th ? 4 : 3;
    hs::setup = [] { LG(libgrpp_init)(); };
    for (int n = 0; n <= 3; n++) {
        for (int la = LF; la >= 0; la--) for (int lb = LF; lb >= 0; lb--) { int nn = ncart(la) * ncart(lb); int st = std::max(1, nn / (th ? 200 : 40)); hs::add(nm("full", la, lb, n), [=] { full(n, la, lb, 0, st, (la + lb) % st); }); }
        // one symbolic direction, other coordinates and (some) exponents rational: all angular momenta
        for (int la = 10; la >= 0; la--) for (int lb = 10; lb >= 0; lb--) {
            if (la <= LF && lb <= LF) continue; if (!th && (la + lb) % 2 && la > 5 && lb > 5) continue;
            int nn = ncart(la) * ncart(lb), st = std::max(1, nn / (th ? 60 : 12)); int dir = (la + lb + n) % 3; int pat = (56 & ~(8 << dir)) | 1024 | 512 | 128 | 256;
            hs::add(nm("line", la, lb, n), [=] { full(n, la, lb, pat, st, (la * 5 + lb) % st); });
        }
        for (int la = 0; la <= 2; la++) for (int lb = 0; lb <= 2; lb++) { for (int pat : {1, 6, 7, 64, 2048, 4096, 8192}) hs::add(nm("coincide" + to_string(pat), la, lb, n), [=] { full(n, la, lb, pat); }); }
    }
    vector<vector<int>> pw = {{2, 1, 0}, {0, 0, 2}, {1, 2}, {2}, {1, 1}, {0, 2, 1, 0}};
    for (int la = 0; la <= 1; la++) for (int lb = 0; lb <= 1; lb++) { hs::add(nm("contracted_sym_2x1", la, lb, 9), [=] { contracted(la, lb, 2, 1, pw[la * 2 + lb], true); }); hs::add(nm("contracted_sym_1x2", la, lb, 9), [=] { contracted(la, lb, 1, 2, pw[3 - la - lb], true); }); }
    for (int la = 0; la <= 3; la++) for (int lb = 0; lb <= 3; lb++) { hs::add(nm("contracted_6x4", la, lb, 9), [=] { contracted(la, lb, 6, 4, pw[(la + lb) % 6], false, la % 2); }); hs::add(nm("noterms", la, lb, 9), [=] { empty(la, lb, false); }); hs::add(nm("null", la, lb, 9), [=] { empty(la, lb, true); }); }
    hs::add("many_terms", [=] { contracted(1, 1, 1, 1, {2, 1, 0, 2, 1, 0, 2, 1, 0, 2, 1, 0}, false); });
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
