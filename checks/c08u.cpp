// C08: assembly of the analytic gradients, for uninterpreted primitive integrals X(operator component, exponents of both Gaussians,
// powers, centres): d/dA_k X(n_k) = 2a X(n_k+1) - n_k X(n_k-1), d/dC = -d/dA - d/dB. Any angular momentum, any operator.
#include "ufs.h"
#include "stubs.h"
#include "stubs_rsh.h"
static string pkey(int what, const string &op, const double *C, const int *ea, double a, const double *A, const int *eb, double b, const double *B) {
    string s = to_string(what) + op + (C ? k3(C) : string()); for (int i = 0; i < 3; i++) s += to_string(ea[i]) + "."; s += kd(a) + k3(A); for (int i = 0; i < 3; i++) s += to_string(eb[i]) + "."; return s + kd(b) + k3(B); }
// overlaps are invariant under a common shift of both centres: 2b X(n;m+1) = m X(n;m-1) - 2a X(n+1;m) + n X(n-1;m); reduced to s-type kets
static S Xov(const int *ea, double a, const double *A, const int *eb, double b, const double *B) {
    static std::map<string, S> memo; string key = pkey(9, "", nullptr, ea, a, A, eb, b, B); auto it = memo.find(key); if (it != memo.end()) return it->second;
    int d = eb[0] ? 0 : eb[1] ? 1 : eb[2] ? 2 : -1; if (d < 0) return memo[key] = uf(key);
    int u[3] = {ea[0], ea[1], ea[2]}, t[3] = {eb[0], eb[1], eb[2]}; S v(0); t[d]--;
    u[d]++; v -= R(2) * S(a) * Xov(u, a, A, t, b, B); u[d] -= 2; if (ea[d]) v += R(ea[d]) * Xov(u, a, A, t, b, B);
    if (t[d]) { int m = t[d]; t[d]--; v += R(m) * Xov(ea, a, A, t, b, B); }
    return memo[key] = simp(v / (R(2) * S(b))); }
static S X(int what, const string &op, const double *C, const int *ea, double a, const double *A, const int *eb, double b, const double *B) { if (what == 9) return Xov(ea, a, A, eb, b, B); return uf(pkey(what, op, C, ea, a, A, eb, b, B)); }
static void fill(int what, const string &op, const double *C, libgrpp_shell_t *a, libgrpp_shell_t *b, double *m) {
    for (int i = 0; i < a->cart_size; i++) for (int j = 0; j < b->cart_size; j++) { S s(0); for (int p = 0; p < a->num_primitives; p++) for (int q = 0; q < b->num_primitives; q++)
        s += S(a->coeffs[p]) * norm_code(a->L, S(a->alpha[p])) * S(b->coeffs[q]) * norm_code(b->L, S(b->alpha[q])) * X(what, op, C, a->cart_list + 3 * i, a->alpha[p], a->origin, b->cart_list + 3 * j, b->alpha[q], b->origin);
        m[i * b->cart_size + j] = simp(s).v; } }
extern "C" {
void __stub_libgrpp_overlap_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, double *m) { fill(9, "", nullptr, a, b, m); }
void __stub_libgrpp_full_grpp_integrals(libgrpp_shell_t *a, libgrpp_shell_t *b, libgrpp_grpp_t *g, double *C, double *m, double *x, double *y, double *z) { double *o[4] = {m, x, y, z}; string k = kgrpp(g); for (int i = 0; i < 4; i++) fill(i, k, C, a, b, o[i]); }
}
enum Kind { OVERLAP, LOCAL, ARELP, SO, OC, FULL };
// primitive integrals: atoms, or (in the replay) the library's integrals over normalised primitives
struct Prim { Kind kind; libgrpp_grpp_t *G; string op; V3 A, B, C; vector<double> Cd; std::map<string, vector<vector<double>>> memo;
    S get(int what, const int *ea, S a, const int *eb, S b) {
        for (int i = 0; i < 3; i++) if (ea[i] < 0 || eb[i] < 0) return S(0);
        auto Av = hs::inv(vs(A)), Bv = hs::inv(vs(B));
        if (hs::symbolic) return X(kind == OVERLAP ? 9 : what, kind == OVERLAP ? "" : op, kind == OVERLAP ? nullptr : Cd.data(), ea, a.v, Av.data(), eb, b.v, Bv.data());
        int la = ea[0] + ea[1] + ea[2], lb = eb[0] + eb[1] + eb[2]; double ad = hs::in(a), bd = hs::in(b); string k = to_string(la) + "," + to_string(lb) + kd(ad) + kd(bd); auto &M = memo[k];
        S f = R(1) / (norm_code(la, a) * norm_code(lb, b)); auto *sa = hs::shell(vs(A), la, {R(1)}, {a}), *sb = hs::shell(vs(B), lb, {R(1)}, {b});
        if (M.empty()) { M.assign(4, vector<double>(sa->cart_size * sb->cart_size)); if (kind == OVERLAP) LG(libgrpp_overlap_integrals)(sa, sb, M[0].data()); else LG(libgrpp_full_grpp_integrals)(sa, sb, G, Cd.data(), M[0].data(), M[1].data(), M[2].data(), M[3].data()); }
        double v = 0; for (int i = 0; i < sa->cart_size; i++) for (int j = 0; j < sb->cart_size; j++) if (!memcmp(sa->cart_list + 3 * i, ea, 12) && !memcmp(sb->cart_list + 3 * j, eb, 12)) v = M[what][i * sb->cart_size + j];
        LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb); return f * S(v); }
};
static void run(Kind kind, int la, int lb, int pat, int at, int np, int seed, int strideI = 1) {
    Geo g = geo(pat, 3 * la + 5 * lb + seed); hs::validate = la + lb <= 3; Rnd rn(seed + la + 2 * lb); ShellSpec sA{la, g.A, {}, {}}, sB{lb, g.B, {}, {}};
    for (int i = 0; i < np; i++) { string t = to_string(i); sA.c.push_back(hs::var("ca" + t)); sA.a.push_back(kind == OVERLAP && la + lb > 6 ? rn.pos() : hs::var("a" + t, true)); sB.c.push_back(hs::var("cb" + t)); sB.a.push_back(kind == OVERLAP && la + lb > 6 ? rn.pos() : hs::var("b" + t, true)); }
    auto *sa = sA.make(), *sb = sB.make(); int na = sa->cart_size, nb = sb->cart_size; auto Cv = hs::inv(vs(g.C)); auto *G = LG(libgrpp_new_grpp)(); int id = 0;
    auto pot = [&](int L, int J) { vector<int> n; vector<S> c, a; for (int k = 0; k < 2; k++) { n.push_back((k + id + 2) % 3); c.push_back(hs::var("d" + to_string(id) + "_" + to_string(k))); a.push_back(rn.pos()); } id++; return hs::potential(L, J, n, c, a); };
    libgrpp_potential_t *p0 = nullptr; vector<libgrpp_potential_t *> op; vector<libgrpp_shell_t *> os; int Lso = 1 + seed % 3;
    if (kind == LOCAL || kind == FULL) { p0 = pot(1, 0); LG(libgrpp_grpp_set_local_potential)(G, p0); }
    if (kind == ARELP || kind == FULL) for (int k = 0; k <= (kind == FULL); k++) { p0 = pot(k + seed % 3, 0); LG(libgrpp_grpp_add_averaged_potential)(G, p0); }
    if (kind == SO || kind == FULL) for (int k = 0; k <= (kind == FULL); k++) { p0 = pot(kind == FULL ? k + 1 : Lso, 0); LG(libgrpp_grpp_add_spin_orbit_potential)(G, p0); }
    if (kind == OC || kind == FULL) for (int k = 0; k < 1 + seed % 2; k++) { op.push_back(pot(k, 2 * k + 1)); os.push_back(hs::shell(kind == FULL && seed % 2 ? vs(g.A) : vector<S>{R(1, 3), R(-1), R(2)}, k, {hs::var("oc" + to_string(id))}, {rn.pos()})); LG(libgrpp_grpp_add_outercore_potential)(G, op.back(), os.back()); }
    V3 P = at == 0 ? g.A : at == 1 ? g.B : at == 2 ? g.C : V3{R(13, 3), R(-17, 5), R(29, 7)}; auto Pv = hs::inv(vs(P));
    vector<vector<vector<double>>> M(4, vector<vector<double>>(3, vector<double>(na * nb, 7.25))); vector<vector<double *>> Mp(4); for (int k = 0; k < 4; k++) for (int d = 0; d < 3; d++) Mp[k].push_back(M[k][d].data());
    int k0 = 0, k1 = 3; S scale(1);
    switch (kind) {
    case OVERLAP: LG(libgrpp_overlap_integrals_gradient)(sa, sb, Pv.data(), Mp[0].data()); k1 = 0; break;
    case LOCAL: LG(libgrpp_type1_integrals_gradient)(sa, sb, Cv.data(), p0, Pv.data(), Mp[0].data()); k1 = 0; break;
    case ARELP: LG(libgrpp_type2_integrals_gradient)(sa, sb, Cv.data(), p0, Pv.data(), Mp[0].data()); k1 = 0; break;
    case SO: LG(libgrpp_spin_orbit_integrals_gradient)(sa, sb, Cv.data(), p0, Pv.data(), Mp[1].data(), Mp[2].data(), Mp[3].data()); k0 = 1; scale = R(2 * Lso + 1, 2); break;
    case OC: LG(libgrpp_outercore_potential_integrals_gradient)(sa, sb, Cv.data(), (int) op.size(), op.data(), os.data(), Pv.data(), Mp[0].data(), Mp[1].data(), Mp[2].data(), Mp[3].data()); break;
    case FULL: LG(libgrpp_full_grpp_integrals_gradient)(sa, sb, G, Cv.data(), Pv.data(), Mp[0].data(), Mp[1].data(), Mp[2].data(), Mp[3].data()); break; }
    Prim pr{kind, G, kgrpp(G), g.A, g.B, g.C, Cv};
    auto same = [](const V3 &a, const V3 &b) { for (int d = 0; d < 3; d++) { S x = simp(a[d] - b[d]); if (sym::is_handle(x.v) || x.v != 0) return false; } return true; };
    bool isA = same(P, g.A), isB = same(P, g.B), isC = kind != OVERLAP && same(P, g.C); int wa = isA - isC, wb = isB - isC; bool all = same(g.A, g.B) && (kind == OVERLAP || same(g.A, g.C)); if (all) wa = wb = 0;
    if (kind == OVERLAP && same(g.A, g.B)) wa = wb = 0;
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { if ((i * nb + j) % strideI) continue; const int *ea = sa->cart_list + 3 * i, *eb = sb->cart_list + 3 * j; for (int d = 0; d < 3; d++) for (int k = k0; k <= k1; k++) {
        S v(0); if (wa || wb) for (int p = 0; p < np; p++) for (int q = 0; q < np; q++) { S w = sA.c[p] * norm_code(la, sA.a[p]) * sB.c[q] * norm_code(lb, sB.a[q]); int u[3] = {ea[0], ea[1], ea[2]}, t[3] = {eb[0], eb[1], eb[2]};
            if (wa) { u[d]++; v += R(wa) * w * R(2) * sA.a[p] * pr.get(k, u, sA.a[p], eb, sB.a[q]); u[d] -= 2; if (ea[d]) v -= R(wa * ea[d]) * w * pr.get(k, u, sA.a[p], eb, sB.a[q]); }
            if (wb) { t[d]++; v += R(wb) * w * R(2) * sB.a[q] * pr.get(k, ea, sA.a[p], t, sB.a[q]); t[d] -= 2; if (eb[d]) v -= R(wb * eb[d]) * w * pr.get(k, ea, sA.a[p], t, sB.a[q]); } }
        hs::eq(string("d") + "xyz"[d] + " " + (k ? string("so") + "xyz"[k - 1] : string("arep")) + "[" + to_string(i) + "," + to_string(j) + "]", M[k][d][i * nb + j], scale * v); } }
    LG(libgrpp_delete_grpp)(G); LG(libgrpp_delete_shell)(sa); LG(libgrpp_delete_shell)(sb);
}
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 3; hs::setup = [] { LG(libgrpp_init)(); }; const char *nm[] = {"overlap", "local", "arep", "so", "oc", "full"}; const char *an[] = {"A", "B", "C", "none"};
    for (int kind = 0; kind < 6; kind++) for (int la = 0; la <= (th ? 4 : 3); la++) for (int lb = 0; lb <= (th ? 4 : 3); lb++) for (int pat : {0, 1, 2, 3, 4}) for (int at = 0; at < 4; at++) {
        if (!th && (la + lb > 4 || (la + lb > 2 && (la + lb + pat + at + kind) % 3))) continue; int np = la + lb <= 2 && (kind + at) % 2 ? 2 : 1;
        hs::add(string(nm[kind]) + "_" + an[at] + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat), [=] { run((Kind) kind, la, lb, pat, at, np, la + lb + kind); }); }
    for (int kind : {0, 5}) for (auto l : {std::make_pair(10, 0), std::make_pair(0, 10), std::make_pair(6, 3), std::make_pair(3, 7), std::make_pair(10, 9), std::make_pair(9, 10)}) for (int pat : {0, 1, 2, 3}) for (int at = 0; at < 3; at++) { if (!th && (l.first + l.second > 10 || (kind == 5 && (pat + at) % 2))) continue; hs::add(string("hi") + nm[kind] + "_" + an[at] + "_" + to_string(l.first) + "_" + to_string(l.second) + "_g" + to_string(pat), [=] { run((Kind) kind, l.first, l.second, pat, at, 1, 1, l.first + l.second > 12 ? 37 : 1); }); }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
