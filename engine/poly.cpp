// Laurent-polynomial normal form with opaque atoms, and the Z3 back end.
#include "sym.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <set>
using namespace std;
z3::context &zctx() { static z3::context c; return c; }

namespace poly {
double to_dag(const Poly &p);
enum GK { G_VAR, G_PRIME, G_FACTOR, G_EXP, G_ATOM };
struct Gen { GK k; int idx; Poly def; bool pos; int fn; vector<Poly> args; string name; int rank; };
static vector<Gen> gens;
typedef vector<pair<uint16_t, int16_t>> Mono;   // (generator, exponent in quarters)
static vector<Mono> monos;
struct MH { size_t operator()(const Mono &m) const { uint64_t h = 1469598103934665603ull; for (auto &p : m) { h ^= (uint64_t) p.first << 16 | (uint16_t) p.second; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static unordered_map<Mono, Mid, MH> mtab;
static unordered_map<uint64_t, pair<Mid, Rat>> mcache;
static Mid intern(const Mono &m) { auto it = mtab.find(m); if (it != mtab.end()) return it->second; Mid i = monos.size(); monos.push_back(m); mtab.emplace(m, i); return i; }
static Mid unit() { static Mid u = intern(Mono()); return u; }
static map<long, int> primegen; static map<int, int> vargen;
static Mid one_gen(int g, int e4) { Mono m; if (e4) m.push_back({(uint16_t) g, (int16_t) e4}); return intern(m); }

static pair<Mid, Rat> mmul(Mid a, Mid b) {
    if (a > b) swap(a, b);
    uint64_t key = (uint64_t) a << 32 | b; auto it = mcache.find(key); if (it != mcache.end()) return it->second;
    const Mono x = monos[a], y = monos[b]; Mono r; Rat c(1); size_t i = 0, j = 0;
    auto push = [&](uint16_t g, int e) {
        if (gens[g].k == G_PRIME) { while (e >= 4) { e -= 4; c = c * Rat((long) gens[g].idx); } while (e < 0) { e += 4; c = c / Rat((long) gens[g].idx); } }
        if (e > 32000 || e < -32000) throw SymError("exponent overflow");
        if (e) r.push_back({g, (int16_t) e}); };
    while (i < x.size() || j < y.size()) {
        if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) { push(x[i].first, x[i].second); i++; }
        else if (i == x.size() || y[j].first < x[i].first) { push(y[j].first, y[j].second); j++; }
        else { push(x[i].first, x[i].second + y[j].second); i++; j++; }
    }
    pair<Mid, Rat> res(intern(r), c);
    if (mcache.size() > 40000000) mcache.clear();
    mcache.emplace(key, res); return res;
}
Poly add_(const Poly &a, const Poly &b, bool neg) {
    Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].m < b[j].m)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].m < a[i].m) { r.push_back({b[j].m, neg ? -b[j].c : b[j].c}); j++; }
        else { Rat c = neg ? a[i].c - b[j].c : a[i].c + b[j].c; if (!c.zero()) r.push_back({a[i].m, std::move(c)}); i++; j++; }
    }
    return r;
}
Poly add(const Poly &a, const Poly &b) { return add_(a, b, false); }
Poly sub(const Poly &a, const Poly &b) { return add_(a, b, true); }
static Poly from_map(unordered_map<Mid, Rat> &m) { Poly r; for (auto &p : m) if (!p.second.zero()) r.push_back({p.first, std::move(p.second)}); sort(r.begin(), r.end(), [](const Term &x, const Term &y) { return x.m < y.m; }); return r; }
size_t max_terms = 3000000;
Poly mul(const Poly &a, const Poly &b) {
    if (a.empty() || b.empty()) return {};
    if (a.size() == 1 && a[0].m == unit()) { Poly r; for (auto &t : b) r.push_back({t.m, t.c * a[0].c}); return r; }
    if (b.size() == 1 && b[0].m == unit()) { Poly r; for (auto &t : a) r.push_back({t.m, t.c * b[0].c}); return r; }
    unordered_map<Mid, Rat> acc; acc.reserve(a.size() * 2 + b.size() * 2);
    for (auto &x : a) for (auto &y : b) { auto pr = mmul(x.m, y.m); Rat c = x.c * y.c; if (!pr.second.one()) c = c * pr.second; auto &s = acc[pr.first]; s = s + c; }
    if (acc.size() > max_terms) throw SymError("polynomial too large");
    return from_map(acc);
}
static Poly scal(const Poly &p, const Rat &c) { Poly r; if (c.zero()) return r; for (auto &t : p) r.push_back({t.m, t.c * c}); return r; }
static Poly cst(const Rat &c) { Poly p; if (!c.zero()) p.push_back({unit(), c}); return p; }
static Poly mono(Mid m, const Rat &c = Rat(1)) { Poly p; p.push_back({m, c}); return p; }

static Poly var_poly(int k) {
    auto it = vargen.find(k); int g;
    if (it != vargen.end()) g = it->second; else { g = gens.size(); gens.push_back({G_VAR, k, {}, (bool) sym::varpos[k], 0, {}, sym::varname[k], 0}); vargen[k] = g; }
    return mono(one_gen(g, 4));
}
// ---------------- numeric fingerprints (only used to find candidates; equality is always confirmed by expansion)
static double hval(const string &s) { uint64_t h = 88172645463325252ull; for (char c : s) { h ^= (unsigned char) c; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return 0.35 + (h % 1000003) / 1000003.0 * 1.3; }
static quad gen_val(int g);
static quad mono_val(Mid m) { quad r = 1; for (auto &p : monos[m]) { quad v = gen_val(p.first); int e = p.second; if (e % 4 == 0) { int n = e / 4; quad t = 1; for (int i = 0; i < abs(n); i++) t *= v; r = n >= 0 ? r * t : r / t; } else r *= powq(fabsq(v), e / (quad) 4); } return r; }
static quad qval(const Rat &c) { if (!c.b) return (quad) c.n / (quad) c.d; mpf_class f(*c.b, 160); double v = f.get_d(); mpf_class r = f - mpf_class(v, 160); return (quad) v + (quad) r.get_d(); }
static quad poly_val(const Poly &p) { quad s = 0; for (auto &t : p) s += qval(t.c) * mono_val(t.m); return s; }
static vector<quad> gval_memo; static vector<char> gval_ok;
static quad gen_val(int g) {
    if ((int) gval_memo.size() < (int) gens.size()) { gval_memo.resize(gens.size()); gval_ok.resize(gens.size(), 0); }
    if (gval_ok[g]) return gval_memo[g];
    quad r; const Gen G = gens[g];
    switch (G.k) { case G_VAR: r = G.name == "pi" ? M_PIq : (quad) hval(G.name); break; case G_PRIME: r = G.idx; break; case G_FACTOR: r = poly_val(G.def); break;
        case G_EXP: { quad u = poly_val(G.def); r = expq(u); break; }
        default: { r = hval(G.name + to_string(G.fn) + "," + to_string(G.idx)); for (auto &a : G.args) { quad u = poly_val(a); r = r * 0.7Q + sinq(u) * 0.3Q + 0.4Q; } } }
    if ((int) gval_memo.size() < (int) gens.size()) { gval_memo.resize(gens.size()); gval_ok.resize(gens.size(), 0); }
    gval_memo[g] = r; gval_ok[g] = 1; return r;
}
static string fp(const Poly &p) { quad v = poly_val(p); char b[64]; quadmath_snprintf(b, 64, "%.11Qe", v); return b; }

// ---------------- generators for factors, exponentials, atoms
static map<string, vector<int>> factor_ix, atom_ix;
static bool same_terms(const Poly &a, const Poly &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].m != b[i].m || a[i].c != b[i].c) return false; return true; }
// p = c * m * q ; q has trivial monomial content and leading coefficient +-1
static void content(const Poly &p, Rat &c, Mid &m, Poly &q, bool keep_sign) {
    map<int, int> mn; bool first = true;
    for (auto &t : p) { map<int, int> e; for (auto &x : monos[t.m]) e[x.first] = x.second;
        if (first) { mn = e; first = false; } else { for (auto it = mn.begin(); it != mn.end();) { auto f = e.find(it->first); int v = f == e.end() ? 0 : f->second; it->second = min(it->second, v); ++it; } for (auto &x : e) if (!mn.count(x.first)) { mn[x.first] = min(0, x.second); } } }
    // generators missing from earlier terms count as exponent 0
    for (auto &kv : mn) { bool missing = false; for (auto &t : p) { bool has = false; for (auto &x : monos[t.m]) if (x.first == kv.first) has = true; if (!has) missing = true; } if (missing && kv.second > 0) kv.second = 0; }
    Mono mm, inv; for (auto &kv : mn) if (kv.second && gens[kv.first].k != G_PRIME) { mm.push_back({(uint16_t) kv.first, (int16_t) kv.second}); inv.push_back({(uint16_t) kv.first, (int16_t) -kv.second}); }
    m = intern(mm); Mid mi = intern(inv);
    q.clear(); for (auto &t : p) { auto r = mmul(t.m, mi); q.push_back({r.first, t.c * r.second}); }
    sort(q.begin(), q.end(), [](const Term &x, const Term &y) { return x.m < y.m; });
    c = q[0].c; if (keep_sign && c.sgn() < 0) c = -c;
    Rat ci = c.inv(); for (auto &t : q) t.c = t.c * ci;
}
static Poly expand_factors(const Poly &p);
static int factor_gen(const Poly &q) {
    string k = fp(q);
    for (int g : factor_ix[k]) { if (same_terms(gens[g].def, q)) return g; if (is_zero(sub(gens[g].def, q))) return g; }
    int g = gens.size(); gens.push_back({G_FACTOR, 0, q, false, 0, {}, "f" + to_string(g), 0});
    bool pos = true; for (auto &t : q) { if (t.c.sgn() < 0) pos = false; for (auto &x : monos[t.m]) if (!gens[x.first].pos && (x.second % 8)) pos = false; } gens[g].pos = pos;
    factor_ix[k].push_back(g); return g;
}
static map<string, vector<int>> exp_ix;
static int exp_gen(Mid m) {
    for (auto &kv : exp_ix) (void) kv;
    static unordered_map<Mid, int> ix; auto it = ix.find(m); if (it != ix.end()) return it->second;
    int g = gens.size(); gens.push_back({G_EXP, 0, mono(m), true, 0, {}, "E" + to_string(g), 0}); ix[m] = g; return g;
}
static int atom_gen(int fn, int idx, const vector<Poly> &args, bool pos) {
    string k = to_string(fn) + ":" + to_string(idx); for (auto &a : args) k += ":" + fp(a);
    for (int g : atom_ix[k]) { bool ok = true; for (size_t i = 0; i < args.size() && ok; i++) if (!same_terms(gens[g].args[i], args[i]) && !is_zero(sub(gens[g].args[i], args[i]))) ok = false; if (ok) return g; }
    int g = gens.size(); gens.push_back({G_ATOM, idx, {}, pos, fn, args, "A" + to_string(fn) + "_" + to_string(idx), 0}); atom_ix[k].push_back(g); return g;
}
static Poly inverse(const Poly &p) {
    if (p.empty()) throw SymError("division by an identically zero expression");
    if (p.size() == 1) { Mono r; Rat c = p[0].c.inv(); for (auto &x : monos[p[0].m]) { if (gens[x.first].k == G_PRIME) { r.push_back({x.first, (int16_t)(4 - x.second)}); c = c / Rat((long) gens[x.first].idx); } else r.push_back({x.first, (int16_t) -x.second}); } return mono(intern(r), c); }
    Rat c; Mid m; Poly q; content(p, c, m, q, false);
    int g = factor_gen(q); return mul(mul(inverse(mono(m)), mono(one_gen(g, -4))), cst(c.inv()));
}
// c^(e4/4) for rational c>0
static Poly const_pow(const Rat &c0, int e4) {
    mpq_class q = c0.q(); if (q <= 0) throw SymError("root of a non-positive constant");
    Poly r = cst(Rat(1));
    for (int side = 0; side < 2; side++) {
        mpz_class n = side ? q.get_den() : q.get_num(); int s = side ? -e4 : e4;
        auto apply = [&](long pr, int mult) { int e = s * mult; int g; auto it = primegen.find(pr); if (it != primegen.end()) g = it->second; else { g = gens.size(); gens.push_back({G_PRIME, (int) pr, {}, true, 0, {}, "r" + to_string(pr), 0}); primegen[pr] = g; }
            int fl = e >= 0 ? e / 4 : -((-e + 3) / 4); int fr = e - 4 * fl; Rat c(1); mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), pr, abs(fl)); mpq_class tq(t); if (fl < 0) tq = 1 / tq; c.set(tq); r = mul(r, mono(one_gen(g, fr), c)); };
        for (long pr = 2; n > 1; pr++) { if (pr > 20000) { if (n.fits_sint_p()) { apply(n.get_si(), 1); break; } throw SymError("root of a constant with a large prime factor"); }
            int m = 0; while (mpz_divisible_ui_p(n.get_mpz_t(), pr)) { n /= pr; m++; } if (m) apply(pr, m); }
    }
    return r;
}
static Poly power4(const Poly &p, int e4) {      // p^(e4/4), real branch, p>0 assumed for fractional powers
    if (p.empty()) { if (e4 > 0) return {}; throw SymError("negative power of zero"); }
    if (p.size() == 1) {
        Poly r = const_pow(p[0].c, e4);
        for (auto &x : monos[p[0].m]) {
            const Gen &G = gens[x.first]; long e = (long) x.second * e4;
            if (e % 4) throw SymError("fractional exponent too fine: " + G.name + " ^ " + to_string(x.second) + " * " + to_string(e4));
            e /= 4;
            if (G.k == G_PRIME) { mpq_class t((long) G.idx); // (pr^(x/4))^(e4/4)
                if (((long) x.second * e4) % 4) throw SymError("nested root"); r = mul(r, mono(one_gen(x.first, 0))); int fl = e >= 0 ? e / 4 : -((-e + 3) / 4); int fr = e - 4 * fl; mpz_class tz; mpz_ui_pow_ui(tz.get_mpz_t(), G.idx, abs(fl)); mpq_class tq(tz); if (fl < 0) tq = 1 / tq; r = mul(r, mono(one_gen(x.first, fr), Rat(tq))); continue; }
            if (!G.pos && x.second % 8 == 0 && (e % 8) != 0) { // (v^{2k})^{frac} = |v|^{...}
                int a = atom_gen(F_ABS, 0, {mono(one_gen(x.first, 4))}, true); r = mul(r, mono(one_gen(a, e))); }
            else r = mul(r, mono(one_gen(x.first, e)));
        }
        return r;
    }
    Rat c; Mid m; Poly q; content(p, c, m, q, true);
    if (q.size() == 3 && e4 % 4 == 2) { // perfect square x^2+2xy+y^2 ?
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) { int k = 3 - i - j; if (q[i].c.sgn() < 0 || q[j].c.sgn() < 0) continue;
            try { bool ok = true; for (int t : {i, j}) for (auto &x : monos[q[t].m]) if (x.second % 8) ok = false; if (!ok) continue;
                auto half = [&](Mid mm) { Mono r; for (auto x : monos[mm]) r.push_back({x.first, (int16_t)(x.second / 2)}); return intern(r); };
                mpq_class a = q[i].c.q(), b = q[j].c.q(); if (!mpz_perfect_square_p(a.get_num().get_mpz_t()) || !mpz_perfect_square_p(a.get_den().get_mpz_t()) || !mpz_perfect_square_p(b.get_num().get_mpz_t()) || !mpz_perfect_square_p(b.get_den().get_mpz_t())) continue;
                Rat sa(mpq_class(sqrt(a.get_num()), sqrt(a.get_den()))), sb(mpq_class(sqrt(b.get_num()), sqrt(b.get_den())));
                for (int sg : {1, -1}) { Poly root = add(mono(half(q[i].m), sa), mono(half(q[j].m), sg > 0 ? sb : -sb)); Poly sq = mul(root, root); if (is_zero(sub(sq, q))) {
                    int a2 = atom_gen(F_ABS, 0, {root}, true); (void) k; return mul(mul(power4(mono(m), e4), const_pow(c, e4)), mono(one_gen(a2, 2 * e4))); } }
            } catch (SymError &) { } } }
    int g = factor_gen(q);
    return mul(mul(power4(mono(m), e4), const_pow(c, e4)), mono(one_gen(g, e4)));
}
// ---------------- DAG -> Poly
static unordered_map<Id, Poly> memo;
void reset() { memo.clear(); }
static const Poly &conv(Id i);
static Poly inv_node(Id i) { Node n = sym::nodes[i]; if (n.op == O_MUL) return mul(inv_node(n.a), inv_node(n.b)); if (n.op == O_NEG) return scal(inv_node(n.a), Rat(-1)); if (n.op == O_DIV) return mul(conv(n.b), inv_node(n.a));
    return inverse(conv(i)); }
static const Poly &conv(Id root) {
    auto it0 = memo.find(root); if (it0 != memo.end()) return it0->second;
    // iterative post-order (deep DAGs)
    vector<pair<Id, bool>> st{{root, false}};
    while (!st.empty()) {
        auto [i, done] = st.back(); st.pop_back();
        if (memo.count(i)) continue;
        Node n = sym::nodes[i];
        if (!done) {
            st.push_back({i, true});
            if (n.op == O_ADD || n.op == O_SUB || n.op == O_MUL || n.op == O_DIV) { st.push_back({n.a, false}); st.push_back({n.b, false}); }
            else if (n.op == O_NEG) st.push_back({n.a, false});
            else if (n.op == O_FUN) { st.push_back({n.a, false}); if (n.fn == F_UF) st.push_back({n.b, false}); }
            continue;
        }
        Poly r;
        switch (n.op) {
            case O_CONST: { Rat c; c.set(sym::consts[n.k]); r = cst(c); break; }
            case O_VAR: r = var_poly(n.k); break;
            case O_ADD: r = add(conv(n.a), conv(n.b)); break;
            case O_SUB: r = sub(conv(n.a), conv(n.b)); break;
            case O_MUL: r = mul(conv(n.a), conv(n.b)); break;
            case O_DIV: r = mul(conv(n.a), inv_node(n.b)); break;
            case O_NEG: r = scal(conv(n.a), Rat(-1)); break;
            case O_FUN: {
                if (n.fn == F_OPAQUE && n.k) { r = mono(one_gen(atom_gen(n.fn, n.a, {}, false), 4)); break; }
                Poly a = conv(n.a);
                switch (n.fn) {
                    case F_EXP: { r = cst(Rat(1)); for (auto &t : a) { mpq_class c = t.c.q(), c4 = c * 4; Mid mm = t.m; long e; Rat rest;
                            if (c4.get_den() == 1 && abs(c4) < 2000) { e = c4.get_num().get_si(); r = mul(r, mono(one_gen(exp_gen(mm), e))); }
                            else { // E[m/d]^(n): use generator of m scaled by 1/den
                                int g = atom_gen(F_EXP, 0, {mono(mm, t.c)}, true); // opaque fallback, still grouped through its argument
                                gens[g].k = G_EXP; gens[g].def = mono(mm, t.c); r = mul(r, mono(one_gen(g, 4))); } } break; }
                    case F_SQRT: r = power4(a, 2); break;
                    case F_POW: { mpq_class e = sym::consts[sym::nodes[n.b].k]; mpq_class e4 = e * 4; if (e4.get_den() == 1) r = power4(a, e4.get_num().get_si()); else r = mono(one_gen(atom_gen(F_POW, 0, {a, conv(n.b)}, true), 4)); break; }
                    case F_ABS: if (a.size() == 1 && !a.empty()) { Mono mm; Poly rest = cst(Rat(1)); for (auto &x : monos[a[0].m]) { if (gens[x.first].pos || x.second % 8 == 0) rest = mul(rest, mono(one_gen(x.first, x.second))); else { int g = atom_gen(F_ABS, 0, {mono(one_gen(x.first, 4))}, true); rest = mul(rest, mono(one_gen(g, x.second))); } } Rat c = a[0].c; if (c.sgn() < 0) c = -c; r = scal(rest, c); }
                        else if (a.empty()) r = {}; else { int s = easy_sign(a); if (s > 0) r = a; else if (s < 0) r = scal(a, Rat(-1)); else r = mono(one_gen(atom_gen(F_ABS, 0, {a}, true), 4)); } break;
                    case F_LOG: r = mono(one_gen(atom_gen(F_LOG, 0, {a}, a.size() == 1 && monos[a[0].m].empty() && a[0].c.q() > 1), 4)); break;
                    case F_UF: r = mono(one_gen(atom_gen(F_UF, n.k, {a, conv(n.b)}, false), 4)); break;
                    case F_BOYS: case F_GFUN: if (is_zero(a)) { r = cst(Rat(mpq_class(1, 2 * n.k + 1))); break; } r = mono(one_gen(atom_gen(n.fn, n.k, {a}, true), 4)); break;
                    case F_OPAQUE: if (a.empty() || (a.size() == 1 && monos[a[0].m].empty())) { r = a; break; } if (a.size() > 1 && is_zero(a)) break; r = mono(one_gen(atom_gen(n.fn, 0, {a}, false), 4)); break;
                    case F_JB: if (is_zero(a)) { mpz_class z = 1; for (int i = 3; i <= 2 * n.k + 1; i += 2) z *= i; r = cst(Rat(mpq_class(1, z))); break; } r = mono(one_gen(atom_gen(n.fn, n.k, {a}, true), 4)); break;
                    default: r = mono(one_gen(atom_gen(n.fn, n.k, {a}, false), 4));
                } break; }
        }
        memo.emplace(i, std::move(r));
    }
    return memo[root];
}
Poly of(double d) { if (!sym::is_handle(d)) { if (!std::isfinite(d)) throw SymError("non-finite result"); Rat c; c.set(mpq_class(d)); return cst(c); } return conv(sym::handle_id(d)); }

string str(const Poly &p, int maxterms) {
    if (p.empty()) return "0"; string s; int k = 0;
    for (auto &t : p) { if (k++ >= maxterms) { s += " + ...(" + to_string(p.size()) + " terms)"; break; } if (k > 1) s += " + "; s += t.c.str(); for (auto &x : monos[t.m]) { s += "*" + gens[x.first].name; if (x.second != 4) s += "^" + (x.second % 4 ? to_string(x.second) + "/4" : to_string(x.second / 4)); } }
    return s;
}
void dump_atoms() { for (size_t g = 0; g < gens.size(); g++) if (gens[g].k == G_ATOM || gens[g].k == G_FACTOR) { fprintf(stderr, "%s (gen %zu fn %d):", gens[g].name.c_str(), g, gens[g].fn); if (gens[g].k == G_FACTOR) fprintf(stderr, " %s", str(gens[g].def, 5).c_str()); for (auto &a : gens[g].args) fprintf(stderr, " %s [%s]", str(a, 5).c_str(), fp(a).c_str()); fprintf(stderr, "\n"); } }
int easy_sign(const Poly &p) {
    if (p.empty()) return 0; int s = 0;
    for (auto &t : p) { int q = t.c.sgn(); for (auto &x : monos[t.m]) if (!gens[x.first].pos && x.second % 8) return 0; for (auto &x : monos[t.m]) if (!gens[x.first].pos) return 0; if (s && q != s) return 0; s = q; }
    return s;
}
// ---------------- zero test: group, clear denominators, expand factors
static map<string, vector<pair<Poly, int>>> expargs; static int nexp = 0;
static int exp_class(const Poly &U) {
    string k = fp(U); for (auto &e : expargs[k]) { if (same_terms(e.first, U) || is_zero(sub(e.first, U))) return e.second; } expargs[k].push_back({U, ++nexp}); return nexp;
}
typedef map<pair<int, Mid>, Poly> Groups;    // (exp class, atom/fraction monomial) -> polynomial in VAR^int, FACTOR^int
static Groups group(const Poly &p) {
    Groups g;
    static unordered_map<Mid, int> expmemo;   // exp-part monomial -> class
    for (auto &t : p) {
        Mono at, rest, ex;
        for (auto &x : monos[t.m]) {
            const Gen &G = gens[x.first];
            if (G.k == G_EXP) ex.push_back(x);
            else if (G.k == G_ATOM || G.k == G_PRIME) at.push_back(x);
            else { int fl = x.second >= 0 ? x.second / 4 : -((-x.second + 3) / 4); int fr = x.second - 4 * fl; if (fr) at.push_back({x.first, (int16_t) fr}); if (fl) rest.push_back({x.first, (int16_t)(4 * fl)}); }
        }
        int cls = 0;
        if (!ex.empty()) { Mid em = intern(ex); auto it = expmemo.find(em); if (it != expmemo.end()) cls = it->second; else { Poly U; for (auto &x : ex) { Rat c((long) x.second); c = c / Rat(4); U = add(U, scal(gens[x.first].def, c)); } cls = is_zero(U) ? 0 : exp_class(U); expmemo[em] = cls; } }
        Poly &q = g[{cls, intern(at)}];
        q.push_back({intern(rest), t.c});
    }
    for (auto &kv : g) { Poly &q = kv.second; unordered_map<Mid, Rat> acc; for (auto &t : q) { auto &s = acc[t.m]; s = s + t.c; } q = from_map(acc); }
    for (auto it = g.begin(); it != g.end();) { if (it->second.empty()) it = g.erase(it); else ++it; }
    return g;
}
static void min_exps(const Poly &p, map<int, int> &mn) { for (auto &t : p) for (auto &x : monos[t.m]) if (x.second < 0) { auto &v = mn[x.first]; v = min(v, (int) x.second); } }
static Mid clearer(const map<int, int> &mn) { Mono m; for (auto &kv : mn) if (kv.second) m.push_back({(uint16_t) kv.first, (int16_t) -kv.second}); return intern(m); }
static Poly times_mono(const Poly &p, Mid m) { Poly r; for (auto &t : p) { auto x = mmul(t.m, m); r.push_back({x.first, t.c * x.second}); } sort(r.begin(), r.end(), [](const Term &a, const Term &b) { return a.m < b.m; }); return r; }
static map<pair<int, int>, Poly> fpow;
static const Poly &factor_power(int g, int n) {
    auto k = make_pair(g, n); auto it = fpow.find(k); if (it != fpow.end()) return it->second;
    Poly r = n == 0 ? cst(Rat(1)) : mul(factor_power(g, n - 1), gens[g].def); return fpow[k] = r;
}
static bool has_factor(const Poly &p) { for (auto &t : p) for (auto &x : monos[t.m]) if (gens[x.first].k == G_FACTOR) return true; return false; }
static Poly expand_factors(const Poly &p0) {     // exponents of factors are non-negative integers here
    Poly p = p0; int guard = 0;
    while (has_factor(p)) {
        if (guard++ > 40) throw SymError("factor nesting");
        // highest-numbered factor first: its definition only uses earlier generators
        int hg = -1; for (auto &t : p) for (auto &x : monos[t.m]) if (gens[x.first].k == G_FACTOR) hg = max(hg, (int) x.first);
        map<int, unordered_map<Mid, Rat>> byexp;
        for (auto &t : p) { Mono r; int e = 0; for (auto &x : monos[t.m]) if (x.first == hg) e = x.second; else r.push_back(x); auto &s = byexp[e][intern(r)]; s = s + t.c; }
        Poly acc; 
        // bring definitions with negative inner exponents to common form: multiply out lazily
        for (auto &kv : byexp) { if (kv.first < 0 || kv.first % 4) throw SymError("factor exponent"); Poly c = from_map(kv.second); acc = add(acc, mul(c, factor_power(hg, kv.first / 4))); }
        // definitions may carry negative exponents of other factors: clear again
        map<int, int> mn; min_exps(acc, mn); map<int, int> fm; for (auto &kv : mn) if (gens[kv.first].k == G_FACTOR) fm[kv.first] = kv.second;
        if (!fm.empty()) acc = times_mono(acc, clearer(fm));
        p = acc;
    }
    return p;
}
// factors whose definition involves function values, exponentials or roots: grouping by those needs the factor multiplied out
static bool dirty(int g) { static map<int, bool> memo; auto it = memo.find(g); if (it != memo.end()) return it->second; bool r = false; for (auto &t : gens[g].def) for (auto &x : monos[t.m]) { const Gen &G = gens[x.first]; if (G.k == G_ATOM || G.k == G_EXP || G.k == G_PRIME || x.second % 4 || (G.k == G_FACTOR && dirty(x.first))) r = true; } return memo[g] = r; }
static bool has_dirty(const Poly &p) { for (auto &t : p) for (auto &x : monos[t.m]) if (gens[x.first].k == G_FACTOR && dirty(x.first)) return true; return false; }
static bool flatten(vector<Poly> &ps) {      // multiplies all of ps by one common non-zero monomial and expands dirty factors
    bool any = false; int limit = 1 << 30;
    for (;;) {
        int hg = -1; for (auto &p : ps) for (auto &t : p) for (auto &x : monos[t.m]) if (gens[x.first].k == G_FACTOR && dirty(x.first) && x.first < limit) hg = max(hg, (int) x.first);
        if (hg < 0) return any; any = true; limit = hg; auto fl = [](int e) { return e >= 0 ? e / 4 : -((-e + 3) / 4); };
        int mn = 0; bool first = true; for (auto &p : ps) for (auto &t : p) { int e = 0; for (auto &x : monos[t.m]) if (x.first == hg) e = fl(x.second); mn = first ? e : min(mn, e); first = false; }
        for (auto &p : ps) { map<int, unordered_map<Mid, Rat>> by; for (auto &t : p) { Mono r; int e = 0; for (auto x : monos[t.m]) { if (x.first == hg) { e = fl(x.second); x.second -= 4 * e; if (!x.second) continue; } r.push_back(x); } auto &s = by[e - mn][intern(r)]; s = s + t.c; }
            Poly acc; for (auto &kv : by) { Poly c = from_map(kv.second); acc = add(acc, mul(c, factor_power(hg, kv.first))); if (acc.size() > 200000) throw SymError("expression too large"); } p = acc; }
    }
}
static bool is_zero0(const Poly &p) {
    if (p.empty()) return true;
    bool simple = true; for (auto &t : p) for (auto &x : monos[t.m]) if (gens[x.first].k == G_FACTOR || gens[x.first].k == G_EXP) { simple = false; break; }
    if (simple) return false;
    // quick numeric refutation
    { quad v = poly_val(p), s = 0; for (auto &t : p) s += fabsq((quad) t.c.q().get_d() * mono_val(t.m)); if (s > 0 && fabsq(v) > s * 1e-12Q) return false; }
    Groups g = group(p);
    for (auto &kv : g) { map<int, int> mn; min_exps(kv.second, mn); Poly q = times_mono(kv.second, clearer(mn)); q = expand_factors(q); 
        // fractional parts regrouped
        if (!q.empty()) return false; }
    return true;
}
bool is_zero(const Poly &p) {
    if (is_zero0(p)) return true; if (!has_dirty(p)) return false;
    { quad v = poly_val(p), s = 0; for (auto &t : p) s += fabsq((quad) t.c.q().get_d() * mono_val(t.m)); if (s > 0 && fabsq(v) > s * 1e-12Q) return false; }
    vector<Poly> v{p}; flatten(v); return v[0].empty() || is_zero0(v[0]);
}
// ---------------- Z3
static z3::expr zgen(int g) { return zctx().real_const((gens[g].k == G_VAR ? gens[g].name : gens[g].name + "_" + to_string(g)).c_str()); }
static z3::expr zpoly(const Poly &p);
static z3::expr zmono(Mid m, const Rat &c) {
    z3::expr_vector v(zctx()); if (!c.one()) v.push_back(zctx().real_val(c.str().c_str()));
    for (auto &x : monos[m]) { z3::expr b = gens[x.first].k == G_FACTOR ? zpoly(gens[x.first].def) : zgen(x.first); for (int i = 0; i < x.second / 4; i++) v.push_back(b); }
    if (v.size() == 0) return zctx().real_val(1); if (v.size() == 1) return v[0];
    vector<Z3_ast> as; for (unsigned i = 0; i < v.size(); i++) as.push_back(v[i]); return z3::expr(zctx(), Z3_mk_mul(zctx(), as.size(), as.data()));
}
static z3::expr zpoly(const Poly &p) {
    if (p.empty()) return zctx().real_val(0);
    z3::expr_vector v(zctx()); for (auto &t : p) v.push_back(zmono(t.m, t.c)); if (v.size() == 1) return v[0];
    vector<Z3_ast> as; for (unsigned i = 0; i < v.size(); i++) as.push_back(v[i]); return z3::expr(zctx(), Z3_mk_add(zctx(), as.size(), as.data()));
}
// disequalities "some atom group differs" as Z3 terms over the variables
static void disequalities0(const Poly &a, const Poly &b, vector<z3::expr> &out, vector<pair<Poly, Poly>> *raw);
void disequalities(const Poly &a, const Poly &b, vector<z3::expr> &out, vector<pair<Poly, Poly>> *raw = nullptr) {
    if ((has_dirty(a) || has_dirty(b)) && !is_zero0(sub(a, b))) { vector<Poly> v{a, b}; flatten(v); disequalities0(v[0], v[1], out, raw); } else disequalities0(a, b, out, raw);
}
static void disequalities0(const Poly &a, const Poly &b, vector<z3::expr> &out, vector<pair<Poly, Poly>> *raw) {
    Groups ga = group(a), gb = group(b); set<pair<int, Mid>> keys; for (auto &k : ga) keys.insert(k.first); for (auto &k : gb) keys.insert(k.first);
    for (auto &k : keys) {
        Poly x = ga.count(k) ? ga[k] : Poly(), y = gb.count(k) ? gb[k] : Poly(); map<int, int> mn; min_exps(x, mn); min_exps(y, mn); Mid c = clearer(mn); x = times_mono(x, c); y = times_mono(y, c);
        Poly xe = x, ye = y;
        if (has_factor(x) || has_factor(y)) { // substitute definitions in the difference as well: fractional parts may recombine
            xe = sub(x, y); ye = {}; xe = expand_factors(xe); }
        if (raw) raw->push_back({xe, ye});
        out.push_back(zpoly(xe) != zpoly(ye));
    }
}
// ---------------- Poly -> DAG (keeps the normal form attached to the new node)
static unordered_map<int, double> gdag;
Poly diff(const Poly &p, int vk);
static double gen_dag(int g) {
    auto it = gdag.find(g); if (it != gdag.end()) return it->second;
    Gen G = gens[g]; double r = 0;
    switch (G.k) {
        case G_VAR: r = sym::var(sym::varname[G.idx], sym::varpos[G.idx]); break;
        case G_PRIME: r = (double) G.idx; break;
        case G_FACTOR: r = to_dag(G.def); break;
        case G_EXP: r = __sym_exp(to_dag(G.def)); break;
        default: { if (G.args.empty()) { r = sym::opaque(sym::mk_handle(G.idx), true); break; } double a = to_dag(G.args[0]); if (G.fn == F_ABS) r = __sym_fabs(a); else if (G.fn == F_POW) r = __sym_pow(a, to_dag(G.args[1])); else r = sym::fun((Fn) G.fn, a, G.args.size() > 1 ? to_dag(G.args[1]) : 0, G.idx); }
    }
    gdag[g] = r; return r;
}
double to_dag(const Poly &p) {
    double s = 0;
    for (auto &t : p) { double m = sym::rat(t.c.q()); for (auto &x : monos[t.m]) { double b = gen_dag(x.first); m = __sym_fmul(m, __sym_pow(b, sym::rat(x.second, 4))); } s = __sym_fadd(s, m); }
    if (sym::is_handle(s)) memo[sym::handle_id(s)] = p;
    return s;
}
// Taylor coefficients of p about x = c in the variable vk: exact if p is a polynomial in that variable alone, else from symbolic derivatives evaluated in quad precision
bool taylor(const Poly &p, int vk, const mpq_class &c, int M, vector<mpq_class> &out) {
    bool exact = true; int deg = 0; for (auto &t : p) for (auto &x : monos[t.m]) if (gens[x.first].k != G_VAR || gens[x.first].idx != vk || x.second < 0 || x.second % 4) exact = false; else deg = max(deg, x.second / 4);
    out.assign(max(M, exact ? deg + 1 : M), mpq_class(0));
    if (exact) { vector<mpq_class> a(deg + 1); for (auto &t : p) { int e = 0; for (auto &x : monos[t.m]) e = x.second / 4; a[e] += t.c.q(); } for (int k = 0; k <= deg; k++) for (int j = deg - 1; j >= k; j--) a[j] += c * a[j + 1]; for (int k = 0; k <= deg; k++) out[k] = a[k]; return true; }
    Poly d = p; sym::Env env; quad cq = (quad) c.get_d(); { mpq_class r = c - mpq_class(c.get_d()); cq += (quad) r.get_d(); } env[vk] = cq; quad f = 1;
    for (int k = 0; k < M; k++) { if (k) { d = diff(d, vk); f *= k; } quad v = d.empty() ? 0 : sym::evalq(to_dag(d), env) / f; double h = (double) v; mpq_class q(h); quad r = v - (quad) h; q += mpq_class((double) r); out[k] = q; }
    return false;
}
bool linear(const Poly &p, int vk, mpq_class &a, mpq_class &b) { a = b = 0; for (auto &t : p) { if (monos[t.m].empty()) b += t.c.q(); else if (monos[t.m].size() == 1 && gens[monos[t.m][0].first].k == G_VAR && gens[monos[t.m][0].first].idx == vk && monos[t.m][0].second == 4) a += t.c.q(); else return false; } return true; }
static unordered_map<uint64_t, Poly> dgen;
static const Poly &diff_gen(int g, int vk);
Poly diff(const Poly &p, int vk) {
    Poly r;
    set<int> gs; for (auto &t : p) for (auto &x : monos[t.m]) gs.insert(x.first);
    for (int g : gs) { const Poly dg = diff_gen(g, vk); if (dg.empty()) continue;
        unordered_map<Mid, Rat> acc;
        for (auto &t : p) for (auto &x : monos[t.m]) if (x.first == g) { Mono m; for (auto y : monos[t.m]) { if (y.first == g) y.second -= 4; if (y.second) m.push_back(y); } Rat c = t.c * Rat((long) x.second) / Rat(4); auto &s = acc[intern(m)]; s = s + c; }
        r = add(r, mul(from_map(acc), dg)); }
    return r;
}
static const Poly &diff_gen(int g, int vk) {
    uint64_t key = (uint64_t) g << 32 | (uint32_t) vk; auto it = dgen.find(key); if (it != dgen.end()) return it->second;
    Gen G = gens[g]; Poly r;
    switch (G.k) {
        case G_VAR: if (G.idx == vk) r = cst(Rat(1)); break;
        case G_PRIME: break;
        case G_FACTOR: r = diff(G.def, vk); break;
        case G_EXP: r = mul(diff(G.def, vk), mono(one_gen(g, 4))); break;
        default: { if (G.args.empty()) throw SymError("derivative of an opaque value"); Poly da = diff(G.args[0], vk); if (da.empty()) break;
            if (G.fn == F_BOYS) r = mul(scal(da, Rat(-1)), mono(one_gen(atom_gen(F_BOYS, G.idx + 1, G.args, true), 4)));
            else if (G.fn == F_GFUN) r = mul(da, sub(mono(one_gen(atom_gen(F_GFUN, G.idx + 1, G.args, true), 4)), mono(one_gen(g, 4))));
            else { double x = sym::diff(gen_dag(g), sym::var(sym::varname[vk], sym::varpos[vk])); r = of(x); } } }
    return dgen[key] = r;
}
}

// ---------------- DAG -> Z3 (branch conditions)
static unordered_map<Id, z3::expr> *zmemo; static unordered_map<Id, vector<Id>> zside;
static z3::expr tz(Id i, vector<z3::expr> &sides, set<Id> &seen) {
    Node n = sym::nodes[i];
    auto &c = zctx();
    static unordered_map<Id, z3::expr> memo;
    static unordered_map<Id, vector<z3::expr>> sidem;
    bool need = !memo.count(i);
    if (!seen.insert(i).second && !need) return memo.at(i);
    z3::expr r(c);
    switch (n.op) {
        case O_CONST: r = c.real_val(sym::consts[n.k].get_str().c_str()); break;
        case O_VAR: r = c.real_const(sym::varname[n.k].c_str()); if (need && sym::varpos[n.k]) sidem[i].push_back(r > 0); if (need && sym::varname[n.k] == "pi") { sidem[i].push_back(r > c.real_val("31415926535/10000000000")); sidem[i].push_back(r < c.real_val("31415926536/10000000000")); } break;
        case O_ADD: r = tz(n.a, sides, seen) + tz(n.b, sides, seen); break;
        case O_SUB: r = tz(n.a, sides, seen) - tz(n.b, sides, seen); break;
        case O_MUL: r = tz(n.a, sides, seen) * tz(n.b, sides, seen); break;
        case O_DIV: r = tz(n.a, sides, seen) / tz(n.b, sides, seen); break;
        case O_NEG: r = -tz(n.a, sides, seen); break;
        case O_FUN: {
            z3::expr a = tz(n.a, sides, seen);
            if (n.fn == F_ABS) { r = z3::ite(a >= 0, a, -a); break; }
            r = c.real_const(("fn" + to_string(i)).c_str());
            if (need) switch (n.fn) { case F_EXP: sidem[i].push_back(r > 0); sidem[i].push_back(r >= 1 + a); sidem[i].push_back((a > 0) == (r > 1)); break; case F_SQRT: sidem[i].push_back(r >= 0); sidem[i].push_back(r * r == a); break; case F_POW: case F_BOYS: case F_GFUN: sidem[i].push_back(r > 0); break; default: break; }
            break; }
    }
    if (need) memo.emplace(i, r);
    for (auto &e : sidem[i]) sides.push_back(e);
    return memo.at(i);
}
namespace sym { z3::expr tozexpr(double d, vector<z3::expr> &sides) { set<Id> seen; return tz(to_id(d), sides, seen); } void add_conditions(z3::solver &s, const vector<Cond> &extra); }

namespace sym {
map<string, string> model_values(const z3::model &m0) {
    z3::model m = m0; map<string, string> mm;
    for (size_t k = 0; k < varname.size(); k++) { if (varname[k] == "pi") continue; z3::expr x = m.eval(zctx().real_const(varname[k].c_str()), true); string t = x.is_numeral() ? x.get_decimal_string(25) : string(Z3_get_numeral_decimal_string(zctx(), x, 25)); mm[varname[k]] = t; }
    return mm;
}
vector<map<string, string>> path_models(int want, const function<z3::expr(int)> &extra) {
    vector<map<string, string>> res; unsigned seed = 4321; if (getenv("VERIF_SEED")) seed += atoi(getenv("VERIF_SEED"));
    static const int scale[8] = {2, 1, 4, 2, 8, 1, 16, 32};       // in units of 1/2
    bool nocond = assumptions.empty() && pathcond.empty();
    for (int a = 0; a < 4 * want + 6 && (int) res.size() < want; a++) {
        z3::solver q(zctx()); z3::params pp(zctx()); pp.set("timeout", 4000u); q.set(pp); add_conditions(q, {});
        z3::expr_vector vals(zctx()), vars(zctx()); map<string, string> mm; bool ok = true;
        for (size_t k = 0; k < varname.size(); k++) {
            if (varname[k] == "pi") continue;
            z3::expr x = zctx().real_const(varname[k].c_str()); bool done = false;
            for (int t = 0; t < 4 && !done; t++) { seed = seed * 1103515245 + 12345; unsigned rr = (seed >> 16) & 0x7fff; long num = 3 + rr % 13; bool neg = !varpos[k] && (rr & 1024); if (!(a & 1) && t) neg = !neg && !varpos[k];
                z3::expr val = zctx().real_val((int)((neg ? -num : num) * (t == 3 ? 1 : scale[a % 8])), t == 3 ? 64 : 16);
                q.push(); q.add(x == val); st_branch.queries++;
                if (nocond || q.check() == z3::sat) done = true; else q.pop(); }
            if (!done) { q.push(); q.add(x >= -64 && x <= 64); if (q.check() != z3::sat) q.pop(); st_branch.queries++; }
        }
        auto r = q.check(); st_branch.queries++;
        if (r != z3::sat) continue;
        z3::model m = q.get_model();
        if (extra) { z3::expr e = extra(a); for (size_t k = 0; k < varname.size(); k++) { if (varname[k] == "pi") continue; z3::expr x = zctx().real_const(varname[k].c_str()); vars.push_back(x); vals.push_back(m.eval(x, true)); }
            z3::expr e2 = e.substitute(vars, vals).simplify(); st_eq.queries++; if (e2.is_false()) continue; if (!e2.is_true()) { z3::solver q2(zctx()); q2.set(pp); q2.add(e2); if (q2.check() == z3::unsat) continue; } }
        mm = model_values(m); bool dup = false; for (auto &o : res) if (o == mm) dup = true; if (!dup) res.push_back(mm); else if (mm.empty()) break;
    }
    return res;
}
}
EqResult decide_equal(const vector<Obl> &obls) {
    using namespace sym;
    EqResult res; auto t0 = chrono::steady_clock::now();
    size_t batch = 64;
    for (size_t i0 = 0; i0 < obls.size(); i0 += batch) {
        size_t i1 = min(obls.size(), i0 + batch);
        vector<z3::expr> dis; vector<size_t> owner; vector<pair<poly::Poly, poly::Poly>> raw;
        for (size_t i = i0; i < i1; i++) {
            poly::Poly a, b;
            if (!is_handle(obls[i].code) && !std::isfinite(obls[i].code)) { res.proved = false; res.label = obls[i].label + " (non-finite)"; res.models.push_back({}); return res; }
            a = poly::of(obls[i].code); b = poly::of(obls[i].oracle);
            size_t n0 = dis.size(); poly::disequalities(a, b, dis, &raw); for (size_t k = n0; k < dis.size(); k++) owner.push_back(i);
        }
        if (dis.empty()) continue;
        z3::solver s(zctx()); z3::params p(zctx()); p.set("timeout", 120000u); s.set(p);
        z3::expr_vector v(zctx()); for (auto &e : dis) v.push_back(e); s.add(z3::mk_or(v));
        auto r = s.check(); st_eq.queries++;
        if (r == z3::unsat) { st_eq.unsat++; continue; }
        // find the offending obligation and models within the assumptions
        vector<pair<size_t, size_t>> bad;
        for (size_t k = 0; k < dis.size(); k++) { auto d = poly::sub(raw[k].first, raw[k].second); if (!d.empty()) bad.push_back({owner[k], k}); }
        if (bad.empty()) { st_eq.unknown++; throw SymError("solver did not confirm an identity: " + obls[owner[0]].label + (r == z3::unknown ? " (unknown)" : " (sat)")); }
        st_eq.sat++;
        if (getenv("VERIF_DUMP")) { fprintf(stderr, "%s\n  %s\n  %s\n", obls[bad[0].first].label.c_str(), poly::str(raw[bad[0].second].first, 30).c_str(), poly::str(raw[bad[0].second].second, 30).c_str()); poly::dump_atoms(); }
        res.proved = false; res.label = obls[bad[0].first].label;
        // candidate models: values of the variables consistent with the path, then the solver decides the disequality there
        res.models = sym::path_models(6, [&](int k) { return dis[bad[k % bad.size()].second]; });
        if (res.models.empty()) { // no generic point: is the difference reachable at all on this path?
            z3::solver q(zctx()); z3::params pp(zctx()); pp.set("timeout", 60000u); q.set(pp); add_conditions(q, {}); z3::expr_vector w(zctx()); for (auto &b : bad) w.push_back(dis[b.second]); q.add(z3::mk_or(w)); auto rc = q.check(); st_eq.queries++;
            if (rc == z3::unsat) { res.proved = true; st_eq.unsat++; continue; }
            if (rc == z3::sat) res.models.push_back(sym::model_values(q.get_model()));
            else res.inconclusive = true;
        }
        if (!res.models.empty()) res.model = res.models[0];
        st_eq.secs += chrono::duration<double>(chrono::steady_clock::now() - t0).count();
        return res;
    }
    st_eq.secs += chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    return res;
}
