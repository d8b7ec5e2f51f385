// Symbolic runtime: DAG of reals, exact arithmetic, path exploration.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <algorithm>
#include <set>
#include <map>
#include <dlfcn.h>
#include <pthread.h>
#include <cstring>
using namespace std;

z3::context &zctx();
namespace sym {
vector<Node> nodes;
vector<mpq_class> consts;
vector<string> varname;
vector<char> varpos;
double tiny = 1.01e-12;
long n_tiny = 0, n_forks = 0, n_steps = 0, n_paths = 0, n_snapped = 0;
bool exact_mode = true, simplify_cond = false;
vector<Cond> assumptions, pathcond;
SolverStats st_eq, st_branch;

struct NodeHash { size_t operator()(const Node &n) const {
    uint64_t h = (uint64_t) n.op * 0x9E3779B97F4A7C15ull; h ^= ((uint64_t) n.a << 32 | n.b) * 0xC2B2AE3D27D4EB4Full; h ^= ((uint64_t) n.fn << 40 ^ (uint64_t)(uint32_t) n.k) * 0x165667B19E3779F9ull;
    return h ^ (h >> 29); } };
struct NodeEq { bool operator()(const Node &x, const Node &y) const { return x.op == y.op && x.fn == y.fn && x.k == y.k && x.a == y.a && x.b == y.b; } };
static unordered_map<Node, Id, NodeHash, NodeEq> table;
static unordered_map<string, int> ctable, vtable;

static Id mk(Op op, Id a = 0, Id b = 0, int fn = 0, int k = 0) {
    Node n{op, (uint16_t) fn, k, a, b};
    auto it = table.find(n); if (it != table.end()) return it->second;
    Id id = nodes.size(); nodes.push_back(n); table.emplace(n, id); n_steps++;
    return id;
}
static bool as_double(const mpq_class &q, double &d) {
    d = q.get_d();                      // truncation
    if (!std::isfinite(d)) return false;
    return mpq_class(d) == q;
}
static Id mkconst(const mpq_class &q) {
    string s = q.get_str(62);
    auto it = ctable.find(s); int k;
    if (it != ctable.end()) k = it->second; else { k = consts.size(); consts.push_back(q); ctable.emplace(s, k); }
    return mk(O_CONST, 0, 0, 0, k);
}
double rat(const mpq_class &q0) { mpq_class q(q0); q.canonicalize(); double d; if (as_double(q, d)) return d; return mk_handle(mkconst(q)); }
double rat(long n, long d) { mpq_class q(n, d); return rat(q); }
Id to_id(double d) {
    if (is_handle(d)) return handle_id(d);
    if (!std::isfinite(d)) throw SymError("non-finite value enters a symbolic expression");
    return mkconst(mpq_class(d));
}
double from_id(Id i) { if (nodes[i].op == O_CONST) { double d; if (as_double(consts[nodes[i].k], d)) return d; } return mk_handle(i); }
bool isconst(double d, mpq_class &q) {
    if (!is_handle(d)) { if (!std::isfinite(d)) return false; q = mpq_class(d); return true; }
    const Node &n = nodes[handle_id(d)]; if (n.op == O_CONST) { q = consts[n.k]; return true; } return false;
}
int var_index(const string &name) { auto it = vtable.find(name); return it == vtable.end() ? -1 : it->second; }
double var(const string &name, bool positive) {
    auto it = vtable.find(name); int k;
    if (it != vtable.end()) k = it->second; else { k = varname.size(); varname.push_back(name); varpos.push_back(positive); vtable.emplace(name, k); }
    return mk_handle(mk(O_VAR, 0, 0, 0, k));
}
static bool same(double x, double y) { uint64_t a, b; memcpy(&a, &x, 8); memcpy(&b, &y, 8); return a == b; }
static inline double op2(Op op, double x, double y);
double fun(Fn f, double a, double b, int k) {
    if (f == F_SK && k == 0) { double e = __sym_exp(a); return __sym_fneg(op2(O_DIV, e, op2(O_ADD, 1.0, e))); }          // S_0(x) = -e^x/(1+e^x)
    if (f == F_SK && !is_handle(a) && a == 0 && k % 2 == 0 && k <= 6) { double p = var("pi", true), r = rat(k == 2 ? -1 : k == 4 ? -7 : -31, k == 2 ? 12 : k == 4 ? 720 : 30240); for (int i = 0; i < k; i++) r = op2(O_MUL, r, p); return r; }
    if (!is_handle(a) && a == 0) { if (f == F_BOYS || f == F_GFUN) return rat(1, 2 * k + 1); if (f == F_BESSEL) return k == 0; if (f == F_DAWSON) return 0; if (f == F_JB) { mpz_class z = 1; for (int i = 3; i <= 2 * k + 1; i += 2) z *= i; return rat(mpq_class(1, z)); } }
    return mk_handle(mk(O_FUN, to_id(a), (f == F_POW || f == F_UF) ? to_id(b) : 0, f, k)); }

double opaque(double a, bool byid) { mpq_class q; if (isconst(a, q)) return a; return mk_handle(mk(O_FUN, to_id(a), 0, F_OPAQUE, byid)); }
static map<double, double> snaps;
void snap(double d, double e) { double lo = d, hi = d; for (int k = 0; k < 16; k++) { lo = nextafter(lo, -INFINITY); hi = nextafter(hi, INFINITY); } for (double x = lo; x <= hi; x = nextafter(x, INFINITY)) snaps[x] = e; }

string str(double d, int depth) {
    if (!is_handle(d)) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
    const Node &n = nodes[handle_id(d)];
    if (n.op == O_CONST) return consts[n.k].get_str();
    if (n.op == O_VAR) return varname[n.k];
    if (depth <= 0) return "...";
    string a = str(mk_handle(n.a), depth - 1), b;
    if (n.op != O_NEG && !(n.op == O_FUN && n.fn != F_POW)) b = str(mk_handle(n.b), depth - 1);
    switch (n.op) {
        case O_ADD: return "(" + a + "+" + b + ")"; case O_SUB: return "(" + a + "-" + b + ")"; case O_MUL: return a + "*" + b; case O_DIV: return "(" + a + "/" + b + ")";
        case O_NEG: return "-" + a; default: return "f" + to_string(n.fn) + "[" + to_string(n.k) + "](" + a + (b.empty() ? "" : "," + b) + ")";
    }
}

// ------------------------------------------------------------------ arithmetic
static bool inexact_add(double x, double y, double r) { double bb = r - x; return ((x - (r - bb)) + (y - bb)) != 0; }
static double c_op(Op op, double x, double y) {
    double r;
    switch (op) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; default: r = x / y; }
    if (!exact_mode || !std::isfinite(r)) return r;
    bool inex;
    switch (op) {
        case O_ADD: inex = inexact_add(x, y, r); break;
        case O_SUB: inex = inexact_add(x, -y, r); break;
        case O_MUL: inex = std::fma(x, y, -r) != 0 || (r != 0 && std::fabs(r) < 1e-250) || (r == 0 && x != 0 && y != 0); break;
        default: inex = std::fma(r, y, -x) != 0 || (r != 0 && std::fabs(r) < 1e-250); break;
    }
    if (!inex) return r;
    mpq_class a(x), b(y), c;
    switch (op) { case O_ADD: c = a + b; break; case O_SUB: c = a - b; break; case O_MUL: c = a * b; break; default: c = a / b; }
    return rat(c);
}
// inexact mode: k1*v + k2*v, (k*v)*c, (k*v)/c fold into machine arithmetic on the factor
static bool lin(double x, double &k, Id &v) {
    if (!is_handle(x)) return false; Id i = handle_id(x); const Node &n = nodes[i]; k = 1; v = i; if (n.op == O_CONST) return false;
    if (n.op == O_NEG) { if (!lin(mk_handle(n.a), k, v)) return false; k = -k; return true; }
    if (n.op == O_MUL) for (int s = 0; s < 2; s++) { Id c = s ? n.b : n.a, o = s ? n.a : n.b; if (nodes[c].op == O_CONST && nodes[o].op != O_CONST) { double d = from_id(c); if (!is_handle(d)) { k = d; v = o; return true; } } }
    return true; }
static bool lin_op(Op op, double x, double y, double &r) {
    double k1, k2; Id v1, v2; bool l1 = lin(x, k1, v1), l2 = lin(y, k2, v2); double k; Id v;
    if (l1 && l2) { if (v1 != v2 || op == O_MUL) return false; v = v1; if (op == O_DIV) { r = k1 / k2; return true; } k = op == O_ADD ? k1 + k2 : k1 - k2; }
    else if (op == O_MUL && l1 && !is_handle(y)) { k = k1 * y; v = v1; } else if (op == O_MUL && l2 && !is_handle(x)) { k = k2 * x; v = v2; } else if (op == O_DIV && l1 && !is_handle(y)) { k = k1 / y; v = v1; } else return false;
    if (!std::isfinite(k)) return false; r = k == 0 ? 0.0 : k == 1 ? mk_handle(v) : mk_handle(mk(O_MUL, to_id(k), v)); return true; }
static double s_op(Op op, double x, double y) {
    mpq_class p, q; if (!exact_mode) { double r; if (lin_op(op, x, y, r)) return r; }
    bool cx = isconst(x, p), cy = isconst(y, q);
    if (!is_handle(x) && !cx) { if (op == O_DIV) throw SymError("infinite/NaN operand"); throw SymError("infinite/NaN operand meets a symbolic value"); }
    if (!is_handle(y) && !cy) throw SymError("infinite/NaN operand meets a symbolic value");
    if (cx && cy) {
        if (op == O_DIV && q == 0) return (p > 0 ? INFINITY : p < 0 ? -INFINITY : NAN);
        mpq_class c; switch (op) { case O_ADD: c = p + q; break; case O_SUB: c = p - q; break; case O_MUL: c = p * q; break; default: c = p / q; }
        return rat(c);
    }
    switch (op) {
        case O_ADD: if (cx && p == 0) return y; if (cy && q == 0) return x; break;
        case O_SUB: if (cy && q == 0) return x; if (same(x, y)) return 0.0; if (cx && p == 0) return mk_handle(mk(O_NEG, to_id(y))); break;
        case O_MUL: if ((cx && p == 0) || (cy && q == 0)) return 0.0; if (cx && p == 1) return y; if (cy && q == 1) return x; break;
        case O_DIV: if (cy && q == 0) throw SymError("division of a symbolic value by zero"); if (cx && p == 0) return 0.0; if (cy && q == 1) return x; if (same(x, y)) return 1.0;
            if (cy) return s_op(O_MUL, x, rat(1 / q)); break;
        default: break;
    }
    Id a = to_id(x), b = to_id(y);
    if ((op == O_ADD || op == O_MUL) && a > b) swap(a, b);
    return mk_handle(mk(op, a, b));
}
static inline double op2(Op op, double x, double y) {
    if (!is_handle(x) && !is_handle(y)) return c_op(op, x, y);
    return s_op(op, x, y);
}

// ------------------------------------------------------------------ quad evaluation
quad boysq(int n, quad x) {
    if (x < 0) throw SymError("boys of negative argument");
    if (x > 500) {   // asymptotic: Gamma(n+1/2)/(2 x^{n+1/2}); remainder < e^-500
        quad g = sqrtq(M_PIq); for (int i = 1; i <= n; i++) g *= (2 * i - 1) / (quad) 2; return g / (2 * powq(x, n) * sqrtq(x));
    }
    quad t = 1 / (quad)(2 * n + 1), s = t; for (int i = 1; i < 4000; i++) { t *= 2 * x / (2 * n + 2 * i + 1); s += t; if (t < s * 1e-36Q) break; }
    return expq(-x) * s;
}
quad gfunq(int n, quad x) {
    if (x > 600) { // e^{-x} int t^{2n} e^{x t^2}: series 1/(2x) * sum
        quad s = 0, t = 1 / (2 * x); for (int k = 0; k < 60; k++) { s += t; quad t2 = t * (2 * k + 1 - 2 * n) / (2 * x); if (fabsq(t2) > fabsq(t)) break; t = t2; if (t == 0) break; } return s; }
    quad t = 1, s = 1 / (quad)(2 * n + 1); for (int i = 1; i < 6000; i++) { t *= x / i; quad u = t / (2 * n + 2 * i + 1); s += u; if (u < s * 1e-36Q && i > x) break; }
    return expq(-x) * s;
}
quad besselq(int n, quad x) {
    if (x == 0) return n == 0 ? 1 : 0;
    if (x > 2000) { // finite asymptotic sum (exact up to e^{-2x})
        quad s = 0, t = 1; for (int k = 0; k <= n; k++) { s += t; t *= -(quad)(n + k + 1) * (n - k) / ((k + 1) * 2 * x); } return s / (2 * x); }
    quad t = 1; for (int i = 1; i <= n; i++) t *= x / (2 * i + 1);
    quad s = t; for (int k = 1; k < 9000; k++) { t *= x * x / 2 / ((quad) k * (2 * n + 2 * k + 1)); s += t; if (t < s * 1e-36Q) break; }
    return expq(-x) * s;
}
quad jbq(int n, quad s) { quad t = 1; for (int i = 3; i <= 2 * n + 1; i += 2) t /= i; quad r = t; for (int k = 1; k < 20000; k++) { t *= s / ((quad) 2 * k * (2 * n + 2 * k + 1)); r += t; if (t < r * 1e-36Q) break; } return r; }
quad dawsonq(quad x) { return x * gfunq(0, x * x); }
quad skq(int k, quad x) { // sum_{n>=1} (-1)^n exp(n x)/n^k, x<=0
    quad s = 0; quad e = expq(x);
    if (x < -0.05Q) { quad t = 1; for (int n = 1; n < 4000; n++) { t *= -e; quad u = t / powq(n, k); s += u; if (fabsq(t) < 1e-36Q) break; } return s; }
    // alternating series acceleration (Cohen-Villegas-Zagier)
    int N = 60; quad d = powq(3 + sqrtq(8), N); d = (d + 1 / d) / 2; quad b = -1, c = -d;
    for (int j = 0; j < N; j++) { c = b - c; s += c * expq((j + 1) * x) / powq(j + 1, k); b = (quad)(j + N) * (j - N) * b / ((j + 0.5Q) * (j + 1)); }
    return -s / d;
}
static unordered_map<Id, quad> *g_memo;
static const Env *g_env;
static quad evr(Id i) {
    auto it = g_memo->find(i); if (it != g_memo->end()) return it->second;
    Node n = nodes[i]; quad r = 0;
    switch (n.op) {
        case O_CONST: { const mpq_class &q = consts[n.k]; mpf_class f(q, 160); quad v = f.get_d(); mpf_class r1 = f - mpf_class(f.get_d(), 160); quad v2 = r1.get_d(); mpf_class r2 = r1 - mpf_class(r1.get_d(), 160); r = v + v2 + (quad) r2.get_d(); break; }
        case O_VAR: { auto e = g_env->find(n.k); if (varname[n.k] == "pi") r = M_PIq; else if (e == g_env->end()) throw SymError("evalq: no value for " + varname[n.k]); else r = e->second; break; }
        case O_ADD: r = evr(n.a) + evr(n.b); break; case O_SUB: r = evr(n.a) - evr(n.b); break; case O_MUL: r = evr(n.a) * evr(n.b); break; case O_DIV: r = evr(n.a) / evr(n.b); break;
        case O_NEG: r = -evr(n.a); break;
        case O_FUN: { quad a = evr(n.a); switch (n.fn) {
            case F_EXP: r = expq(a); break; case F_SQRT: r = sqrtq(a); break; case F_POW: r = powq(a, evr(n.b)); break; case F_LOG: r = logq(a); break; case F_ERF: r = erfq(a); break; case F_ERFC: r = erfcq(a); break;
            case F_ABS: r = fabsq(a); break; case F_BOYS: r = boysq(n.k, a); break; case F_GFUN: r = gfunq(n.k, a); break; case F_BESSEL: r = besselq(n.k, a); break; case F_SK: r = skq(n.k, a); break; case F_JB: r = jbq(n.k, a); break;
            case F_DAWSON: r = dawsonq(a); break; case F_SIN: r = sinq(a); break; case F_COS: r = cosq(a); break; case F_ATAN: r = atanq(a); break; case F_CBRT: r = cbrtq(a); break; case F_OPAQUE: r = a; break; case F_FLOOR: r = floorq(a); break;
            default: throw SymError("evalq: uninterpreted function"); } break; }
    }
    (*g_memo)[i] = r; return r;
}
quad evalq(double d, const Env &env, unordered_map<Id, quad> *memo) {
    if (!is_handle(d)) return d;
    unordered_map<Id, quad> m; auto *sm = g_memo; auto *se = g_env; g_memo = memo ? memo : &m; g_env = &env;
    quad r; try { r = evr(handle_id(d)); } catch (...) { g_memo = sm; g_env = se; throw; }
    g_memo = sm; g_env = se; return r;
}

// ------------------------------------------------------------------ differentiation / substitution
static unordered_map<uint64_t, double> dmemo;
double diff(double d, double v) {
    if (!is_handle(d)) return 0.0;
    Id i = handle_id(d), vi = handle_id(v); Node n = nodes[i];
    if (i == vi) return 1.0;
    if (n.op == O_CONST || n.op == O_VAR) return 0.0;
    uint64_t key = (uint64_t) i << 32 | vi; auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
    double a = from_id(n.a), r = 0; double da = diff(a, v);
    auto M = [](double x, double y) { return op2(O_MUL, x, y); }; auto A = [](double x, double y) { return op2(O_ADD, x, y); };
    auto SB = [](double x, double y) { return op2(O_SUB, x, y); }; auto DV = [](double x, double y) { return op2(O_DIV, x, y); };
    switch (n.op) {
        case O_ADD: r = A(da, diff(from_id(n.b), v)); break;
        case O_SUB: r = SB(da, diff(from_id(n.b), v)); break;
        case O_MUL: r = A(M(da, from_id(n.b)), M(a, diff(from_id(n.b), v))); break;
        case O_DIV: { double b = from_id(n.b), db = diff(b, v); r = DV(da, b); if (is_handle(db) || db != 0) r = SB(r, DV(M(d, db), b)); break; }
        case O_NEG: r = __sym_fneg(da); break;
        case O_FUN: {
            if (!is_handle(da) && da == 0 && n.fn != F_UF) { r = 0; break; }
            double f = 0;
            switch (n.fn) {
                case F_EXP: f = d; break;
                case F_SQRT: f = DV(0.5, d); break;
                case F_POW: f = M(from_id(n.b), DV(d, a)); break;
                case F_LOG: f = DV(1.0, a); break;
                case F_ERF: f = M(DV(2.0, __sym_sqrt(var("pi", true))), __sym_exp(__sym_fneg(M(a, a)))); break;
                case F_BOYS: f = __sym_fneg(fun(F_BOYS, a, 0, n.k + 1)); break;
                case F_GFUN: f = SB(fun(F_GFUN, a, 0, n.k + 1), d); break;
                case F_JB: f = M(0.5, fun(F_JB, a, 0, n.k + 1)); break;
                case F_SK: f = fun(F_SK, a, 0, n.k - 1); break;
                case F_ABS: f = DV(a, d); break;
                case F_DAWSON: f = SB(1.0, M(M(2.0, a), d)); break;
                case F_BESSEL: { // (e^-x i_n)' = e^-x (i_{n+1} + n/x i_n) - e^-x i_n
                    f = SB(fun(F_BESSEL, a, 0, n.k + 1), d); if (n.k) f = A(f, DV(M(n.k, d), a)); break; }
                default: throw SymError("diff: function without derivative rule");
            }
            r = M(f, da); break; }
        default: break;
    }
    dmemo[key] = r; return r;
}
static double sb(Id i, const unordered_map<int, double> &m, unordered_map<Id, double> &memo) {
    auto it = memo.find(i); if (it != memo.end()) return it->second;
    Node n = nodes[i]; double r;
    switch (n.op) {
        case O_CONST: r = from_id(i); break;
        case O_VAR: { auto e = m.find(n.k); r = e == m.end() ? mk_handle(i) : e->second; break; }
        case O_NEG: r = __sym_fneg(sb(n.a, m, memo)); break;
        case O_FUN: { double a = sb(n.a, m, memo); switch (n.fn) { case F_EXP: r = __sym_exp(a); break; case F_SQRT: r = __sym_sqrt(a); break; case F_POW: r = __sym_pow(a, from_id(n.b)); break; case F_LOG: r = __sym_log(a); break; case F_ERF: r = __sym_erf(a); break; case F_ABS: r = __sym_fabs(a); break;
            default: r = fun((Fn) n.fn, a, n.fn == F_UF ? sb(n.b, m, memo) : 0, n.k); } break; }
        default: { double a = sb(n.a, m, memo), b = sb(n.b, m, memo); r = op2(n.op, a, b); }
    }
    memo[i] = r; return r;
}
double subst(double d, const unordered_map<int, double> &m) { if (!is_handle(d)) return d; unordered_map<Id, double> memo; return sb(handle_id(d), m, memo); }

// ------------------------------------------------------------------ path exploration
struct Choice { bool isfloor; int64_t val; vector<int64_t> tried; bool forced; };
static vector<Choice> stack_; static size_t depth_; static bool exploring = false;
bool in_explore() { return exploring; }
void assume(double x, int rel) { assumptions.push_back({x, rel}); }
void clear_assumptions() { assumptions.clear(); }


z3::expr tozexpr(double d, vector<z3::expr> &sides);
static z3::expr condz(const Cond &c, vector<z3::expr> &sides) {
    z3::expr x = tozexpr(c.x, sides);
    switch (c.rel) { case 0: return x == 0; case 1: return x > 0; case 2: return x >= 0; case 3: return x < 0; case 4: return x <= 0; default: return x != 0; }
}
void add_conditions(z3::solver &s, const vector<Cond> &extra) {
    vector<z3::expr> sides; vector<z3::expr> cs;
    for (auto *l : {(const vector<Cond> *) &assumptions, (const vector<Cond> *) &pathcond, &extra}) for (auto &c : *l) cs.push_back(condz(c, sides));
    for (auto &e : sides) s.add(e); for (auto &e : cs) s.add(e);
}
static int query(const vector<Cond> &extra, double *wantval = nullptr, int64_t *floorval = nullptr, const vector<int64_t> *excl = nullptr) {
    auto t0 = chrono::steady_clock::now();
    z3::solver s(zctx()); z3::params p(zctx()); p.set("timeout", 4000u); s.set(p);
    add_conditions(s, extra);
    if (wantval) {
        vector<z3::expr> sides; z3::expr x = tozexpr(*wantval, sides); for (auto &e : sides) s.add(e);
        z3::expr k = zctx().int_const("__k"); z3::expr kr = z3::to_real(k);
        s.add(kr <= x && x < kr + 1);
        if (excl) for (auto v : *excl) s.add(k != zctx().int_val((int64_t) v));
        auto r = s.check(); st_branch.queries++;
        st_branch.secs += chrono::duration<double>(chrono::steady_clock::now() - t0).count();
        if (r == z3::sat) { st_branch.sat++; z3::expr v = s.get_model().eval(k, true); int64_t iv; if (!v.is_numeral_i64(iv)) throw SymError("floor model"); *floorval = iv; return 1; }
        if (r == z3::unsat) { st_branch.unsat++; return 0; }
        st_branch.unknown++; return -1;
    }
    auto r = s.check(); st_branch.queries++;
    st_branch.secs += chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    if (r == z3::sat) { st_branch.sat++; return 1; } if (r == z3::unsat) { st_branch.unsat++; return 0; } st_branch.unknown++; return -1;
}
static Cond mkcond(double d, int mask) { // sign(d) in mask {1:=,2:>,4:<}
    static const int relof[8] = {-1, 0, 1, 2, 3, 4, 5, -1}; return {d, relof[mask]}; }

static map<pair<uint64_t, int>, int> pmemo; static map<uint64_t, int64_t> fmemo;      // decisions already taken on this path
static uint64_t hkey(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static int choose_bool0(double d, int mask); static int64_t choose_floor0(double x);
static int choose_bool(double d, int mask) { auto k = make_pair(hkey(d), mask); auto it = pmemo.find(k); if (it != pmemo.end()) return it->second; int r = choose_bool0(d, mask); pmemo[k] = r; pmemo[{k.first, 7 - mask}] = !r; return r; }
static int64_t choose_floor(double x) { auto it = fmemo.find(hkey(x)); if (it != fmemo.end()) return it->second; int64_t r = choose_floor0(x); fmemo[hkey(x)] = r; return r; }
static int choose_bool0(double d, int mask) {
    if (simplify_cond) { try { d = poly::to_dag(poly::of(d)); } catch (SymError &) { } }
    if (!exploring) throw SymError("symbolic branch outside explore(): " + str(d));
    if (depth_ < stack_.size()) { Choice &c = stack_[depth_++]; pathcond.push_back(mkcond(d, c.val ? mask : 7 - mask)); return c.val; }
    int t = query({mkcond(d, mask)}), f = query({mkcond(d, 7 - mask)});
    if (t == 0 && f == 0) throw PathAbort{"infeasible path"};
    Choice c{false, t != 0, {}, t == 0 || f == 0};
    if (!c.forced) n_forks++;
    if (getenv("SYM_TRACE")) fprintf(stderr, "branch %s mask %d: t=%d f=%d\n", str(d).c_str(), mask, t, f);
    stack_.push_back(c); depth_++;
    pathcond.push_back(mkcond(d, c.val ? mask : 7 - mask));
    return c.val;
}
static int64_t choose_floor0(double x) {
    if (!exploring) throw SymError("symbolic float-to-int conversion outside explore()");
    if (depth_ < stack_.size() && stack_[depth_].val != INT64_MIN) { Choice &c = stack_[depth_++]; int64_t v = c.val; pathcond.push_back({op2(O_SUB, x, (double) v), 2}); pathcond.push_back({op2(O_SUB, x, (double)(v + 1)), 3}); return v; }
    vector<int64_t> tried; if (depth_ < stack_.size()) tried = stack_[depth_].tried;
    int64_t v; int r = query({}, &x, &v, &tried);
    if (r == 0) { if (depth_ < stack_.size()) stack_.resize(depth_); throw PathAbort{"exhausted"}; }
    if (r < 0) throw SymError("solver could not enumerate an integer conversion");
    if (depth_ == stack_.size()) stack_.push_back({true, v, {v}, false}); else { stack_[depth_].val = v; stack_[depth_].tried.push_back(v); n_forks++; }
    depth_++;
    pathcond.push_back({op2(O_SUB, x, (double) v), 2}); pathcond.push_back({op2(O_SUB, x, (double)(v + 1)), 3});
    return v;
}
function<void(double, const mpq_class &)> on_threshold;
int explore(const function<void()> &body, int maxpaths) {
    stack_.clear(); int n = 0;
    for (;;) {
        depth_ = 0; pathcond.clear(); pmemo.clear(); fmemo.clear(); exploring = true;
        bool exhausted = false;
        try { body(); } catch (PathAbort &p) { if (p.why == "exhausted") exhausted = true; else if (p.why != "infeasible path") { exploring = false; throw; } else exhausted = true; } catch (...) { exploring = false; throw; }
        exploring = false;
        if (!exhausted) { n++; n_paths++; }
        // backtrack: a Boolean choice flips once, an integer choice asks the solver for another value
        while (!stack_.empty() && stack_.back().forced) stack_.pop_back();
        if (stack_.empty()) break;
        Choice &c = stack_.back();
        if (c.isfloor) c.val = INT64_MIN; else { c.val = !c.val; c.forced = true; }
        if (n >= maxpaths) throw SymError("path budget exhausted");
    }
    pathcond.clear();
    return n;
}

// sign of d if the engine can tell (poly normal form), else 2
static int quick_sign(double d) {
    mpq_class q;
    if (isconst(d, q)) return ::sgn(q);
    try { auto p = poly::of(d); if (p.empty() || poly::is_zero(p)) return 0; int s = poly::easy_sign(p); if (s) return s; } catch (SymError &) { }
    try { static const Env none; quad v = evalq(d, none); if (fabsq(v) > 1e-25Q) return v > 0 ? 1 : -1; return 0; } catch (SymError &) { }   // closed expression (pi, square roots)
    return 2;
}
static bool is_abs_of(double x, double &e) {
    if (!is_handle(x)) return false; const Node &n = nodes[handle_id(x)];
    if (n.op == O_FUN && n.fn == F_ABS) { e = from_id(n.a); return true; }
    if (n.op == O_FUN && n.fn == F_SQRT) { e = x; return true; } return false;
}
}
using namespace sym;
extern "C" {
double __sym_fadd(double x, double y) { return op2(O_ADD, x, y); }
double __sym_fsub(double x, double y) { return op2(O_SUB, x, y); }
double __sym_fmul(double x, double y) { return op2(O_MUL, x, y); }
double __sym_fdiv(double x, double y) { return op2(O_DIV, x, y); }
double __sym_fneg(double x) {
    if (!is_handle(x)) return -x; Id i = handle_id(x); Node n = nodes[i];
    if (n.op == O_CONST) return rat(-consts[n.k]); if (n.op == O_NEG) return from_id(n.a); if (n.op == O_SUB) return mk_handle(mk(O_SUB, n.b, n.a));
    return mk_handle(mk(O_NEG, i)); }
// literal constants: decimal/compiler-folded literals denote the simple real they round
double __sym_const(double c) {
    if (!exact_mode || !std::isfinite(c) || c == 0) return c;
    static unordered_map<double, double> memo; auto it = memo.find(c); if (it != memo.end()) return it->second;
    double a = fabs(c), res = c; bool hit = false;
    // decimal literal with few digits
    { char b[64]; snprintf(b, 64, "%.12e", a); if (strtod(b, 0) == a) { char *e = strchr(b, 'e'); int ex = atoi(e + 1); *e = 0; string m; for (char *p = b; *p; p++) if (*p != '.') m += *p; mpz_class z(m); ex -= 12; mpq_class q(z);
        mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, abs(ex)); if (ex > 0) q *= t; else q /= t; q.canonicalize(); if (c < 0) q = -q; res = rat(q); hit = true; } }
    if (!hit) {
        struct B { long double v; int pi2; int rad; }; // value = pi^(pi2/2) * sqrt(rad)
        static const long double P = 3.14159265358979323846264338327950288L;
        static vector<B> bases; if (bases.empty()) for (int p : {0, 2, 1, -1, -2, 3, -3, 4}) for (int r : {1, 2, 3, 5, 6, 7}) bases.push_back({powl(P, p / 2.0L) * sqrtl((long double) r), p, r});
        if (bases.back().pi2 != 12) for (int p : {6, 8, 12}) bases.push_back({powl(P, p / 2.0L), p, 1});
        for (auto &b : bases) {
            long double x = a / b.v; // continued fraction
            long n0 = 0, d0 = 1, n1 = 1, d1 = 0; long double y = x; bool ok = false;
            for (int k = 0; k < 12; k++) { long double f = floorl(y); if (f > 1e6) break; long n2 = (long) f * n1 + n0, d2 = (long) f * d1 + d0; if (n2 > 2000000 || d2 > 4000) break; n0 = n1; d0 = d1; n1 = n2; d1 = d2;
                if (d1 && n1 && fabsl((long double) n1 / d1 - x) <= (b.pi2 > 4 ? 9e-16L : 3.4e-16L) * x) { ok = true; break; } if (y - f < 1e-17L) break; y = 1 / (y - f); }
            if (!ok || (double) d1 * n1 > 4e6) continue;
            double r = rat(n1, d1); double pi = var("pi", true);
            if (b.pi2 % 2 == 0) { for (int k = 0; k < abs(b.pi2) / 2; k++) r = b.pi2 > 0 ? op2(O_MUL, r, pi) : op2(O_DIV, r, pi); }
            else r = op2(O_MUL, r, __sym_pow(pi, b.pi2 / 2.0));
            if (b.rad != 1) r = op2(O_MUL, r, __sym_sqrt(b.rad));
            if (c < 0) r = __sym_fneg(r); res = r; hit = true; break;
        }
    }
    if (hit && (is_handle(res) || res != c)) n_snapped++;
    memo[c] = res; return res;
}
double __sym_cload(double c) { if (snaps.empty()) return c; auto it = snaps.find(c); return it == snaps.end() ? c : it->second; }
int __sym_fcmp(int pred, double x, double y) {
    if (!is_handle(x) && !is_handle(y)) {
        bool uno = std::isnan(x) || std::isnan(y); if (uno) return (pred & 8) != 0;
        int m = x == y ? 1 : x > y ? 2 : 4; return (pred & m) != 0; }
    if ((!is_handle(x) && std::isnan(x)) || (!is_handle(y) && std::isnan(y))) return (pred & 8) != 0;
    int mask = pred & 7; if (mask == 7) return 1; if (mask == 0) return 0;
    if (!is_handle(x) && std::isinf(x)) return (mask & (x > 0 ? 2 : 4)) != 0;
    if (!is_handle(y) && std::isinf(y)) return (mask & (y > 0 ? 4 : 2)) != 0;
    mpq_class c; double e;
    if (isconst(y, c) && c > 0 && c <= tiny && is_abs_of(x, e)) { int s = quick_sign(e) == 0 ? 4 : 2; mpq_class k; if (s == 2) { if (isconst(e, k)) s = abs(k) > c ? 2 : abs(k) == c ? 1 : 4; else n_tiny++; } return (mask & s) != 0; }
    if (isconst(x, c) && c > 0 && c <= tiny && is_abs_of(y, e)) { int s = quick_sign(e) == 0 ? 2 : 4; mpq_class k; if (s == 4) { if (isconst(e, k)) s = abs(k) > c ? 4 : abs(k) == c ? 1 : 2; else n_tiny++; } return (mask & s) != 0; }
    double d = op2(O_SUB, x, y); int s = quick_sign(d);
    if (s == 2 && on_threshold && exploring && tiny > 0) { static const mpq_class lim(1, 10); static set<pair<Id, double>> seen; for (int k = 0; k < 2; k++) if (isconst(k ? x : y, c) && c != 0 && abs(c) <= lim && seen.insert({to_id(k ? y : x), c.get_d()}).second) on_threshold(k ? y : x, c); }
    if (s != 2) return (mask & (s == 0 ? 1 : s > 0 ? 2 : 4)) != 0;
    return choose_bool(d, mask);
}
int64_t __sym_fptosi(double x) {
    if (!is_handle(x)) return (int64_t) x;
    mpq_class q; if (isconst(x, q)) { mpz_class z = q.get_num() / q.get_den(); return z.get_si(); }
    int s = quick_sign(x); if (s == 2) s = choose_bool(x, 3) ? 1 : -1;
    if (s >= 0) return choose_floor(x); return -choose_floor(__sym_fneg(x));
}
double __sym_sitofp(int64_t v) { double d = (double) v; if ((int64_t) d == v || !exact_mode) return d; return rat(mpq_class(mpz_class((long) v))); }
double __sym_uitofp(uint64_t v) { double d = (double) v; if (d < 18446744073709551615.0 && (uint64_t) d == v) return d; if (!exact_mode) return d; return rat(mpq_class(mpz_class((unsigned long) v))); }
double __sym_fabs(double x) {
    if (!is_handle(x)) return fabs(x); mpq_class q; if (isconst(x, q)) return rat(abs(q));
    Node n = nodes[handle_id(x)]; if (n.op == O_NEG) return __sym_fabs(from_id(n.a));
    if (n.op == O_FUN && (n.fn == F_ABS || n.fn == F_EXP || n.fn == F_SQRT || n.fn == F_POW || n.fn == F_BOYS || n.fn == F_GFUN || (n.fn == F_JB && false))) return x;
    if (n.op == O_VAR && varpos[n.k]) return x;
    return fun(F_ABS, x); }
double __sym_exp(double x) { if (!is_handle(x)) { if (x == 0) return 1; if (!exact_mode || !std::isfinite(x)) return exp(x); } return fun(F_EXP, x); }
double __sym_log(double x) { if (!is_handle(x)) { if (x == 1) return 0; if (!exact_mode || !std::isfinite(x) || x <= 0) return log(x); } return fun(F_LOG, x); }
double __sym_erf(double x) { if (!is_handle(x)) { if (x == 0) return 0; if (!exact_mode || !std::isfinite(x)) return erf(x); } return fun(F_ERF, x); }
double __sym_erfc(double x) { if (!is_handle(x)) { if (x == 0) return 1; if (!exact_mode || !std::isfinite(x)) return erfc(x); } return op2(O_SUB, 1.0, fun(F_ERF, x)); }
double __sym_sqrt(double x) {
    mpq_class q; if (!is_handle(x) && (!exact_mode || !std::isfinite(x) || x < 0)) return sqrt(x);
    if (isconst(x, q)) { if (mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t()) && q >= 0) { mpz_class a = sqrt(q.get_num()), b = sqrt(q.get_den()); return rat(mpq_class(a, b)); } }
    return fun(F_SQRT, x); }
double __sym_cbrt(double x) { if (!is_handle(x) && !exact_mode) return cbrt(x); return fun(F_POW, x, rat(1, 3)); }
double __sym_pow(double x, double y) {
    mpq_class q, b; if (!isconst(y, q)) { if (!is_handle(x) && !is_handle(y)) return pow(x, y); throw SymError("pow with symbolic exponent"); }
    if (!is_handle(x) && !exact_mode) return pow(x, q.get_d());
    if (q.get_den() == 1) {
        long n = q.get_num().get_si(); if (n == 0) return 1.0; if (!is_handle(x) && (x == 0 || !std::isfinite(x))) return pow(x, (double) n);
        long m = labs(n); double r = 1.0, p = x; while (m) { if (m & 1) r = op2(O_MUL, r, p); m >>= 1; if (m) p = op2(O_MUL, p, p); }
        return n > 0 ? r : op2(O_DIV, 1.0, r); }
    if (!is_handle(x) && (x == 0 || !std::isfinite(x) || x < 0)) return pow(x, q.get_d());
    if (q == mpq_class(1, 2)) return __sym_sqrt(x);
    if (is_handle(x) && nodes[handle_id(x)].op != O_CONST && mpz_cmp_ui(q.get_den().get_mpz_t(), 2) == 0) return op2(O_MUL, __sym_pow(x, rat(q - mpq_class(1, 2))), __sym_sqrt(x));
    return fun(F_POW, x, rat(q)); }
double __sym_fmax(double x, double y) { return __sym_fcmp(2, x, y) ? x : y; }
double __sym_fmin(double x, double y) { return __sym_fcmp(4, x, y) ? x : y; }
double __sym_floor(double x) { if (!is_handle(x)) return floor(x); mpq_class q; if (isconst(x, q)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); return rat(mpq_class(z)); } return (double) choose_floor(x); }
double __sym_ceil(double x) { return __sym_fneg(__sym_floor(__sym_fneg(x))); }
double __sym_trunc(double x) { return (double) __sym_fptosi(x); }
double __sym_round(double x) { if (!is_handle(x)) return round(x); if (__sym_fcmp(3, x, 0)) return __sym_floor(op2(O_ADD, x, 0.5)); return __sym_fneg(__sym_floor(op2(O_ADD, __sym_fneg(x), 0.5))); }
double __sym_rint(double x) { return __sym_round(x); }
double __sym_nearbyint(double x) { return __sym_round(x); }
int64_t __sym_lround(double x) { return (int64_t) __sym_round(x); }
double __sym_fma(double a, double b, double c) { return op2(O_ADD, op2(O_MUL, a, b), c); }
double __sym_hypot(double a, double b) { return __sym_sqrt(op2(O_ADD, op2(O_MUL, a, a), op2(O_MUL, b, b))); }
double __sym_expm1(double x) { return op2(O_SUB, __sym_exp(x), 1.0); }
double __sym_log1p(double x) { return __sym_log(op2(O_ADD, 1.0, x)); }
double __sym_exp2(double x) { return __sym_exp(op2(O_MUL, x, __sym_log(2.0))); }
double __sym_log10(double x) { if (!is_handle(x)) return log10(x); return op2(O_DIV, __sym_log(x), __sym_log(10.0)); }
double __sym_ldexp(double x, int n) { return op2(O_MUL, x, ldexp(1.0, n)); }
double __sym_copysign(double x, double y) { double a = __sym_fabs(x); return __sym_fcmp(4, y, 0) ? __sym_fneg(a) : a; }
double __sym_fmod(double x, double y) { if (!is_handle(x) && !is_handle(y)) return fmod(x, y); throw SymError("fmod"); }
int __sym_isnan(double x) { return !is_handle(x) && std::isnan(x); }
int __sym___isnan(double x) { return __sym_isnan(x); }
int __sym_isinf(double x) { return !is_handle(x) && std::isinf(x); }
int __sym___isinf(double x) { return __sym_isinf(x); }
int __sym___finite(double x) { return is_handle(x) || std::isfinite(x); }
struct dcx { double r, i; };
dcx __sym___muldc3(double a, double b, double c, double d) { return {op2(O_SUB, op2(O_MUL, a, c), op2(O_MUL, b, d)), op2(O_ADD, op2(O_MUL, a, d), op2(O_MUL, b, c))}; }
dcx __sym___divdc3(double a, double b, double c, double d) { double n = op2(O_ADD, op2(O_MUL, c, c), op2(O_MUL, d, d)); return {op2(O_DIV, op2(O_ADD, op2(O_MUL, a, c), op2(O_MUL, b, d)), n), op2(O_DIV, op2(O_SUB, op2(O_MUL, b, c), op2(O_MUL, a, d)), n)}; }
dcx __sym_conj(double a, double b) { return {a, __sym_fneg(b)}; }
double __sym_creal(double a, double) { return a; }
double __sym_cimag(double, double b) { return b; }
double __sym_cabs(double a, double b) { return __sym_hypot(a, b); }
// memory events of builds with SYMFP_HOOKMEM
static bool memtrack = false; static std::map<uintptr_t, size_t> memblocks; static std::vector<std::pair<uintptr_t, size_t>> memouts; static std::vector<std::string> memfail; static uintptr_t stacktop, globlo, globhi;
static void memsay(const std::string &w, void *ra) { if (memfail.size() > 20) return; Dl_info i; std::string f = "?"; if (dladdr(ra, &i) && i.dli_sname) f = i.dli_sname; std::string t = w + " in " + f; for (auto &x : memfail) if (x == t) return; memfail.push_back(t); }
static bool inblock(uintptr_t p, size_t n) { auto it = memblocks.upper_bound(p); if (it == memblocks.begin()) return false; --it; return p >= it->first && p + n <= it->first + it->second; }
void __sym_store(void *q, uint64_t n) {
    if (!memtrack || !n) return; uintptr_t p = (uintptr_t) q; if (p >= (uintptr_t) __builtin_frame_address(0) && p < stacktop) return; if (inblock(p, n)) return;
    for (auto &o : memouts) if (p >= o.first && p + n <= o.first + o.second) return;
    Dl_info i; memsay(dladdr(q, &i) && i.dli_fname && (i.dli_sname || (p >= (uintptr_t) i.dli_fbase)) ? "store to global memory" : "store to memory that is neither an output nor its own", __builtin_return_address(0)); }
void *__sym_malloc(size_t n) { void *p = malloc(n); if (memtrack && p) memblocks[(uintptr_t) p] = n; return p; }
void *__sym_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (memtrack && p) memblocks[(uintptr_t) p] = a * b; return p; }
void __sym_free(void *p) { if (memtrack && p) { if (!memblocks.erase((uintptr_t) p)) memsay("release of memory it did not allocate", __builtin_return_address(0)); else free(p); return; } free(p); }
void *__sym_realloc(void *p, size_t n) { if (memtrack && p) { if (!memblocks.erase((uintptr_t) p)) { memsay("reallocation of memory it did not allocate", __builtin_return_address(0)); return malloc(n); } } void *q = realloc(p, n); if (memtrack && q) memblocks[(uintptr_t) q] = n; return q; }
void *__sym_memset(void *p, int c, size_t n) { __sym_store(p, n); return memset(p, c, n); }
void *__sym_memcpy(void *p, const void *q, size_t n) { __sym_store(p, n); return memcpy(p, q, n); }
void *__sym_memmove(void *p, const void *q, size_t n) { __sym_store(p, n); return memmove(p, q, n); }
static std::vector<std::string> entered;
void __sym_enter(const char *n, char *flag) { if (!*flag) { *flag = 1; entered.push_back(n); } }
// process termination inside the library becomes an event of the path
void __sym_exit(int c) { throw PathAbort{"exit(" + to_string(c) + ")"}; }
void __sym_abort() { throw PathAbort{"abort()"}; }
void __sym_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { throw PathAbort{string("assertion '") + e + "' failed at " + f + ":" + to_string(l)}; }
}
void sym_mem_begin() {
    if (!stacktop) { pthread_attr_t a; void *lo; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); stacktop = (uintptr_t) lo + n; pthread_attr_destroy(&a); }
    memblocks.clear(); memouts.clear(); memfail.clear(); memtrack = true; }
void sym_mem_output(void *p, size_t n) { memouts.push_back({(uintptr_t) p, n}); }
std::vector<std::string> sym_mem_end() { memtrack = false; if (!memblocks.empty()) memfail.push_back(to_string(memblocks.size()) + " allocated blocks are not released"); auto r = memfail; memfail.clear(); memblocks.clear(); return r; }
void sym_mem_stop() { memtrack = false; memblocks.clear(); memouts.clear(); memfail.clear(); }
const std::vector<std::string> &sym_entered() { return entered; }
