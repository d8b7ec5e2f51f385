#pragma once
// Symbolic reals: hash-consed DAG, path exploration, polynomial normal form, Z3 back end.
#include "rat.h"
#include <z3++.h>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <quadmath.h>
#include <cstring>
#include <stdexcept>
typedef __float128 quad;
typedef uint32_t Id;

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_DIV, O_NEG, O_FUN };
enum Fn : uint16_t { F_EXP = 1, F_SQRT, F_POW, F_LOG, F_ERF, F_ERFC, F_ABS, F_BOYS, F_GFUN, F_BESSEL, F_SK, F_DAWSON, F_UF, F_FLOOR, F_SIN, F_COS, F_ATAN, F_CBRT, F_JB, F_OPAQUE };
struct Node { Op op; uint16_t fn; int32_t k; Id a, b; };

struct SymError : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathAbort { std::string why; };       // assertion failure, exit, abort inside the library on this path

namespace sym {
extern std::vector<Node> nodes;
extern std::vector<mpq_class> consts;        // by Node.k for O_CONST
extern std::vector<std::string> varname;     // by Node.k for O_VAR
extern std::vector<char> varpos;

inline bool is_handle(double d) { uint64_t u; memcpy(&u, &d, 8); return (u >> 48) == 0xFFFB; }
inline Id handle_id(double d) { uint64_t u; memcpy(&u, &d, 8); return (Id) u; }
inline double mk_handle(Id i) { uint64_t u = 0xFFFB000000000000ull | i; double d; memcpy(&d, &u, 8); return d; }
Id to_id(double d);                          // concrete -> CONST node
double from_id(Id i);                        // CONST nodes that are doubles -> concrete
double rat(const mpq_class &q);
double rat(long n, long d = 1);
double var(const std::string &name, bool positive = false);
double fun(Fn f, double a, double b = 0, int k = 0);
// an atom standing for the value of a: equal to another one iff the arguments have equal normal forms (byid: are the same node)
double opaque(double a, bool byid = false);
// table constants of the library within 16 ulp of d stand for the exact value e
void snap(double d, double e);
bool isconst(double d, mpq_class &q);
std::string str(double d, int depth = 6);

// numeric evaluation in quad precision; env: VAR index -> value
typedef std::unordered_map<int, quad> Env;
quad evalq(double d, const Env &env, std::unordered_map<Id, quad> *memo = nullptr);
quad boysq(int n, quad x); quad gfunq(int n, quad x); quad besselq(int n, quad x); quad skq(int k, quad x); quad dawsonq(quad x); quad jbq(int n, quad s);
int var_index(const std::string &name);

// symbolic differentiation
double diff(double d, double v);
// substitution of variables by expressions
double subst(double d, const std::unordered_map<int, double> &m);

// options
extern double tiny;          // |x| < c branches with c <= tiny: taken only if x is identically 0
extern long n_tiny, n_forks, n_steps, n_paths, n_snapped;
extern bool simplify_cond;   // branch conditions are handed to the solver in normal form
extern bool exact_mode;      // false: inexact concrete operations stay machine doubles

// path conditions
struct Cond { double x; int rel; };          // x rel 0 with rel: 0 "==", 1 ">", 2 ">=", 3 "<", 4 "<=", 5 "!="
extern std::vector<Cond> assumptions, pathcond;
void assume(double x, int rel);              // x rel 0
void clear_assumptions();
extern std::function<void(double x, const mpq_class &c)> on_threshold;   // first time x is compared with a small constant c on symbolic values
int explore(const std::function<void()> &body, int maxpaths = 64);   // returns number of paths
bool in_explore();

std::map<std::string, std::string> model_values(const z3::model &m);
// assignments consistent with the assumptions and the path condition (and, optionally, with an extra constraint)
std::vector<std::map<std::string, std::string>> path_models(int want, const std::function<z3::expr(int)> &extra = nullptr);

// solver
struct SolverStats { long queries = 0, unsat = 0, sat = 0, unknown = 0; double secs = 0; };
extern SolverStats st_eq, st_branch;
}

struct S {                                   // value type for harness code
    double v;
    S() : v(0) {}
    S(double d) : v(d) {}
    S(int i) : v(i) {}
    S(long i) : v(sym::rat(i)) {}
    static S q(long n, long d) { return S(sym::rat(n, d)); }
};
extern "C" {
double __sym_fadd(double, double); double __sym_fsub(double, double); double __sym_fmul(double, double); double __sym_fdiv(double, double);
double __sym_fneg(double); int __sym_fcmp(int, double, double);
double __sym_exp(double); double __sym_sqrt(double); double __sym_pow(double, double); double __sym_fabs(double); double __sym_log(double); double __sym_erf(double);
}
inline S operator+(S a, S b) { return S(__sym_fadd(a.v, b.v)); }
inline S operator-(S a, S b) { return S(__sym_fsub(a.v, b.v)); }
inline S operator*(S a, S b) { return S(__sym_fmul(a.v, b.v)); }
inline S operator/(S a, S b) { return S(__sym_fdiv(a.v, b.v)); }
inline S operator-(S a) { return S(__sym_fneg(a.v)); }
inline S &operator+=(S &a, S b) { a = a + b; return a; }
inline S &operator-=(S &a, S b) { a = a - b; return a; }
inline S &operator*=(S &a, S b) { a = a * b; return a; }
inline S exp(S a) { return S(__sym_exp(a.v)); }
inline S sqrt(S a) { return S(__sym_sqrt(a.v)); }
inline S ipow(S a, int n) { S r(1); if (n < 0) { a = S(1) / a; n = -n; } while (n--) r = r * a; return r; }
inline S powq(S a, long n, long d) { return S(__sym_pow(a.v, sym::rat(n, d))); }

// polynomial normal form -----------------------------------------------------
namespace poly {
typedef uint32_t Mid;
struct Term { Mid m; Rat c; };
typedef std::vector<Term> Poly;              // sorted by m, no zero coefficients
Poly of(double d);                           // normal form of a DAG value
Poly add(const Poly &a, const Poly &b);
Poly sub(const Poly &a, const Poly &b);
Poly mul(const Poly &a, const Poly &b);
bool is_zero(const Poly &p);                 // complete expansion (FACTOR definitions substituted)
std::string str(const Poly &p, int maxterms = 8);
void dump_atoms();
void reset();                                // forget memo tables (keeps generators)
// sign by inspection: +1/-1 all terms of one sign and positive generators, 0 unknown
int easy_sign(const Poly &p);
double to_dag(const Poly &p);                // expression of a normal form
Poly diff(const Poly &p, int varindex);
bool taylor(const Poly &p, int varindex, const mpq_class &c, int M, std::vector<mpq_class> &out);   // true: exact polynomial
bool linear(const Poly &p, int varindex, mpq_class &a, mpq_class &b);   // p = a x + b
}

inline S simp(S x) { return S(poly::to_dag(poly::of(x.v))); }
inline S dS(S f, S v) { return S(poly::to_dag(poly::diff(poly::of(f.v), sym::nodes[sym::handle_id(v.v)].k))); }   // normalised partial derivative

// equality obligations --------------------------------------------------------
struct Obl { std::string label; double code, oracle; };
struct EqResult { bool proved = true; bool inconclusive = false; std::string label; std::map<std::string, std::string> model; std::vector<std::map<std::string, std::string>> models; };
// decides with Z3 that all obligations hold for every value of the variables satisfying the assumptions and path condition.
EqResult decide_equal(const std::vector<Obl> &obls);
