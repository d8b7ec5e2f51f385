#pragma once
// Check harness: every case is one body, executed symbolically (instrumented library, DAG values) and
// concretely (production build, values of a solver model, oracle evaluated in quad precision).
#include "sym.h"
#include <cmath>
extern "C" {
#include "libgrpp.h"
}
#include <dlfcn.h>
namespace hs {
extern bool symbolic;
extern std::string tier;
extern bool validate;                         // replay a model of every proved path on the production build (a case may turn it off)
extern double rtol, atol_;                    // replay tolerances (case may change them)
void *fn(const char *name);                   // function of the library under analysis
#define LG(f) (reinterpret_cast<decltype(&f)>(hs::fn(#f)))
S var(const std::string &name, bool positive = false);
S pi();
double in(S e);                               // library input
std::vector<double> inv(const std::vector<S> &e);
void eq(const std::string &label, double code, S oracle);
// the library value equals the integral over r = 0..infinity of the oracle; symbolically the library works on the integrand (radial stubs)
void eqint(const std::string &label, double code, S integrand, S r, S rest = S(0));   // rest: closed-form part
// oracle integrand with a kink at r0: inner on (0, r0), outer beyond
void eqint2(const std::string &label, double code, S inner, S outer, S r, S r0);
// branch of a piecewise oracle: x < y (symbolically a path choice, concretely a comparison)
bool less(S x, S y);
void eqd(const std::string &label, double code, double code2);   // two library outputs must agree
void expect(bool ok, const std::string &label);                  // structural requirement
// between begin and end the library may write only to its own stack and allocations and to the stated outputs, and must release what it allocates (builds with memory hooks)
void fail(const std::string &what);           // a requirement is broken on the current path
void frame_begin(); void frame_output(void *p, size_t bytes); void frame_end();
void assume(S x, int rel);
void assume_between(S x, S lo, S hi);         // strict
struct Case { std::string id; std::function<void()> body; int maxpaths = 64; std::string note; };
void add(const std::string &id, std::function<void()> body, int maxpaths = 64, const std::string &note = "");
extern std::function<void()> setup;           // library initialisation (executed in both modes before the body)
int main_(int argc, char **argv, const std::function<void()> &declare);
libgrpp_shell_t *shell(const std::vector<S> &origin, int L, const std::vector<S> &coef, const std::vector<S> &alpha);
libgrpp_potential_t *potential(int L, int J, const std::vector<int> &pow, const std::vector<S> &coef, const std::vector<S> &alpha);
}
