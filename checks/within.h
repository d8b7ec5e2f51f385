#pragma once
// "code(x) is within tol of f(x) for every x on this path": x is one symbolic variable, f is given by its Taylor coefficients
// about any point (quad precision); the solver is asked for an x in the interval of the path where the difference exceeds tol.
#include "common.h"
#include <chrono>
extern z3::context &zctx();
namespace sym { void add_conditions(z3::solver &s, const vector<Cond> &extra); }
struct Ref { std::function<quad(quad)> value; std::function<vector<quad>(quad, int)> taylor; };
inline mpq_class q2m(quad v) { double h = (double) v; mpq_class q(h); q += mpq_class((double) (v - (quad) h)); return q; }
inline quad m2q(const mpq_class &c) { double h = c.get_d(); mpq_class r = c - mpq_class(h); return (quad) h + (quad) r.get_d(); }
struct Within {
    S x; int vk; bool ok = false, nonlin = false, ignore_nonlinear = false; mpq_class lo, hi, c, rho; vector<string> labels; vector<z3::expr> bad; long inexact = 0; z3::expr s; static const int M = 14;
    Within(S x_) : x(x_), vk(0), s(zctx().real_const("s")) { if (!hs::symbolic) return; vk = sym::nodes[sym::handle_id(x.v)].k; }
    void interval() {        // linear consequences of assumptions and path condition
        if (ok) return; ok = true; bool hl = false, hh = false; nonlin = false;
        auto use = [&](const sym::Cond &k) { mpq_class a, b; if (!sym::is_handle(k.x) || !poly::linear(poly::of(k.x), vk, a, b)) { nonlin = true; return; } if (a == 0) return; mpq_class r = -b / a; int rel = k.rel; if (a < 0) rel = rel == 1 ? 3 : rel == 2 ? 4 : rel == 3 ? 1 : rel == 4 ? 2 : rel; if (rel == 0) { lo = hi = r; hl = hh = true; } if (rel == 1 || rel == 2) { if (!hl || r > lo) lo = r; hl = true; } if (rel == 3 || rel == 4) { if (!hh || r < hi) hi = r; hh = true; } };
        for (auto &k : sym::assumptions) use(k); for (auto &k : sym::pathcond) use(k); if (!hl || !hh) throw SymError("unbounded argument"); c = (lo + hi) / 2; { mpq_class t(mpz_class(c * 1048576), 1048576); t.canonicalize(); if (t > lo && t < hi) c = t; } rho = c - lo > hi - c ? mpq_class(c - lo) : mpq_class(hi - c); }
    void add(const string &label, double code, const Ref &f, double tol) {
        if (!hs::symbolic) { hs::atol_ = 1; hs::rtol = 0; double xv = hs::in(x); if (tol < 0) { double h = hs::in(x); tol = -tol * fabs((double) f.value(h)); } hs::eqd(label + " (units of the tolerance)", code / tol, (double) (f.value(xv) / (quad) tol)); return; }
        interval(); vector<mpq_class> a; vector<quad> r = f.taylor(m2q(c), M); if (!poly::taylor(poly::of(code), vk, c, M, a)) inexact++;
        z3::expr p = zctx().real_val(0), pw = zctx().real_val(1); mpq_class sc = 1 / mpq_class(tol), t = 1; double slack = 1e-4; int top = 0; vector<mpz_class> z; static const mpq_class UNIT(10000000);
        if (a.size() < r.size()) a.resize(r.size());
        for (size_t k = 0; k < a.size(); k++) { mpq_class d = (a[k] - (k < r.size() ? q2m(r[k]) : mpq_class(0))) * t * sc * UNIT; mpz_class n(d); z.push_back(n); if (n != 0) top = k; slack += 1e-7; t *= rho; }
        for (int k = top; k >= 0; k--) p = p * s + zctx().real_val(z[k].get_str().c_str());      // Horner form, units of tol / 1e7
        z3::expr lim = zctx().real_val(mpz_class(mpq_class(1e7 * (1 - slack))).get_str().c_str()); labels.push_back(label); bad.push_back(p > lim || p < -lim); hs::eqd(label, 0, 0); }
    void decide() {
        if (!hs::symbolic || bad.empty()) return; static int npath = 0; hs::validate = !nonlin && npath++ % 6 == 0;      // replay a model of every sixth path
        z3::expr_vector v(zctx()); for (auto &b : bad) v.push_back(b);
        // relaxations first: no non-linear path condition, only the last one, all of them (dropping conditions is sound)
        for (int stage = 0; stage < (nonlin && !ignore_nonlinear ? 3 : 1); stage++) {
        z3::solver z(zctx(), "QF_NRA"); z3::params pr(zctx()); pr.set("timeout", 30000u); z.set(pr); z.add(s >= -1 && s <= 1); z.add(z3::mk_or(v));
        if (stage) { auto save = sym::pathcond; if (stage == 1) sym::pathcond.erase(sym::pathcond.begin(), sym::pathcond.end() - 1); sym::add_conditions(z, {}); sym::pathcond = save; z.add(zctx().real_const(sym::varname[vk].c_str()) == zctx().real_val(c.get_str().c_str()) + zctx().real_val(rho.get_str().c_str()) * s); }
        auto t0 = std::chrono::steady_clock::now(); auto r = z.check(); sym::st_eq.queries++; sym::st_eq.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (r == z3::unsat) return; if (nonlin && !ignore_nonlinear && stage < 2) continue; if (r == z3::unknown) throw SymError("solver gave up on " + labels[0]);
        z3::model m = z.get_model(); string lab = "accuracy"; for (size_t i = 0; i < bad.size(); i++) if (m.eval(bad[i], true).is_true()) { lab = labels[i]; break; }
        z3::expr sv = m.eval(s, true); string ds = sv.is_numeral() ? sv.get_decimal_string(12) : string(Z3_get_numeral_decimal_string(zctx(), sv, 12)); double w = atof(ds.c_str()); mpq_class xw = c + rho * mpq_class(w); if (xw < lo) xw = lo; if (xw > hi) xw = hi;
        sym::assume((x - S(sym::rat(xw))).v, 0); hs::expect(false, lab); } }
};
