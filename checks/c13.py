import vlib
META = {"technique": "symbolic execution of the LLVM IR; Z3 decides for every argument of each table cell that code and reference polynomial differ by less than the tolerance",
        "note": "Every table cell, seam and asymptotic branch is one path with a symbolic argument; on it the value computed is a polynomial in the argument (non-polynomial terms enclosed by a Taylor expansion with remainder), compared with the Taylor expansion of the mathematical function computed from its defining series/integral in quad precision; Z3 shows |difference| below the designed accuracy for every argument of the cell. Orders up to 24 (quick); arithmetic is exact."}
STUBS = ("create_real_spherical_harmonic_coeffs_tables",)
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "boys_values/boys_function, modified_bessel_scaled, specfunc_fermi_sk, Dawsons_Integral and gfun_values executed symbolically on the real tables; oracle: the defining series/integrals evaluated in quad precision with their derivatives, from scratch")
    rep.bounds = ["argument: Boys [0,40] cellwise and (40,inf) in closed form; Bessel [0,16] cellwise and (16,inf) against the terminating series in 1/x (exp(-2x) neglected by design); S_k for [-200,0]; Dawson [0,100]; G_n [0,12] cellwise and (12,inf) against the upward recursion from Dawson", "orders: Boys, Bessel, G up to 24 (quick), 33/45/24 (thorough); S_k for k = 2..7"]
    rep.assumptions = ["floating-point operations are exact reals (rounding inside the routines is not modelled; every 6th path is replayed on the production build)", "reference Taylor coefficients are computed in quad precision and trusted to 1e-25"]
    vlib.run_engine(rep, "c13", stubs=STUBS, limit=850 if tier == "quick" else 8000, caselimit=300 if tier == "quick" else 2000, filter="(?!gup).*")
    vlib.run_engine(rep, "c13", stubs=STUBS + ("Dawsons_Integral",), limit=100, caselimit=100, filter="gup.*")
    return rep.finish()
