import vlib
from c01 import ENGINE
META = {"technique": ENGINE,
        "note": "For all exponents, coefficients and coordinates (real arithmetic) in the explored shapes the solver shows code = derivatives of the closed s-type integrals in terms of Boys/G function symbols (their numerical accuracy is C13); one solver model per path is replayed on the -O3 build."}
STUBS = ("boys_values", "boys_function", "gfun_values", "pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables")
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "libgrpp_type1_integrals and libgrpp_nuclear_attraction_integrals_point_charge executed symbolically; oracle: centre derivatives of the closed-form s-type integrals (independent of the McMurchie-Davidson recurrences)")
    rep.bounds = ["n in {0,1,2} and point charge; all parameters symbolic to L=3 (quick) / 4 (thorough); L up to 10 with one symbolic direction and rational exponents", "1..6 primitives, up to 12 potential terms", "all coincidence patterns of the three centres"]
    rep.assumptions = ["floating-point operations are exact reals", "boys_values/gfun_values return F_n and G_n exactly (C13)", "|x| < 1e-12 tests on symbolic x are true only for x = 0"]
    vlib.run_engine(rep, "c03", stubs=STUBS, limit=850 if tier == "quick" else 8000, caselimit=300 if tier == "quick" else 2000)
    return rep.finish()
