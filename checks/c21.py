import vlib
from c01 import ENGINE
META = {"technique": "symbolic execution of the LLVM IR; Z3 decides over the region of (scale factor, tolerance) of every path that the value is one of the rule's nested sums and that the acceptance test really held",
        "note": "tabulate_radial_type1/type2_integrals run with a symbolic scale factor (a potential coefficient) and, for type 1, a symbolic tolerance; each path is a region of these, and the value it returns must be one of the nested Log3 sums evaluated from scratch in quad precision, together with proof that the two successive sums agree to the tolerance (or the largest grid was reached); a screened value only if the integral is below ten tolerances. Exponents, distances and angular orders are a fixed list of machine numbers; the one-centre closed form is fully symbolic."}
STUBS = ("create_real_spherical_harmonic_coeffs_tables",)
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "radial_type1_integral.c, radial_type2_integral.c, screening.c executed on the real tables; oracle: the Log3 rule x_j = j/(N+1), r = -5 ln(1-x^3) evaluated from scratch at every level, and int r^m exp(-pr^2) in closed form for the one-centre case")
    rep.bounds = ["scale factor over nine or more decades per parameter set (both signs), type 1 tolerance 1e-16..0.1", "about 50 type 2 and 8 type 1 parameter sets: contraction lengths 1..3, narrow, steep, far, on-centre and nearly on-centre shells, lambda <= 7 (quick) / 14, n <= 10 / 20, all levels 31..8191", "one centre: L_A, L_B <= 3 (quick) / 6 and 10,10 with all exponents and coefficients symbolic"]
    rep.assumptions = ["arithmetic on the fixed parameters is that of the machine; sums are compared within 2e-12 of their magnitude (the accuracy of the tabulated Bessel functions, C13)", "type 2 uses the fixed tolerance 1e-16, type 1 the one set by libgrpp_set_radial_tolerance"]
    vlib.run_engine(rep, "c21", stubs=STUBS, limit=800 if tier == "quick" else 8000, caselimit=300 if tier == "quick" else 2000)
    return rep.finish()
