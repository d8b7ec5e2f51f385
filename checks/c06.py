import vlib
from c01 import ENGINE
META = {"technique": ENGINE,
        "note": "Each overlap and local-potential integral with a projector shell is one atom identified by its polynomial normal form (so it is proved equal to its closed form), and the assembly (Cartesian to spherical transformation, weights, L matrices, one-centre normalisation and delta integrals) is compared as a multilinear identity."}
STUBS = ("pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables", "boys_values", "boys_function", "gfun_values", "libgrpp_overlap_integrals", "libgrpp_type1_integrals")
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "libgrpp_outercore_potential_integrals executed symbolically against the projector formula built from closed-form overlaps and local-potential integrals")
    rep.bounds = ["projector L<=3 with every parameter symbolic, L<=10 with rational exponents and geometry (coefficients symbolic)", "0..4 projector shells, equal and different L,J", "L_A, L_B <= 2 (listed higher shapes up to 10)", "1..3 primitives, 1..3 potential terms, all coincidence patterns"]
    rep.assumptions = ["floating-point operations are exact reals", "table constants within 16 ulp of the exact normalisation constant stand for it", "|x| < 1e-12 tests on symbolic x are true only for x = 0"]
    vlib.run_engine(rep, "c06", stubs=STUBS, limit=300 if tier == "quick" else 6000, caselimit=200 if tier == "quick" else 2000)
    return rep.finish()
