import vlib
from c01 import ENGINE
META = {"technique": ENGINE, "note": "The integrals of the parts are uninterpreted (C03-C06 decide them); the assembly, the container and the weights are the real code, and counterexamples are replayed with the real parts."}
STUBS = ("libgrpp_type1_integrals", "libgrpp_type2_integrals", "libgrpp_spin_orbit_integrals", "libgrpp_outercore_potential_integrals", "pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables")
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "libgrpp_full_grpp_integrals and the GRPP container executed symbolically; every integral of a part is an unconstrained real keyed by the arguments it is asked for")
    rep.bounds = ["L_A, L_B <= 3 in every GRPP shape, L up to 10 for each shape", "21 GRPP shapes: 0..6 semilocal, 0..5 spin-orbit, 0..6 outercore components, with and without local part, projector L up to 10, repeated and unordered components", "every value of every integral of the parts (uninterpreted)"]
    rep.assumptions = ["floating-point operations are exact reals", "the part routines are functions of their arguments (C12)"]
    vlib.run_engine(rep, "c07", stubs=STUBS, limit=250 if tier == "quick" else 3000, caselimit=150)
    return rep.finish()
