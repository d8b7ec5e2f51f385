import vlib
from c01 import ENGINE
import c04
META = {"technique": ENGINE, "note": "Both calls run the real code; equality of the two results is decided for every exponent, coefficient and geometry explored."}
STUBS = c04.STUBS + ("boys_values", "boys_function", "gfun_values", "libgrpp_overlap_integrals", "libgrpp_type1_integrals")
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "every integral routine executed symbolically for (A,B) and (B,A); the two matrices must be transposes (negated for momentum and spin-orbit)")
    rep.bounds = ["overlap: L_A+L_B <= 6; kinetic, momentum: <= 5; local, point charge: <= 4; semilocal, spin-orbit, outercore: projector L <= 2, sum <= 3; full: sum <= 2 (one more with one symbolic direction per centre); listed higher shapes up to 10 with rational geometry", "all coincidence patterns"]
    rep.assumptions = ["floating-point operations are exact reals", "radial integrals equal the integral of the modelled integrand (C21, C13)", "|x| < 1e-12 tests on symbolic x are true only for x = 0"]
    vlib.run_engine(rep, "c09", stubs=STUBS, limit=250 if tier == "quick" else 5000, caselimit=200 if tier == "quick" else 1500)
    return rep.finish()
