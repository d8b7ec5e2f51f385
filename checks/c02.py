import vlib
from c01 import ENGINE
META = {"technique": ENGINE,
        "note": "For all exponents, coefficients and coordinates (real arithmetic) in every explored shape: kinetic and momentum elements equal the closed form obtained by letting the operator act on the ket, in both orders of the shells; rounding is outside; one solver model per path is replayed on the -O3 build."}
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "libgrpp_kinetic_energy_integrals and libgrpp_momentum_integrals executed symbolically against closed forms in which the operator acts on the ket (the code lets it act on the bra)")
    rep.bounds = ["L_A, L_B in 0..10 (all elements to L=4 quick / 6 thorough, a fixed stride of elements above)", "1..9 primitives per shell", "coinciding coordinates, equal exponents, same shell object, both component orders, both call orders"]
    rep.assumptions = ["floating-point operations are exact reals (rounding not modelled)"]
    vlib.run_engine(rep, "c02", limit=800 if tier == "quick" else 6000, caselimit=300 if tier == "quick" else 1500)
    return rep.finish()
