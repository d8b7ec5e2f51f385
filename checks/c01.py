import vlib
ENGINE = "symbolic execution of the LLVM IR (symbolic reals) with Z3 deciding code = closed form"
META = {"technique": ENGINE,
        "note": "For all exponents, coefficients and coordinates (real arithmetic) in every explored (L_A,L_B,contraction,coincidence) shape: the solver shows code = Gaussian-product closed form; rounding is outside; one solver model per path is replayed on the -O3 build."}
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "libgrpp_overlap_integrals executed symbolically: exponents, contraction coefficients and both centres are real variables; each matrix element must equal the closed-form Gaussian-product integral")
    rep.bounds = ["L_A, L_B in 0..10 (all elements to L=5 quick / 8 thorough, a fixed stride of elements above)", "1..12 primitives per shell", "coinciding coordinates, equal exponents, same shell object, both component orders"]
    rep.assumptions = ["floating-point operations are exact reals (rounding not modelled)", "|x| < 1e-12 tests on symbolic x are true only for x = 0"]
    vlib.run_engine(rep, "c01", limit=800 if tier == "quick" else 6000, caselimit=300 if tier == "quick" else 1500)
    return rep.finish()
