import vlib
from c01 import ENGINE
import c08u, c04
META = {"technique": ENGINE, "note": "Two layers: the gradient routines over uninterpreted primitive integrals obeying the differentiation rules (any angular momentum and operator), and end to end for the local, semilocal and spin-orbit operators at low angular momentum."}
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "every *_gradient routine executed symbolically against the analytic derivative")
    rep.bounds = ["assembly: L_A, L_B <= 3 for every operator, every coincidence of the three centres and every differentiation point; overlap and full GRPP to L=10 (listed shapes)", "end to end: L_A, L_B <= 1 (2 thorough), projector L <= 2 (3)", "1..2 primitives per shell, all exponents, coefficients and coordinates symbolic"]
    rep.assumptions = ["floating-point operations are exact reals", "integrals obey d/dA G_n = 2a G_{n+1} - n G_{n-1} and translational invariance (C01-C07 decide the integrals)"]
    q = tier == "quick"
    vlib.run_engine(rep, "c08u", stubs=c08u.STUBS, limit=200 if q else 3000, caselimit=150)
    vlib.run_engine(rep, "c08", stubs=c04.STUBS + ("boys_values", "boys_function", "gfun_values"), limit=150 if q else 4000, caselimit=150 if q else 1500)
    return rep.finish()
