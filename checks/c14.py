import vlib
from c01 import ENGINE
META = {"technique": "symbolic execution of the LLVM IR with Z3 deciding code = closed form, and Poisson's equation by symbolic differentiation",
        "note": "Every density, potential and r.m.s. routine, with all parameters and r symbolic, on each side of the nuclear surface; the specification potentials are shown to satisfy Poisson's equation, continuity and neutrality; S_k are function symbols (their accuracy is C13). r > 0 (the formulas are singular expressions at r = 0)."}
STUBS = ("specfunc_fermi_sk", "pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables")
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "nuclear_models.c executed symbolically: potentials, densities, r.m.s. radii, parameter estimates equal closed forms obtained by integrating the density; those closed forms satisfy (1/r)(rV)'' = 4 pi rho, rV -> 0 at r = 0, C1 continuity at the surface.")
    rep.bounds = ["all real parameters (replay models restricted to 1/8 < r < 16, 1/4 < parameters < 8)", "mass numbers 1..300 for the empirical radius formulas, each a separate query"]
    rep.assumptions = ["floating-point operations are exact reals", "S_k' = S_{k-1}, S_0(x) = -e^x/(1+e^x), S_2(0), S_4(0), S_6(0) known constants"]
    vlib.run_engine(rep, "c14", stubs=STUBS, limit=300 if tier == "quick" else 2000, caselimit=200)
    return rep.finish()
