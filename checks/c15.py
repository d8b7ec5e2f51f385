import vlib
from c01 import ENGINE
META = {"technique": ENGINE,
        "note": "Each nuclear model: the potential function the code hands to the radial layer must equal the model's closed-form potential (itself shown to solve Poisson's equation in C14), and every matrix element must equal that potential times the closed angular average of the two Gaussians, for all exponents, coefficients and geometries explored and every radius; the specialised routines must return the general routine's matrix and results be linear in the charge."}
STUBS = ("tabulate_radial_type1_integrals", "get_radial_type1_integral", "delete_radial_type1_integrals", "specfunc_fermi_sk", "boys_values", "boys_function", "gfun_values", "pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables")
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "libgrpp_nuclear_attraction_integrals and its five wrappers executed symbolically; the radial table is replaced by its integrand at a symbolic radius r; oracle: model potential times derivatives of the closed angular average of the Gaussian product, on both sides of the nuclear surface; wrappers against the general routine; linearity in the charge")
    rep.bounds = ["L_A + L_B <= 2 (quick) / 4 (thorough) with all parameters symbolic in six coincidence patterns; up to 3+2 (quick) / 4+4 (thorough) at rational geometry", "1..3 primitives", "integer charges listed per case; linearity for Z in {-3,0,1,2,17,118}", "replay models restricted to model parameters between 1/4 and 3"]
    rep.assumptions = ["floating-point operations are exact reals", "type-1 radial integrals equal the integral of the modelled integrand (C21)", "specfunc_fermi_sk = S_k (C13)"]
    vlib.run_engine(rep, "c15", stubs=STUBS, limit=400 if tier == "quick" else 8000, caselimit=300 if tier == "quick" else 2000)
    return rep.finish()
