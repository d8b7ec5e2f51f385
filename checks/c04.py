import vlib
from c01 import ENGINE
META = {"technique": ENGINE,
        "note": "The radial integral is represented by its integrand at a symbolic radius, so the solver shows the angular assembly exact for every r, exponent, coefficient and geometry explored; the quadrature itself is C21; angular integrals and special functions enter as their own engine-checked groups."}
STUBS = ("pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables", "tabulate_radial_type2_integrals", "get_radial_type2_integral", "delete_radial_type2_integrals", "angular_type2_integral")
def run(prop, tier, so=0):
    what = "libgrpp_spin_orbit_integrals" if so else "libgrpp_type2_integrals"
    rep = vlib.Report(prop, tier, "model_checking", what + " executed symbolically; the radial table is replaced by its integrand at a symbolic radius r and every matrix element must equal r^2 U(r) times the product of the two projections of the Gaussians on Y_Lm, obtained from centre derivatives of the s-type projection")
    rep.bounds = ["L<=3, L_A,L_B<=2 with every parameter symbolic (quick); L up to 10 and L_A,L_B up to 10 with one symbolic direction per centre and rational exponents (listed shapes)", "all coincidence patterns of the three centres", "1..5 primitives, 0..4 potential terms"]
    rep.assumptions = ["floating-point operations are exact reals", "radial integrals equal the integral of the modelled integrand (C21, C13)", "|x| < 1e-12 tests on symbolic x are true only for x = 0"]
    vlib.run_engine(rep, "c04", stubs=STUBS, limit=240 if tier == "quick" else 6000, caselimit=250 if tier == "quick" else 2000, env={"T2_SO": str(so)})
    return rep.finish()
