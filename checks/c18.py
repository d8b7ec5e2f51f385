import vlib
from c01 import ENGINE
META = {"technique": ENGINE,
        "note": "Spherical-harmonic values and angular integrals are compared as polynomial identities for every direction / every set of harmonic values; coefficients and L matrices exactly, up to the documented maxima."}
STUBS = ("pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables")
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "spherical_to_cartesian_coef, evaluate_real_spherical_harmonic(s_array), angular_type1_integral, angular_type2_integral and the angular-momentum matrices executed symbolically against solid harmonics built from Legendre derivatives")
    rep.bounds = ["coefficients and values for all l<=30 (the largest l the integrals need); every direction k (one symbolic direction above l=10 quick / 20 thorough)", "angular integrals lambda<=12, L<=6, a+b+c<=6 (quick); lambda<=20, L<=10, a+b+c<=10 (thorough)", "L matrices l<=10"]
    rep.assumptions = ["floating-point operations are exact reals"]
    vlib.run_engine(rep, "c18", stubs=STUBS, limit=600 if tier == "quick" else 6000, caselimit=300 if tier == "quick" else 2000)
    return rep.finish()
