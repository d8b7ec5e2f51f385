import vlib
import c09, c15
from c01 import ENGINE
META = {"technique": ENGINE + "; AddressSanitizer, bounds checks and pattern-initialised memory are compiled into the symbolically executed code, so that every path whose feasibility Z3 decides is also checked for memory errors; CBMC bounded model checking for the table lookups of the special functions",
        "note": "Which elements are accessed depends on angular momenta and on branches taken, not on the values of the exponents and coefficients; angular momenta are enumerated, the branches are decided for symbolic inputs. Recursion depth and memory exhaustion are outside."}
def run(prop, tier):
    q = tier == "quick"
    rep = vlib.Report(prop, tier, "model_checking", "Every routine is executed symbolically with address and bounds checks on each path (shells, projectors up to 10, gradients up to 10); uninitialised heap and stack memory carries a pattern and outputs must be numbers; table indices of Boys and Bessel functions for every double. Replays use a sanitizer build with native floating point.")
    rep.bounds = ["symbolic geometry (five coincidence patterns): L_A+L_B+L <= 3 (one-electron), 2 (nuclear, type 1, semilocal, spin-orbit, overlap gradient), 1 (others), one more in the thorough tier",
                  "rational geometry, symbolic coefficients or scale, all real code: one-electron, nuclear, type 1 with their gradients for all of (10,0..10), (0..10,10) and a spread of the others up to 10 (thorough: all pairs for most routines)",
                  "semilocal and spin-orbit: L = 0..10 with shells up to 10 (radial integrals up to (21,21) separately; projectors 0, 5, 10 in quick); outercore L up to 10, shells up to 10 (total 20 in quick)",
                  "Boys and Bessel table lookups: every double in [0, 1e100], orders 0..20", "spherical harmonics up to 40, angular momentum matrices up to 10"]
    rep.assumptions = ["memory allocation succeeds", "in the L = 10 semilocal cases the tabulated radial and angular integrals are replaced by symbols indexed by their arguments; they are run for real in cases of their own"]
    v = [("boys_small", "case_boys", ["-DXLO=0", "-DXHI=30.5", "-DN=20"], 45), ("boys_any", "case_boys", ["-DN=20"], 45), ("bessel_small", "case_bessel", ["-DXLO=0", "-DXHI=16.5", "-DN=20"], 45), ("bessel_any", "case_bessel", ["-DN=20"], 45)]
    vlib.run_bmc(rep, "tables", v, timeout=150 if q else 900)
    sym = tuple(sorted(set(s for s in c09.STUBS if not s.startswith("libgrpp_")) | set(c15.STUBS)))
    cheap = ("create_real_spherical_harmonic_coeffs_tables", "tabulate_radial_type2_integrals", "get_radial_type2_integral", "delete_radial_type2_integrals", "angular_type2_integral")
    for mode, stubs in (("real", cheap[:1]), ("cheap", cheap), ("sym", sym)):
        vlib.run_engine(rep, "c11", stubs=stubs, asan=True, limit=150 if q else 2500, caselimit=100 if q else 1000, env={"C11_MODE": mode})
    return rep.finish()
