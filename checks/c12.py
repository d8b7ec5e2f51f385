import vlib
import c04, c09, c14, c15
from c01 import ENGINE
META = {"technique": ENGINE + "; every store, allocation and release of the call is checked against the call's own stack, allocations and outputs on every path (exits of the paths decided by Z3)",
        "note": "The frame condition (a call writes nothing that another call can see) is what makes every interleaving equivalent to the calls run one after another; the interleavings themselves are not enumerated. Initialisation and finalisation are C19."}
def run(prop, tier):
    q = tier == "quick"
    rep = vlib.Report(prop, tier, "model_checking", "Every store of every integral and gradient routine lands in the call's own stack, in memory allocated by the call (and released by it) or in its outputs, on every path for all exponents, coefficients and geometries of the configuration. Counterexamples are replayed on a build of the same sources with native floating point and the same store monitor.")
    rep.bounds = ["symbolic geometry (five coincidence patterns), coefficients symbolic: L_A+L_B+L <= 4 (one-electron), 3 (local, nuclear, semilocal, spin-orbit), 2 (outercore, full, gradients), one more in the thorough tier",
                  "real radial code, rational geometry and exponents, coefficients symbolic: 8 (one-electron), 6 (local, point charge), 1 (other nuclear models), 4 (semilocal, spin-orbit, overlap and local gradients), 3 (outercore and its gradient), 2 (semilocal and spin-orbit gradients), 1 (full) (two more in the thorough tier)", "the same object given for both shells: included"]
    rep.assumptions = ["sequential consistency is not needed: no location is written by one call and accessed by another", "malloc/free of the C library are thread safe"]
    stubs = tuple(sorted(set(s for s in c09.STUBS if not s.startswith("libgrpp_")) | set(c15.STUBS)))
    vlib.run_engine(rep, "c12", stubs=stubs, hookmem=True, limit=150 if q else 3000, caselimit=100 if q else 1000)
    vlib.run_engine(rep, "c12", stubs=("create_real_spherical_harmonic_coeffs_tables",), hookmem=True, limit=150 if q else 3000, caselimit=100 if q else 1000, env={"C12_REAL": "1"})
    return rep.finish()
