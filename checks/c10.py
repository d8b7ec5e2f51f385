import vlib
import c09
from c01 import ENGINE
META = {"technique": "CBMC for the lists of components and the histories of order selection; " + ENGINE + " for the invariance of every integral and gradient under reordering",
        "note": "Lists: every position, L = 0..11, every built-in and a custom generator, every previous selection. Invariance: shells A, B, the outercore shells and the current selection each in their own order; contraction coefficients symbolic, exponents and geometry rational."}
def run(prop, tier):
    q = tier == "quick"
    rep = vlib.Report(prop, tier, "model_checking", "Component lists decided position by position; every integral and gradient routine executed symbolically under two listings of the components, elements compared by label.")
    rep.bounds = ["lists: L = 0..11; histories of three selections with L <= 3", "integrals: L_A+L_B+L <= 6 (overlap, kinetic, momentum), 5 (local, nuclear), 4 (semilocal, spin-orbit, outercore), 3 (full, gradients), one more in the thorough tier; a third or half of the combinations in the quick tier"]
    rep.assumptions = ["floating-point operations are exact reals", "radial integrals are function symbols"]
    c = []
    for L in range(12):
        for p in ((2,) if q else (0, 1, 2, 3)): c.append((f"list_L{L}_after{p}", "case_list", [f"-DLV={L}", f"-DOP0={p}"], 82))
    for L in range(0, 3 if q else 4): c.append((f"history_L{L}", "case_history", [f"-DLV={L}", "-DOP0=0"], 12))
    vlib.run_bmc(rep, "orders", c, timeout=300 if q else 1500)
    vlib.run_engine(rep, "c10", stubs=c09.STUBS, limit=250 if q else 3000, caselimit=200 if q else 1000)
    return rep.finish()
