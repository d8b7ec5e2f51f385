import re
import vlib
META = {"technique": "CBMC bounded model checking of fortran.c (with shell.c, potential.c, parameters.c) against recording stand-ins for the C routines, native replay under sanitizers; normalisation helper by symbolic execution with Z3",
        "note": "Contents of all arguments symbolic; array lengths 0..2 and angular momenta fixed per case (several combinations). libgrpp_outercore_potential_integrals_gradient_ has no Fortran entry point in the code."}
def run(prop, tier):
    q = tier == "quick"
    rep = vlib.Report(prop, tier, "model_checking", "Every Fortran entry point called with symbolic arguments; the stand-in of the C routine checks shells, potentials, origins, charges, parameters and writes symbolic results, which must reach the caller; memory errors and leaks are decided too.")
    rep.bounds = ["(L_A, L_B) = (1,2), (2,0)%s; contraction lengths 0..2, potential terms 0..2 incl. zero terms" % ("" if q else ", (0,3), (3,1)"), "numbers: any finite double within 1e100"]
    rep.assumptions = ["malloc and calloc succeed"]
    names = re.findall(r"^void case_(\w+)\(void\)", open(vlib.ROOT + "/checks/bmc/fortran.c").read(), re.M)
    v = [("", []), ("_b", ["-DLA=2", "-DLB=0", "-DNA=1", "-DNB=2", "-DNP=1", "-DNP2=2", "-DNS=1", "-DNS2=2"]), ("_z", ["-DLA=1", "-DLB=1", "-DNA=1", "-DNB=1", "-DNP=2", "-DNP2=1", "-DNS=1", "-DNS2=1", "-DZTERM=0"]), ("_y", ["-DLA=1", "-DLB=1", "-DNA=1", "-DNB=1", "-DNP=2", "-DNP2=1", "-DNS=1", "-DNS2=1", "-DZTERM=1"]), ("_0", ["-DLA=0", "-DLB=1", "-DNA=1", "-DNB=1", "-DNP=0", "-DNP2=0", "-DNS=1", "-DNS2=1"])]
    if not q: v += [("_c", ["-DLA=0", "-DLB=3", "-DNA=3", "-DNB=3", "-DNP=3", "-DNP2=3", "-DNS=3", "-DNS2=3"]), ("_d", ["-DLA=3", "-DLB=1", "-DNA=2", "-DNB=3", "-DNP=3", "-DNP2=2", "-DNS=2", "-DNS2=3"])]
    c = []
    for s, d in v:
        for n in names:
            if s in ("_z", "_y", "_0") and not re.search("type|spin|outer", n): continue
            if s in ("_z", "_y", "_0") and n == "element" or s and re.search("init|finalize|parameters|charge_density|potential_(?!integrals)|rms_r|estimate", n): continue
            if n == "element":
                la, lb = {"": (1, 2), "_b": (2, 0), "_c": (0, 3), "_d": (3, 1)}[s]
                for i in range((la + 1) * (la + 2) // 2):
                    for j in range((lb + 1) * (lb + 2) // 2):
                        if q and (i + j) % 2: continue
                        c.append((f"{n}{s}_{i}_{j}", "case_" + n, d + [f"-DIA={i}", f"-DIB={j}"], 20, ["--object-bits", "10"]))
                continue
            c.append((n + s, "case_" + n, d, 20, ["--object-bits", "10"]))
    vlib.run_bmc(rep, "fortran", c, timeout=200 if q else 1200)
    vlib.run_engine(rep, "c16", limit=200 if q else 1500, caselimit=100 if q else 600)
    return rep.finish()
