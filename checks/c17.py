import itertools
import vlib
META = {"technique": "CBMC bounded model checking of the C sources (bit-precise, memory safety and leaks), every failure replayed natively under ASan/LSan/UBSan; potential values and normalisation by symbolic execution with Z3",
        "note": "Contents of all arrays symbolic; 0..4 primitives, up to 250 components of a GRPP object, histories of operations up to 8 steps. malloc does not fail (as everywhere in the library)."}
def cases(tier):
    c = []
    q = tier == "quick"
    for n in range(0, 4 if q else 6):
        d = [f"-DNPV={n}", f"-DNP={max(n,1)}"]
        for L in ((0, 2) if q else (0, 1, 2)):
            c.append((f"shell_n{n}_L{L}", "case_shell", d + [f"-DLV={L}"], 20))
            c.append((f"copy_n{n}_L{L}", "case_shell_copy", d + [f"-DLV={L}"], 20))
        c.append((f"potential_n{n}", "case_potential", d, 20))
        if n < 3 or not q: c.append((f"shellshrink_n{n}", "case_shell_shrink", d, 7))
        if n < 3: c.append((f"potshrink_n{n}", "case_potential_shrink", d, 7))
    for z in range(16):
        if q and z not in (0, 1, 5, 6, 8, 15): continue
        d = ["-DNPV=4", "-DNP=4", f"-DZM={z}"]
        c.append((f"shellshrink_z{z}", "case_shell_shrink", d, 7)); c.append((f"potential_z{z}", "case_potential", d, 7))
        c.append((f"potshrink_z{z}", "case_potential_shrink", d, 7))
    for m in ((1, 100, 101, 201) if q else (1, 2, 99, 100, 101, 199, 200, 201, 250, 301)):
        for k in (1, 2, 3):
            c.append((f"many_{m}_kind{k}", "case_grpp_many", [f"-DMANY={m}", f"-DKIND={k}"], m + 5, ["--object-bits", "14", "--max-field-sensitivity-array-size", str(m + 200)]))
    hb = ["--object-bits", "12"]
    c.append(("history_any2", "case_grpp_history", ["-DSTEPS=2"], 7, hb))
    if not q: c.append(("history_any3", "case_grpp_history", ["-DSTEPS=3"], 7, hb))
    hist = [(0, 4), (0, 0), (0, 4, 4, 0), (4, 0, 1, 0, 4), (0, 1, 2, 3, 0, 4), (3, 3, 2, 2, 1, 1), (1, 3, 1, 3, 2, 0), (2, 1, 2, 0, 3, 0, 4, 0)]
    if not q: hist += [h for h in itertools.product(range(5), repeat=3)]
    for h in hist:
        c.append(("history_" + "".join(map(str, h)), "case_grpp_history", [f"-DSTEPS={len(h)}", "-DOPS=" + ",".join(map(str, h))], 10, hb))
    return c
def run(prop, tier):
    rep = vlib.Report(prop, tier, "model_checking", "Shell, potential and GRPP constructors, copies, shrinking and destructors, decided by CBMC over symbolic contents.")
    rep.bounds = ["number of primitives 0..3 (quick) or 0..5 with arbitrary contents, 4 with every zero pattern", "GRPP objects with up to 201 (quick) or 301 components of a kind", "histories of GRPP operations: all of length 2 (quick) or 3, chosen ones up to 8", "|coefficients|, exponents, coordinates <= 1e100; |coefficient| between 0 and 3e-14 excluded (the library's zero threshold is 1e-14)"]
    rep.assumptions = ["malloc, calloc and realloc succeed"]
    vlib.run_bmc(rep, "objects", cases(tier), timeout=300 if tier == "quick" else 1500)
    vlib.run_engine(rep, "c17", limit=200, caselimit=100)
    return rep.finish()
