import vlib
META = {"technique": "CBMC bounded model checking over symbolic histories of calls, native replay under sanitizers; results across init/finalize cycles compared by symbolic execution",
        "note": "All histories of up to 8 (quick) or 10 operations from the start of the program. Concurrent initialisation is outside (OpenMP critical sections are not encoded)."}
def run(prop, tier):
    q = tier == "quick"; n = 8 if q else 10
    rep = vlib.Report(prop, tier, "model_checking", "init/finalize/is_initialized and the parameter setters as state machines: every history of operations up to the bound, decided by CBMC.")
    rep.bounds = [f"histories of {n} operations for init/finalize, {6 if q else 7} for setters", "tolerances: any finite double within 1e100"]
    rep.assumptions = ["table builders replaced by counters in the history cases; the real ones run in the cycle cases", "single thread"]
    vlib.run_bmc(rep, "state", [("lifecycle", "case_lifecycle", [f"-DSTEPS={n}"], n + 3), ("setters", "case_setters", [f"-DSTEPS={6 if q else 7}"], 12)], timeout=300 if q else 2000)
    vlib.run_engine(rep, "c19", limit=200, caselimit=150)
    return rep.finish()
