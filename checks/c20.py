import hashlib, math, os
from fractions import Fraction
import vlib
META = {"technique": "CBMC bounded model checking (bit-precise doubles and 64-bit integers) against exact integer arithmetic, native replay under sanitizers; vector and matrix helpers by symbolic execution with Z3 over symbolic reals",
        "note": "n! and n!! with symbolic argument over the tables, every argument up to 120/101 otherwise; ratios up to 80!/m!; binomials up to n = 60 (44 quick). Point comparison: one coordinate any double within 1000, the others at fixed offsets."}
def rnd(x): return float(Fraction(x))
def ref(N0, N1):
    F = [math.factorial(n) for n in range(126)]; D = [1, 1]
    for n in range(2, 126): D.append(n * D[n - 2])
    def arr(name, xs): return "static const double %s[] = {%s};\n" % (name, ",".join(float(x).hex() for x in xs))
    def flg(name, xs): return "static const unsigned char %s[] = {%s};\n" % (name, ",".join(str(int(Fraction(float(x)) == x and x < 2**73)) for x in xs))
    # exactly representable values reachable by exact steps: n <= 22 for n!, n!! while below 2^53
    t = arr("ref_fact", F) + arr("ref_dfact", D)
    t += "static const unsigned char ref_fact_exact[] = {%s};\n" % ",".join(str(int(n <= 22)) for n in range(126))
    t += "static const unsigned char ref_dfact_exact[] = {%s};\n" % ",".join(str(int(D[n] <= 2**53)) for n in range(126))
    rows = ["{" + ",".join(float(F[n] // F[m] if m <= n else 0).hex() for m in range(N1 + 1)) + "}" for n in range(N0, N1 + 1)]
    t += "static const double ref_ratio[%d][%d] = {%s};\n" % (N1 - N0 + 1, N1 + 1, ",\n".join(rows))
    d = os.path.join(vlib.BUILD, "ref20-" + hashlib.sha256(t.encode()).hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    with open(d + "/ref20.h.%d" % os.getpid(), "w") as f: f.write(t)
    os.rename(d + "/ref20.h.%d" % os.getpid(), d + "/ref20.h")
    return ["-I" + d, f"-DN0={N0}", f"-DN1={N1}"]
def run(prop, tier):
    q = tier == "quick"
    rep = vlib.Report(prop, tier, "model_checking", "Combinatorial primitives decided by CBMC against exact references; daxpy, matrix product and distances decided over symbolic reals.")
    rep.bounds = ["n! for n <= 120, n!! for -1 <= n <= 101, n!/m! for n, m <= %d, binomial(n,k) for k <= n <= %d" % ((56, 44) if q else (80, 60)), "y += a x: n <= %d; C += A B: shapes up to %s" % ((12, "10x3x6") if q else (66, "21x10x11"))]
    rep.assumptions = ["vector and matrix helpers: floating-point operations are exact reals"]
    h = ref(0, 20); c = [("factorial_any", "case_factorial_any", h, 30), ("double_factorial_any", "case_double_factorial_any", ref(0, 30), 40), ("max", "case_max", h, 5), *[(f"points_{x}", "case_points", h + [f"-DAX={x}"], 5) for x in range(3)]]
    for a in range(0, 120, 30): c.append((f"factorial_{a}", "case_factorial_n", ref(a, a + 30), 130))
    for a in range(0, 100, 34): c.append((f"double_factorial_{a}", "case_double_factorial_n", ref(a, min(a + 34, 101)), 130))
    for a, b in ([(0, 24), (25, 36), (37, 44), (45, 50), (51, 56)] if q else [(0, 24), (25, 36), (37, 44), (45, 50), (51, 56)] + [(x, x + 2) for x in range(57, 81, 3)]): c.append((f"ratio_{a}", "case_ratio_n", ref(a, b), 90))
    for a, b in ([(0, 20), (21, 34), (35, 40), (41, 44)] if q else [(0, 20), (21, 34), (35, 44), (45, 50), (51, 56), (57, 60)]): c.append((f"binomial_{a}", "case_binomial_n", ref(a, b), 70))
    vlib.run_bmc(rep, "prim", c, timeout=300 if q else 2000)
    vlib.run_engine(rep, "c20", limit=200 if q else 2000, caselimit=100 if q else 600)
    return rep.finish()
