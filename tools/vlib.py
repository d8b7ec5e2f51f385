"""Common machinery of the checks: builds the engine and the library from the current /repo, runs the shards, writes evidence."""
import fcntl, glob, hashlib, json, os, re, shlex, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "libgrpp")
BUILD = os.path.join(ROOT, "build")
NPROC = min(8, os.cpu_count() or 1)
CXXF = "-std=gnu++20 -O2 -fPIC -w".split()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

class BuildError(Exception):
    pass

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

class lock:
    def __init__(self, name): self.name = name
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, self.name + ".lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def par(jobs):
    with ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(sh, j) for j in jobs]: f.result()

def engine():
    """builds the engine; returns its directory"""
    E = os.path.join(ROOT, "engine")
    src = [f for f in glob.glob(E + "/*") if f.endswith((".cpp", ".h"))]
    hdr = glob.glob(SRC + "/*.h")
    d = os.path.join(BUILD, "engine-" + digest(src + hdr))
    with lock("engine"):
        if os.path.exists(d + "/ok"): return d
        os.makedirs(d, exist_ok=True)
        cf = [x for x in sh(["llvm-config-18", "--cxxflags"]).split() if x != "-fno-exceptions"]
        par([["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti"] + cf + [E + "/pass.cpp", "-o", d + "/SymFP.so", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]] +
            [["g++"] + CXXF + ["-I" + SRC, "-c", f"{E}/{n}.cpp", "-o", f"{d}/{n}.o"] for n in ("rt", "poly", "harness")])
        open(d + "/ok", "w").close()
    return d

def lib_sources():
    """the translation units of the library target, as its build file lists them"""
    txt = open(SRC + "/CMakeLists.txt").read()
    fs = [os.path.join(SRC, x) for x in re.findall(r"^\s*([\w/]+\.c)\s*$", txt, re.M)]
    fs = [f for f in fs if os.path.exists(f)]
    return fs or sorted(glob.glob(SRC + "/*.c"))

def src_digest():
    return digest([f for f in glob.glob(SRC + "/*.[ch]")], "")

def objs_compile(cc, flags, d, env=None, only=None):
    jobs = []
    outs = []
    e = dict(os.environ); e.update(env or {})
    srcs = lib_sources()
    def one(f):
        o = os.path.join(d, os.path.basename(f)[:-2] + ".o")
        sh(cc + flags + ["-c", f, "-o", o], env=e); return o
    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(one, sorted(srcs, key=lambda f: -os.path.getsize(f))))
    return outs

def hook_lib():
    """the real code with its stores and allocations reported to the engine, floating point untouched"""
    e = engine()
    d = os.path.join(BUILD, "hook-" + digest([e + "/SymFP.so"], src_digest()))
    with lock("hook"):
        so = d + "/libhook.so"
        if os.path.exists(so): return so
        os.makedirs(d, exist_ok=True)
        o = objs_compile(["clang-18"], ["-std=gnu11", "-O1", "-fPIC", "-w", "-fno-builtin", "-fpass-plugin=" + e + "/SymFP.so"], d, {"SYMFP_HOOKMEM": "1", "SYMFP_NOFP": "1"})
        sh(["clang-18", "-shared", "-o", so + ".t"] + o + ["-lm", "-Wl,-Bsymbolic"]); os.rename(so + ".t", so)
    return so

def nat_lib():
    d = os.path.join(BUILD, "nat-" + src_digest())
    with lock("nat"):
        so = d + "/libnat.so"
        if os.path.exists(so): return so
        os.makedirs(d, exist_ok=True)
        o = objs_compile(["gcc"], ["-std=gnu11", "-O3", "-fopenmp", "-fPIC", "-w"], d)
        sh(["gcc", "-shared", "-fopenmp", "-o", so + ".t"] + o + ["-lm", "-Wl,-Bsymbolic"]); os.rename(so + ".t", so)
    return so

SYMFLAGS = ["-std=gnu11", "-O1", "-fPIC", "-w", "-fno-builtin", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-funwind-tables", "-fexceptions", "-mlong-double-64"]
def sym_lib(stubs=(), hookmem=False, cflags=()):
    e = engine()
    key = digest([e + "/SymFP.so"], ",".join(sorted(stubs)) + str(hookmem) + " ".join(cflags) + src_digest())
    d = os.path.join(BUILD, "sym-" + key)
    with lock("sym-" + key):
        so = d + "/libsym.so"
        if os.path.exists(so): return so
        os.makedirs(d, exist_ok=True)
        env = {"SYMFP_STUB": ",".join(stubs)}
        if hookmem: env["SYMFP_HOOKMEM"] = "1"
        o = objs_compile(["clang-18"], SYMFLAGS + list(cflags) + ["-fpass-plugin=" + e + "/SymFP.so"], d, env)
        sh(["clang-18", "-shared", "-o", so + ".t"] + list(cflags) + o + ["-lm", "-Wl,-Bsymbolic"]); os.rename(so + ".t", so)
    return so

ASANLIB = ["-fsanitize=address,bounds", "-fsanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-mllvm", "-asan-use-private-alias=1"]
def asan_lib():
    """the real code with sanitizers, floating point untouched"""
    d = os.path.join(BUILD, "asan-" + digest([], " ".join(ASANLIB) + src_digest()))
    with lock("asan"):
        so = d + "/libasan.so"
        if os.path.exists(so): return so
        os.makedirs(d, exist_ok=True)
        o = objs_compile(["clang-18"], ["-std=gnu11", "-O1", "-fPIC", "-w", "-fno-builtin"] + ASANLIB, d)
        sh(["clang-18", "-shared", "-o", so + ".t"] + o + ["-lm", "-Wl,-Bsymbolic"]); os.rename(so + ".t", so)
    return so

def harness(name, extra=(), asan=False):
    """compiles checks/<name>.cpp against the engine"""
    e = engine()
    src = os.path.join(ROOT, "checks", name + ".cpp")
    deps = [src] + glob.glob(os.path.join(ROOT, "checks", "*.h")) + [e + "/rt.o", e + "/poly.o", e + "/harness.o"]
    exe = os.path.join(BUILD, "%s-%s" % (name, digest(deps, " ".join(extra))))
    with lock(name):
        if not os.path.exists(exe):
            if asan:
                sh(["g++"] + CXXF + ["-O1", "-I" + SRC, "-I" + ROOT + "/engine", "-I" + ROOT + "/checks", "-c", src, "-o", exe + ".o"])
                sh(["clang++-18", "-fsanitize=address,undefined", "-rdynamic", "-o", exe + ".t", exe + ".o", e + "/rt.o", e + "/poly.o", e + "/harness.o", "-lz3", "-lgmpxx", "-lgmp", "-lquadmath", "-ldl"])
            else: sh(["g++"] + CXXF + ["-O1", "-I" + SRC, "-I" + ROOT + "/engine", "-I" + ROOT + "/checks", "-rdynamic", "-o", exe + ".t", src, e + "/rt.o", e + "/poly.o", e + "/harness.o"] + list(extra) + ["-lz3", "-lgmpxx", "-lgmp", "-lquadmath", "-ldl"])
            os.rename(exe + ".t", exe)
    return exe

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]

class Report:
    """collects the results of one check run and turns them into evidence and an exit status"""
    def __init__(self, prop, tier, level, title):
        self.prop, self.tier, self.level, self.title = prop, tier, level, title
        self.t0 = time.time(); self.viol = []; self.known = []; self.notes = []; self.obligations = 0; self.discharged = 0
        self.queries = 0; self.solver_s = 0.0; self.paths = 0; self.steps = 0; self.validated = 0; self.functions = set(); self.cases = []; self.inconclusive = []; self.unconfirmed = []; self.skipped = []
        self.assumptions = []; self.bounds = []; self.extra = {}
    def violation(self, case, text, replay):
        for k in known_findings(self.prop):
            if k.get("status") == "known" and re.fullmatch(k["case"], case) and re.search(k.get("text", ""), text):
                self.known.append((k, case, text)); return
        self.viol.append((case, text, replay))
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
              "wall_s": round(time.time() - self.t0, 2),
              "coverage": {"explanation": self.title, "bounds": self.bounds, "functions_encoded": sorted(self.functions),
                           "obligations": self.obligations, "discharged": self.discharged, "states": self.paths, "transitions": self.steps,
                           "traces_validated_against_impl": self.validated, "samples": self.cases[:400],
                           "queries": self.queries, "solver_seconds": round(self.solver_s, 3),
                           "checker_cmd": f"python3 /verif/run_check.py {self.prop} {self.tier}",
                           "trusted_base": ["clang-18 front end", "engine/pass.cpp", "engine/rt.cpp", "engine/poly.cpp", "Z3 4.8.12", "CBMC 6.11.0 where used"],
                           "inconclusive": self.inconclusive, "unconfirmed": self.unconfirmed, "skipped": self.skipped, "notes": self.notes, **self.extra},
              "violations": len(self.viol),
              "assumptions": self.assumptions}
        ev["coverage"]["violation_list"] = [{"case": c, "what": t, "replay": r} for c, t, r in self.viol]
        if self.known: ev["coverage"]["known_findings"] = sorted({k["what"] for k, _, _ in self.known})
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        p = f"{ROOT}/evidence/{self.prop}.json"
        json.dump(ev, open(p + ".t", "w"), indent=1); os.rename(p + ".t", p)
        for w in sorted({k["what"] for k, _, _ in self.known}): print(f"KNOWN-FINDING: property={self.prop} {w}")
        for c, t, r in self.viol[:20]: print(f"VIOLATION property={self.prop} replay={r}\n  case {c}: {t}")
        print(f"{self.prop} {self.tier}: {self.discharged}/{self.obligations} obligations discharged, {self.paths} paths, {self.queries} queries, {self.solver_s:.1f} s in solvers, {self.validated} paths replayed on the production build, {len(self.viol)} violations, {len(self.inconclusive)} inconclusive, {len(self.unconfirmed)} unconfirmed, {len(self.skipped)} skipped, {time.time()-self.t0:.0f} s")
        sys.stdout.flush()
        return 1 if self.viol else 0

def run_engine(rep, name, stubs=(), limit=600, caselimit=400, hookmem=False, cflags=(), extra=(), jobs=NPROC, mem=3800, env=None, tier=None, filter=None, asan=False):
    """runs one engine-based harness and folds its results into the report"""
    with ThreadPoolExecutor(3) as ex:
        if asan: cflags = tuple(cflags) + tuple(ASANLIB); mem = 40000000; env = dict(env or {}, ASAN_OPTIONS="halt_on_error=0:detect_leaks=0:symbolize=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:quarantine_size_mb=32:malloc_context_size=4:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_odr_violation=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        a = ex.submit(sym_lib, stubs, hookmem, cflags); b = ex.submit(asan_lib if asan else hook_lib if hookmem else nat_lib); c = ex.submit(harness, name, extra, asan)
        so, nat, exe = a.result(), b.result(), c.result()
    rd = os.path.join(BUILD, "replay", rep.prop); os.makedirs(rd, exist_ok=True)
    e = dict(os.environ); e["OMP_NUM_THREADS"] = "1"; e.update(env or {})
    p = subprocess.Popen([exe, "--sym", so, "--nat", nat, "--tier", tier or rep.tier, "--jobs", str(jobs), "--limit", str(limit), "--caselimit", str(caselimit), "--mem", str(mem), "--dir", rd] + (["--filter", filter] if filter else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None, text=True, env=e)
    seen = 0
    for line in p.stdout:
        if not line.startswith("RESULT\t"): continue
        f = line.rstrip("\n").split("\t"); seen += 1
        _, cid, st, paths, proved, nobl, val, q1, s1, q2, s2, ntiny, steps, secs, text, vfile, fns = f[:17]
        if os.environ.get("VERIF_DEBUG") or st not in ("proved",): print(f"  {st:12s} {cid:40s} paths {paths} obl {proved}/{nobl} {float(secs):.1f}s {text}", flush=True)
        rep.paths += int(paths); rep.steps += int(steps); rep.obligations += int(nobl); rep.discharged += int(proved); rep.validated += int(val); rep.queries += int(q1) + int(q2); rep.solver_s += float(s1) + float(s2)
        rep.functions.update(x for x in fns.split(",") if x)
        rep.cases.append({"case": cid, "status": st, "paths": int(paths), "obligations": int(nobl), "seconds": round(float(secs), 2)})
        if st == "violation": rep.violation(cid, text, vfile)
        elif st == "inconclusive": rep.inconclusive.append(cid + ": " + text)
        elif st == "unconfirmed": rep.unconfirmed.append(cid + ": " + text)
        elif st == "skipped": rep.skipped.append(cid)
    p.wait()
    if p.returncode not in (0,): raise BuildError(f"harness {name} exited with {p.returncode}")
    if not seen: raise BuildError(f"harness {name} ran no case")
    return rep

# ------------------------------------------------------------------ CBMC
ASAN = ["-std=gnu11", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
def bmc_objs():
    """every library source compiled to a goto binary and, with sanitizers, to an object; returns the directory"""
    d = os.path.join(BUILD, "bmc-" + src_digest())
    with lock("bmc"):
        if os.path.exists(d + "/ok"): return d
        os.makedirs(d, exist_ok=True)
        js = []
        for f in lib_sources():
            b = d + "/" + os.path.basename(f)[:-2]
            js += [["goto-cc", "-I" + SRC, "-c", f, "-o", b + ".gb"], ["gcc"] + ASAN + ["-I" + SRC, "-c", f, "-o", b + ".o"]]
        par(js)
        open(d + "/ok", "w").close()
    return d

def nm(o):
    d, u = set(), set()
    for l in sh(["nm", o]).splitlines():
        p = l.split()
        if p[-2] == "U": u.add(p[-1])
        elif p[-2] in "TDBRVWGSC": d.add(p[-1])
    return d, u

def bmc_build(src, defs, stubs):
    """links one harness variant; returns (goto binary, native program)"""
    d = bmc_objs()
    w = os.path.join(ROOT, "checks", "bmc", src + ".c")
    deps = [w] + glob.glob(ROOT + "/checks/*.h") + glob.glob(ROOT + "/checks/bmc/*.h") + [ROOT + "/checks/nd_main.c"]
    key = digest(deps, " ".join(defs) + "|" + ",".join(stubs) + src_digest())
    o = os.path.join(BUILD, "bmch", src + "-" + key)
    with lock("bmch-" + key):
        if os.path.exists(o + "/ok"): return o + "/all.gb", o + "/prog", open(o + "/ok").read().split()
        os.makedirs(o, exist_ok=True)
        inc = ["-I" + SRC, "-I" + ROOT + "/checks", "-I" + ROOT + "/checks/bmc"] + list(defs)
        sh(["gcc"] + ASAN + inc + ["-c", w, "-o", o + "/h.o"])
        # the translation units the harness needs, with the stubs taking the place of the library's definitions
        info = {os.path.basename(f)[:-2]: nm(d + "/" + os.path.basename(f)[:-2] + ".o") for f in lib_sources()}
        hd, need = nm(o + "/h.o"); need = set(need); use = []
        grow = True
        while grow:
            grow = False
            for t, (df, un) in info.items():
                if t not in use and (df & need) - hd:
                    use.append(t); need |= un; grow = True
        gbs = []
        for t in use:
            kill = sorted(info[t][0] & hd)
            g = f"{d}/{t}.gb"
            if kill:
                g2 = f"{o}/{t}.gb"
                sh(["goto-instrument"] + [x for k in kill for x in ("--remove-function-body", k)] + [g, g2]); g = g2
            gbs.append(g)
        sh(["goto-cc", "-DND_BMC"] + inc + ["-c", w, "-o", o + "/h.gb"])
        sh(["goto-cc", "-o", o + "/all.gb", o + "/h.gb"] + gbs)
        # natively, the library's definitions of stubbed functions become weak
        nos = []
        for t in use:
            n = f"{d}/{t}.o"; kill = sorted(info[t][0] & hd)
            if kill:
                n2 = f"{o}/{t}.o"; sh(["objcopy"] + ["--weaken-symbol=" + k for k in kill] + [n, n2]); n = n2
            nos.append(n)
        sh(["gcc"] + ASAN + ["-rdynamic", "-o", o + "/prog", o + "/h.o", ROOT + "/checks/nd_main.c"] + nos + ["-lm", "-ldl"])
        open(o + "/ok", "w").write(" ".join(use))
    return o + "/all.gb", o + "/prog", use

def nd_values(trace):
    v = {}
    for s in trace:
        if s.get("stepType") != "assignment": continue
        m = re.fullmatch(r"ND_([ID])\[(\d+)[lL]*\]", s.get("lhs", ""))
        if m and "value" in s and "binary" in s["value"]:
            b = s["value"]["binary"]; k = int(m.group(2))
            if m.group(1) == "I":
                x = int(b, 2); x -= (1 << len(b)) if b[0] == "1" else 0; v["I", k] = str(x)
            else: v["D", k] = "%016x" % int(b, 2)
    return v

def bmc_case(src, case, fn, defs, unwind, opts, timeout, stubs, rd):
    t0 = time.time()
    gb, prog, use = bmc_build(src, defs, stubs)
    cmd = ["cbmc", gb, "--function", fn, "--unwind", str(unwind), "--no-malloc-may-fail", "--memory-leak-check", "--drop-unused-functions", "--trace", "--json-ui", "--slice-formula", "--verbosity", "8"] + list(opts)
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 9000000; exec " + " ".join(shlex.quote(c) for c in cmd)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(case=case, status="inconclusive", text="CBMC exceeded %d s" % timeout, secs=time.time() - t0, n=0, ok=0, val=0, use=use, solver=0, steps=0)
    try: js = json.loads(r.stdout)
    except Exception: js = []
    res = next((x["result"] for x in js if isinstance(x, dict) and "result" in x), None)
    msgs = [x.get("messageText", "") for x in js]
    solver = sum(float(m.group(1)) for t in msgs for m in [re.search(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", t)] if m)
    steps = sum(int(m.group(1)) for t in msgs for m in [re.search(r"size of program expression: (\d+) steps", t)] if m)
    out = dict(case=case, n=0, ok=0, val=0, use=use, solver=solver, steps=steps, text="", status="proved")
    if res is None:
        out.update(status="inconclusive", text="CBMC gave no result: " + " ".join(m for m in msgs if m)[-200:], secs=time.time() - t0); return out
    fails = []; reach = None
    for p in res:
        if p.get("description") == "REACHED":
            if p["status"] == "FAILURE": reach = p
            continue
        out["n"] += 1
        if p["status"] == "SUCCESS": out["ok"] += 1
        else: fails.append(p)
    def replay(p, tag):
        f = os.path.join(rd, re.sub(r"\W+", "_", case) + "." + tag + ".in")
        with open(f, "w") as h:
            for (k, i), x in sorted(nd_values(p.get("trace", [])).items()): h.write(f"{k} {i} {x}\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:max_malloc_fill_size=1000000:malloc_fill_byte=203:exitcode=5:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=5", LSAN_OPTIONS="exitcode=6")
        try: q = subprocess.run([prog, fn, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=env)
        except subprocess.TimeoutExpired: return -99, "did not end within 60 s", f
        t = q.stdout
        if "LeakSanitizer has encountered a fatal error" in t: return 0, "leak check not available", f
        why = next((l for l in t.splitlines() if re.search(r"CHECK-FAILED|ERROR: |runtime error|Assertion|SUMMARY", l)), t[-200:])
        return q.returncode, why.strip()[:300], f
    for k, p in enumerate(fails[:6]):
        rc, why, f = replay(p, "v%d" % k)
        if rc not in (0, 77, 78):
            meta = f + ".json"
            json.dump({"harness": src, "function": fn, "defines": list(defs), "inputs": f, "property": p.get("property"), "what": p.get("description"), "native": why, "native_exit": rc}, open(meta, "w"), indent=1)
            out.update(status="violation", text=f"{p.get('description')} (native replay: {why})", replay=meta, secs=time.time() - t0); return out
    if fails:
        out.update(status="unconfirmed", text="; ".join(f"{p.get('property')}: {p.get('description')}" for p in fails[:3]), secs=time.time() - t0)
    if reach is None:
        if not fails: out.update(status="inconclusive", text="the end of the harness is unreachable within the bounds")
    else:
        rc, why, f = replay(reach, "ok")
        if rc == 0: out["val"] = 1
        elif rc in (77, 78): out.update(status="inconclusive", text="witness does not replay: " + why)
        else:
            meta = f + ".json"
            json.dump({"harness": src, "function": fn, "defines": list(defs), "inputs": f, "what": "the witness of a complete run fails natively", "native": why, "native_exit": rc}, open(meta, "w"), indent=1)
            out.update(status="violation", text="the solver's witness of a complete run fails on the real code: " + why, replay=meta)
    out["secs"] = time.time() - t0
    return out

def run_bmc(rep, src, cases, stubs=(), timeout=600, jobs=NPROC):
    """cases: (name, function, defines, unwind, options)"""
    rd = os.path.join(BUILD, "replay", rep.prop); os.makedirs(rd, exist_ok=True)
    bmc_objs()
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(bmc_case, src, c[0], c[1], c[2], c[3], c[4] if len(c) > 4 else [], timeout, stubs, rd) for c in cases]
        for f in fs:
            o = f.result()
            if os.environ.get("VERIF_DEBUG") or o["status"] != "proved": print(f"  {o['status']:12s} {o['case']:40s} obl {o['ok']}/{o['n']} {o['secs']:.1f}s {o['text']}", flush=True)
            rep.obligations += o["n"]; rep.discharged += o["ok"]; rep.paths += 1; rep.steps += o["steps"]; rep.queries += 1; rep.solver_s += o["solver"]; rep.validated += o["val"]
            rep.functions.update("libgrpp/%s.c" % t for t in o["use"])
            rep.cases.append({"case": o["case"], "status": o["status"], "obligations": o["n"], "seconds": round(o["secs"], 2)})
            if o["status"] == "violation": rep.violation(o["case"], o["text"], o["replay"])
            elif o["status"] == "inconclusive": rep.inconclusive.append(o["case"] + ": " + o["text"])
            elif o["status"] == "unconfirmed": rep.unconfirmed.append(o["case"] + ": " + o["text"])
    return rep
