#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  run.py check PROP quick|thorough     decide one property (exit 0 held, 1 VIOLATION, other: error of the check)
  run.py replay FILE                   rebuild and replay a reported violation, verbosely
  run.py selftest [SCENARIO...]        determinism: every seed twice, different processes and worker counts
  run.py build VARIANT...              build only
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")
NCPU = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
sys.path.insert(0, HERE)
from checks import CHECKS, SCEN_FILES

class CheckError(Exception): pass
def log(*a): print(*a, flush=True)
def tool(*names):
    for n in names:
        p = shutil.which(n) or (n if os.path.exists(n) else None)
        if p: return p
    raise CheckError("tool not found: %s" % (names,))
CC = CXX = OBJCOPY = SYMB = None
def tools():
    global CC, CXX, OBJCOPY, SYMB
    CC = tool("/usr/bin/clang-18", "clang-18", "clang"); CXX = tool("/usr/bin/clang++-18", "clang++-18", "clang++")
    OBJCOPY = tool("objcopy", "llvm-objcopy-18"); SYMB = tool("addr2line", "llvm-addr2line-18")

TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-fstack-protector-all", "-fno-omit-frame-pointer", "-fno-builtin-abs", "-ftrivial-auto-var-init=pattern"]
VARIANTS = { # build configurations of the code under test
    "dbg": ["-D_DEBUG"],
    "rel": ["-DNDEBUG"],
    "mem": ["-DNDEBUG", "-DFIFTYONE_DEGREES_MEMORY_ONLY"],
    "nothr": ["-DNDEBUG", "-DFIFTYONE_DEGREES_NO_THREADING"],
}
OPTIONAL = ("mem", "nothr") # configurations nobody ships by default
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout
def digest(paths, extra):
    h = hashlib.sha256(json.dumps(extra).encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def build(variant, scens):
    """Compiles /repo's current sources with access instrumentation, redirects their libc calls to the simulator and links the scenarios."""
    tools()
    csrc = sorted(glob.glob(os.path.join(REPO, "*.c"))); cppsrc = sorted(glob.glob(os.path.join(REPO, "*.cpp")))
    hdr = glob.glob(os.path.join(REPO, "*.h")) + glob.glob(os.path.join(REPO, "*.hpp"))
    files = sorted({SCEN_FILES[s] for s in scens})
    cxx = any(f == "scen_cpp.cpp" for f in files)
    sims = glob.glob(os.path.join(SIM, "*"))
    defs = VARIANTS[variant]
    key = digest(csrc + hdr + cppsrc + [os.path.abspath(__file__)], ["repo", TSAN, defs]) ; skey = digest(sims, ["sim", key, files])
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (variant, skey)); exe = os.path.join(out, "sim")
    if os.path.exists(exe): return exe
    tmp = out + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    pool = cf.ThreadPoolExecutor(NCPU)
    o = lambda n: os.path.join(tmp, n)
    base = ["-g", "-fno-pie", "-w", "-iquote", REPO]
    fut = [pool.submit(run, [CXX, "-std=c++20", "-O2", "-g", "-fno-pie", "-w", "-c", os.path.join(SIM, f + ".cpp"), "-o", o(f + ".rt.o")]) for f in ("rt", "wrap")]
    futs = []
    for f in files:
        futs.append(pool.submit(run, [CXX, "-std=c++20", "-O1"] + base + defs + ["-iquote", SIM, "-c", os.path.join(SIM, f), "-o", o(f + ".h.o")]))
    robj = []
    for s in csrc:
        t = o(os.path.basename(s) + ".r.o"); robj.append(t)
        futs.append(pool.submit(run, [CC, "-c", "-std=gnu11", "-O1"] + base + TSAN + defs + [s, "-o", t]))
    if cxx:
        for s in cppsrc + [os.path.join(SIM, "unit_cpp.cpp")]:
            t = o(os.path.basename(s) + ".r.o"); robj.append(t)
            futs.append(pool.submit(run, [CXX, "-c", "-std=gnu++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=-1"] + base + TSAN + defs + [s, "-o", t]))
    for f in fut + futs: f.result()
    names = set()
    for f in ("rt", "wrap"):
        for l in run(["nm", "--defined-only", o(f + ".rt.o")]).splitlines():
            w = l.split()
            if len(w) == 3 and w[2].startswith("sim_"): names.add(w[2])
    names.discard("sim_switch")
    with open(o("redef"), "w") as fh:
        for n in sorted(names): fh.write("%s %s\n" % (n[4:], n))
    list(pool.map(lambda t: run([OBJCOPY, "--redefine-syms=" + o("redef"), t]), robj))
    if cxx: # the code under test gets its own standard library functions, in a section of its own so that its allocations are known
        m = o("repo.all.o"); run(["ld", "-r", "--force-group-allocation", "-o", m] + robj); loc = set()
        for l in run(["nm", m]).splitlines():
            w = l.split()
            if len(w) == 3 and w[1] in "WVu" and re.match("_ZN?K?St|_ZN9__gnu_cxx|_ZNK?S[absiod]", w[2]) and not re.match("_ZT", w[2]): loc.add(w[2])
        with open(o("loc"), "w") as fh: fh.write("".join("%s\n" % n for n in sorted(loc)))
        secs = sorted(set(re.findall(r" (\.text\S*)\s+PROGBITS", run(["readelf", "-SW", m]))))
        with open(o("args"), "w") as fh: fh.write("\n".join("--rename-section %s=repotext" % n for n in secs))
        run([OBJCOPY, "--localize-symbols=" + o("loc"), "@" + o("args"), m]); robj = [m]
    # libc calls of the code under test that no stand-in covers would escape the simulator
    und = set()
    defd = set()
    for t in robj + [o("rt.rt.o"), o("wrap.rt.o")]:
        for l in run(["nm", t]).splitlines():
            w = l.split()
            if w[0] == "U" and t in robj: und.add(w[1])
            elif len(w) == 3: defd.add(w[2])
    esc = sorted(u for u in und - defd if not OKSYM.match(u))
    if esc: log("note: calls outside the simulator: " + " ".join(esc))
    run([CXX, "-no-pie", "-g"] + robj + [o(f + ".h.o") for f in files] + [o("rt.rt.o"), o("wrap.rt.o"), "-lm", "-o", o("sim")])
    for f in glob.glob(o("*.o")): os.unlink(f)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe
OKSYM = re.compile(r"^(fiftyoneDegrees|_Z|__cxa|__gxx|_Unwind|__tsan|pow|powf|exp2f?|frexp|ldexp|floor|ceil|round|log|fabs|isnan|abs$|__dso|_GLOBAL|__stack_chk|stderr|stdout|__errno_location|__ctype|toupper|tolower|isspace|isdigit|isalpha|isxdigit|isalnum|atoi|strto|__isoc|memcpy|memset|memmove|__gmon|DefaultWktDecimalPlaces)")

# ---------------------------------------------------------------- running
def sim(exe, *args, timeout=120):
    try: r = subprocess.run(["setarch", "-R", exe] + list(args) if False else [exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: raise CheckError("simulator did not end: " + " ".join(args))
    return r.stdout.decode(errors="replace")
def rline(out):
    for l in out.splitlines():
        if l.startswith("R "): return json.loads(l[2:])
    raise CheckError("no result line: " + out[-500:])
def symbolize(exe, frames):
    if not frames: return []
    out = subprocess.run([SYMB, "-f", "-C", "-e", exe] + ["0x%x" % (int(f, 16) - 1) for f in frames], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    r = []
    for i in range(0, len(out) - 1, 2): r.append((out[i].replace("fiftyoneDegrees", ""), re.sub(r"^.*/", "", out[i + 1]).split(" ")[0]))
    return r
def top(sym):
    for f, loc in sym:
        if re.match(r"(scen_|rt\.|wrap\.|scn\.h|stl_|.*\.tcc|lin\.h|\?\?)", loc): continue
        return f
    return sym[0][0] if sym else "?"
def load_known():
    k = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) class=(\S+) at=(\S+) plan=(\S+) (.*)", l.strip())
            if m: k.append(dict(prop=m[1], scen=m[2], cls=m[3], at=m[4], plan=m[5], text=m[6]))
    return k

def minimise(exe, plan, cls, at, budget, ver):
    """ddmin over operations, scheduling decisions, faults; a candidate must fail in the same class and function."""
    t0 = time.time()
    lines = open(plan).read().splitlines()
    if any(l.startswith("overflow") for l in lines): movable = ("op ",)
    elif cls in ("no-progress", "hang"): movable = ("op ", "fault ")
    else: movable = ("op ", "sched ", "fault ")
    tmp = plan + ".min"; tries = 0
    def fails(ls):
        nonlocal tries
        if time.time() - t0 > budget: return False
        tries += 1
        p = "%s.%d" % (tmp, tries % 4096)
        with open(p, "w") as fh: fh.write("\n".join(ls) + "\n")
        try: r = rline(sim(exe, "replay", p, timeout=60))
        except CheckError: return False
        finally: os.unlink(p)
        return r["status"] == 2 and r["cls"] == cls and top(symbolize(exe, r["frames"])) == at
    for kind in ("fault ", "op ", "sched ", "op ", "fault "):
        if kind not in movable: continue
        n = 2
        while time.time() - t0 < budget:
            idx = [i for i, l in enumerate(lines) if l.startswith(kind)]
            if not idx: break
            n = min(n, len(idx)); size = -(-len(idx) // n); hit = False
            for s in range(0, len(idx), size):
                drop = set(idx[s:s + size])
                cand = [l for i, l in enumerate(lines) if i not in drop]
                if fails(cand): lines = cand; n = max(n - 1, 2); hit = True; break
            if not hit:
                if n >= len(idx): break
                n = min(len(idx), n * 2)
            elif not [1 for l in lines if l.startswith(kind)]: break
    with open(plan, "w") as fh: fh.write("\n".join(lines) + "\n")
    return tries

def handle(exe, variant, scen, v, over, prop, outdir, budget=60):
    """Gate and minimise one violation. Returns (signature, replay path, description)."""
    sd = str(v["seed"])
    a = rline(sim(exe, "gen", scen, sd, *over)); b = rline(sim(exe, "gen", scen, sd, *over))
    if a != b: raise CheckError("seed %s of %s is not repeatable: %s / %s" % (sd, scen, a, b))
    if a["status"] != 2 or a["cls"] != v["cls"]: raise CheckError("seed %s of %s does not reproduce %s alone: %s" % (sd, scen, v["cls"], a))
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%s-%s.plan" % (prop, scen, v["cls"], sd))
    sim(exe, "gen", scen, sd, "-o", outdir, *over)
    shutil.copy(os.path.join(outdir, "viol-%s.plan" % sd), path)
    sym = symbolize(exe, a["frames"]); at = top(sym)
    c = rline(sim(exe, "replay", path))
    if c["status"] != 2 or c["cls"] != a["cls"] or top(symbolize(exe, c["frames"])) != at:
        raise CheckError("replay of seed %s of %s differs: %s / %s" % (sd, scen, a, c))
    full = path + ".full"; shutil.copy(path, full)
    tries = minimise(exe, path, a["cls"], at, budget, variant)
    c = rline(sim(exe, "replay", path)); d = rline(sim(exe, "replay", path))
    if c != d or c["status"] != 2: shutil.copy(full, path); c = a
    os.unlink(full)
    with open(path, "a") as fh: fh.write("variant %s\nproperty %s\nat %s\n" % (variant, prop, at))
    sym = symbolize(exe, c["frames"])
    return path, c, sym, tries

def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1")); cfg = CHECKS[prop]
    scale = 1.0 if tier == "quick" else cfg.get("thorough", 20.0)
    cap = float(os.environ.get("VERIF_CAP", 300 if tier == "quick" else 780))
    outdir = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid())); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    known = [k for k in load_known() if k["prop"] == prop]
    variants = sorted({r["variant"] for r in cfg["runs"]}); exes = {}
    skipped = {}
    for v in sorted(variants, key=lambda v: v in OPTIONAL):
        try: exes[v] = build(v, sorted({r["scen"] for r in cfg["runs"] if r["variant"] == v}))
        except CheckError as e: # the sources no longer compile in a configuration that is not the shipped one: nothing can be said about it
            if v not in OPTIONAL: raise
            skipped[v] = str(e)[-300:]; log("note: build configuration '%s' does not compile and is left out: %s" % (v, skipped[v][-120:].replace("\n", " ")))
    cfg = dict(cfg, runs=[r for r in cfg["runs"] if r["variant"] in exes])
    tb = time.time() - t0
    # one job per scenario, variant and slice of the seed range
    jobs = []
    for ri, r in enumerate(cfg["runs"]):
        n = max(1, int(r["n"] * scale)); slices = max(1, min(NCPU * 2, n // 50 or 1)); per = -(-n // slices)
        start = (seed * 1000003 + ri * 7919) % (1 << 31) * 10000000 % (1 << 52)
        for s in range(slices):
            c = min(per, n - s * per)
            if c > 0: jobs.append((r, start + s * per, c))
    jobs.sort(key=lambda j: -j[2])
    stats = []; viols = []; errors = []; procs = {}; queue = list(jobs); stop = False; samples = {}
    while queue or procs:
        while queue and len(procs) < NCPU and not stop:
            r, s0, c = queue.pop(0)
            left = cap - (time.time() - t0 - tb)
            if left < 2: queue = []; break
            d = os.path.join(outdir, "%s-%s-%d" % (r["scen"], r["variant"], s0)); os.makedirs(d, exist_ok=True)
            over = ["%s=%s" % kv for kv in r.get("params", {}).items()]
            f = open(os.path.join(d, "log"), "w")
            pr = subprocess.Popen([exes[r["variant"]], "batch", r["scen"], str(s0), str(c), "%.1f" % left, d] + over, stdout=f, stderr=subprocess.STDOUT)
            procs[pr.pid] = (pr, r, d, s0, over)
        if stop: queue = []
        time.sleep(0.02)
        for pid in list(procs):
            pr, r, d, s0, over = procs[pid]
            fin = pr.poll() is not None
            txt = open(os.path.join(d, "log"), errors="replace").read()
            if fin:
                del procs[pid]
                got = False
                for l in txt.splitlines():
                    if l.startswith("V "): v = json.loads(l[2:]); viols.append((r, v, over))
                    elif l.startswith("E "): errors.append((r, l))
                    elif l.startswith("S "): stats.append((r, json.loads(l[2:]), d, s0)); got = True
                if not got: errors.append((r, "worker ended with %s: %s" % (pr.returncode, txt[-500:])))
            elif "\nV " in txt or txt.startswith("V "):
                # another worker may go on for a moment; unlisted violations end the search
                for l in txt.splitlines():
                    if l.startswith("V ") and l.endswith("}"):
                        v = json.loads(l[2:])
                        if not ignored(r, v) and not known_match(known, exes[r["variant"]], r, v): stop = True
            if fin and any(not ignored(x[0], x[1]) and not known_match(known, exes[x[0]["variant"]], x[0], x[1]) for x in viols): stop = True
        if stop and procs:
            time.sleep(0.2)
            for pid, (pr, r, d, s0, over) in list(procs.items()):
                for l in open(os.path.join(d, "log"), errors="replace").read().splitlines():
                    if l.startswith("V ") and l.endswith("}"): viols.append((r, json.loads(l[2:]), over))
                pr.kill(); pr.wait()
            procs = {}
    rc = 0; reported = []; notes = ["build configuration %s does not compile and was left out" % v for v in skipped]
    for k in known: # listed findings are shown to be still there
        v = next((x for x in variants if True), None)
        plan = os.path.join(HERE, k["plan"]); var = k.get("variant") or plan_variant(plan) or v
        try: r = rline(sim(exes.get(var) or build(var, [k["scen"]]), "replay", plan)); 
        except CheckError as e: notes.append(str(e)); continue
        if r["status"] == 2 and r["cls"] == k["cls"]: log("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        else: notes.append("listed finding no longer reproduces: " + k["text"])
    seen = set()
    todo = []
    for r, v, over in viols:
        if ignored(r, v): notes.append("other class %s in %s" % (v["cls"], r["scen"])); continue
        if known_match(known, exes[r["variant"]], r, v): continue
        s = (r["scen"], v["cls"], top(symbolize(exes[r["variant"]], v["frames"])))
        if s in seen: continue
        seen.add(s); todo.append((r, v, over))
    for r, v, over in todo[:8]:
        if len(reported) == 3: break
        try: path, c, sym, tries = handle(exes[r["variant"]], r["variant"], r["scen"], v, over, prop, outdir, budget=15 if reported else 40)
        except CheckError as e: errors.append((r, " ".join(str(e).split()))); continue # one that cannot be repeated is no violation, but no pass either
        rc = 1; c["msg"] = " ".join(c["msg"].split())
        log("VIOLATION property=%s replay=%s" % (prop, path))
        log("  scenario %s (%s build), seed %s, class %s: %s" % (r["scen"], r["variant"], v["seed"], c["cls"], c["msg"]))
        for f, loc in sym[:6]: log("    at %s (%s)" % (f, loc))
        kept = [l for l in open(path).read().splitlines() if l.split(" ")[0] in ("op", "sched", "fault")]
        log("  minimised with %d replays to %d operations, %d scheduling decisions, %d faults" % (tries, sum(l.startswith("op ") for l in kept), sum(l.startswith("sched ") for l in kept), sum(l.startswith("fault ") for l in kept)))
        reported.append(dict(scenario=r["scen"], seed=v["seed"], cls=c["cls"], msg=c["msg"], replay=path, at=["%s (%s)" % x for x in sym[:6]], plan=kept[:200]))
    evidence(prop, tier, seed, cfg, stats, reported, time.time() - t0, tb, notes, errors)
    shutil.rmtree(outdir, ignore_errors=True)
    for n in sorted(set(notes)): log("note: " + n)
    if rc == 0 and errors:
        for r, e in errors[:5]: log("ERROR %s: %s" % (r["scen"], e))
        return 2
    return rc
def ignored(r, v):
    ig = r.get("ignore"); return bool(ig and re.match(ig + "$", v["cls"]))
def known_match(known, exe, r, v):
    for k in known:
        if k["scen"] == r["scen"] and k["cls"] == v["cls"] and k["at"] == top(symbolize(exe, v["frames"])): return True
    return False
def plan_variant(p):
    for l in open(p):
        if l.startswith("variant "): return l.split()[1]

def evidence(prop, tier, seed, cfg, stats, reported, wall, tb, notes, errors):
    import array
    runs = sum(s["runs"] for _, s, _, _ in stats); byscen = {}
    states = {}; hashes = {}; fired = {}; probes = {}; sites = {}
    for r, s, d, s0 in stats:
        k = r["scen"] + "/" + r["variant"]
        e = byscen.setdefault(k, dict(runs=0, runs_with_faults=0, steps=0, switches=0, simulated_seconds=0.0, step_budget_used=0.0, what=r.get("what", "")))
        e["runs"] += s["runs"]; e["runs_with_faults"] += s["faulted_runs"]; e["steps"] += s["steps"]; e["switches"] += s["switches"]; e["step_budget_used"] = max(e["step_budget_used"], s.get("cap_permil", 0) / 1000); e["simulated_seconds"] = round(e["simulated_seconds"] + s["simns"] / 1e9, 6)
        for f, (n, m) in s["fired"].items(): fired.setdefault(f, [0, 0]); fired[f][0] += n; fired[f][1] += m
        for q, n in s["probes"].items(): probes[q] = probes.get(q, 0) + n
        p = os.path.join(d, "cov-%d.bin" % s0)
        if os.path.exists(p):
            b = open(p, "rb").read()
            st = int.from_bytes(b[:524288], "little"); si = int.from_bytes(b[524288:524288 + 131072], "little")
            states[k] = states.get(k, 0) | st; sites[k] = sites.get(k, 0) | si
            a = array.array("Q"); a.frombytes(b[524288 + 131072:]); hashes.setdefault(k, set()).update(a)
    for k in byscen:
        byscen[k]["distinct_schedules"] = len(hashes.get(k, ())); byscen[k]["distinct_states"] = bin(states.get(k, 0)).count("1"); byscen[k]["preemption_site_pairs"] = bin(sites.get(k, 0)).count("1")
    distinct = sum(len(h) for h in hashes.values())
    samples = []
    for r, s, d, s0 in stats:
        if len(samples) < 3 and r["scen"] not in [x["scenario"] for x in samples] and s.get("sample"): samples.append(dict(scenario=r["scen"], plan=s["sample"].splitlines()[:80]))
    simw = max(0.001, wall - tb)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=reported,
        coverage=dict(evaluations=runs, distinct_nontrivial=distinct,
            rule="one evaluation is one simulated run: a seed generates the workload, configuration, schedule and faults; a run is counted distinct when its hash of workload, context switches (thread, operation, step, next thread) and faults differs from every other run of the scenario, and non-trivial because every generated workload performs calls of the code under test and evaluates the property's oracles after each",
            runs_per_hour=int(runs / simw * 3600), seeds_per_hour=int(runs / simw * 3600), build_s=round(tb, 2),
            simulated_seconds=round(sum(e["simulated_seconds"] for e in byscen.values()), 6), context_switches=sum(e["switches"] for e in byscen.values()),
            faults_injected={f: dict(fired=n, runs=m) for f, (n, m) in sorted(fired.items())}, probes=dict(sorted(probes.items())), scenarios=byscen,
            real_components=cfg["real"], stub_components=cfg.get("stub", ["libc allocator, string, stdio, directory, clock, random and pthread calls (simulator)"]), samples=samples),
        assumptions=cfg.get("assume", ["sequentially consistent memory: reorderings of a weaker memory model are not simulated"]), notes=sorted(set(notes))[:20], errors=[e for _, e in errors][:5])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    log("%s %s: %d runs (%d distinct), %d violations, %.1f s" % (prop, tier, runs, distinct, len(reported), wall))
    for k, e in byscen.items(): log("  %s: %d runs, %d with faults, %d schedules, %d states" % (k, e["runs"], e["runs_with_faults"], e["distinct_schedules"], e["distinct_states"]))

def selftest(scens):
    """Determinism: the same seeds in different processes, at different worker counts, give the same event hashes."""
    bad = 0; total = 0
    allr = {}
    for prop, c in CHECKS.items():
        for r in c["runs"]: allr[(r["scen"], r["variant"])] = r
    for (scen, var), r in sorted(allr.items()):
        if scens and scen not in scens: continue
        exe = build(var, [scen]); n = int(os.environ.get("N", "400")); res = []
        over = ["%s=%s" % kv for kv in r.get("params", {}).items()]
        for workers in (1, 3, 8):
            per = -(-n // workers); out = {}
            ps = []
            for w in range(workers):
                d = os.path.join(BUILD, "self-%d" % w); os.makedirs(d, exist_ok=True)
                ps.append(subprocess.Popen([exe, "batch", scen, str(5000000 + w * per), str(min(per, n - w * per)), "300", d, "--hashes"] + over, stdout=subprocess.PIPE, text=True, env=dict(os.environ, PAD="x" * (workers * 100))))
            for p in ps:
                for l in p.communicate()[0].splitlines():
                    if l.startswith("H "): _, s, h, st = l.split(); out[s] = (h, st)
            res.append(out)
        diff = [s for s in res[0] if any(x.get(s) != res[0][s] for x in res[1:] if s in x)]
        total += len(res[0]); bad += len(diff)
        log("%s/%s: %d seeds x 3 worker counts, %d differ %s" % (scen, var, len(res[0]), len(diff), diff[:5]))
    log("determinism: %d seeds, %d differ" % (total, bad))
    return 1 if bad else 0

def main():
    if len(sys.argv) < 2: print(__doc__); return 3
    try:
        if sys.argv[1] == "check":
            tools(); return check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick"))
        if sys.argv[1] == "build":
            for v in sys.argv[2:]: log(build(v, sorted(SCEN_FILES)))
            return 0
        if sys.argv[1] == "replay":
            plan = sys.argv[2]; var = plan_variant(plan) or "dbg"
            scen = [l.split()[1] for l in open(plan) if l.startswith("scenario ")][0]
            exe = build(var, [scen]); out = sim(exe, "replay", plan, "-v"); print(out); r = rline(out)
            for f, loc in symbolize(exe, r["frames"]): print("    at %s (%s)" % (f, loc))
            return 0 if r["status"] == 1 else 1
        if sys.argv[1] == "selftest": tools(); return selftest(sys.argv[2:])
    except CheckError as e:
        log("CHECK ERROR: %s" % e); return 2
    return 3
if __name__ == "__main__": sys.exit(main())
