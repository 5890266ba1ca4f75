#!/usr/bin/env python3
"""Run the monitors of one property against /repo's working tree.

  check.py <property> quick|thorough     the registered checks
  check.py --replay <file>               run a recorded violation again
  check.py --setup                       build everything once

Exit 0: held on everything explored (known findings are reported, not failed).
Exit 1: violated, with VIOLATION lines.  Exit 2: no answer.
"""
import hashlib, json, os, re, resource, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
PROBES = os.path.join(VERIF, "probes")
TRIPLE = "x86_64-unknown-linux-gnu"
GB = 1 << 30

# property: (cases quick, cases thorough, minimum distinct cases quick,
#            worker seconds quick, rule)
# Measured: 20-40 s for quick on 6 workers.
RULES = {
    "segs": "segment sets: lattices whose crossings are exact in f64/f32 (dense, stars, collinear stacks, grids, closed walks, points, piles of coincident lines), "
            "sheared by large unimodular maps (tiny angles), scaled by powers of two up to extreme units, moved far, signed zeros, f64 and f32, "
            "and well separated random segments; one in 1500 with hundreds through a point, coincident or active at once, one in 60000 with over 2^16 lines; "
            "non-trivial: some pair meets",
    "bops": "pairs of multi-polygons: lattice walks, polyominoes with holes, boxes, nested and touching shapes, shared edges, vertices and whole rings, "
            "empty operands, sheared (tiny angles), far from the origin, extreme units, signed zeros, f64 and f32, well separated random polygons; "
            "one in 3000 with hundreds of rings, levels, coincident edges or edges at a point, one in 60000 (C05, C06) with over 2^16 edges; "
            "non-trivial: both operands are non-empty",
    "mono": "valid polygons: polyominoes, combs, stars, 2-opt rings, staircases, with holes, any winding, repeated vertices, sheared (tiny angles), "
            "far from the origin, signed zeros, f64/f32/i64/i32; one in 2500 with hundreds of teeth or holes, one in 100000 with over 2^16 vertices; "
            "non-trivial: more than three vertices",
}
PROPS = {
    "C01": (500_000, 10_000_000, 50_000, RULES["segs"]),
    "C02": (500_000, 10_000_000, 50_000, RULES["segs"]),
    "C03": (500_000, 10_000_000, 50_000, RULES["segs"]),
    "C04": (350_000, 20_000_000, 50_000, "sweeps of C01's inputs run again after exact rescaling, moves, reflections, permutation, reversal of "
            "segments, another scalar type, another handle type, or split consumption; non-trivial: some pair meets"),
    "C05": (250_000, 8_000_000, 30_000, RULES["bops"]),
    "C06": (250_000, 8_000_000, 30_000, RULES["bops"]),
    "C07": (150_000, 5_000_000, 20_000, RULES["bops"]),
    "C08": (500_000, 12_000_000, 50_000, RULES["mono"]),
    "C09": (900_000, 25_000_000, 50_000, RULES["mono"]),
    "C10": (1_500_000, 40_000_000, 50_000, "pairs of chains (wide, slivers, touching), monotone or broken in one place, one in 2500 with hundreds of vertices, one in 100000 with over 2^16; "
            "non-trivial: more than one edge per chain"),
    "C11": (1_500_000, 40_000_000, 50_000, "monotone pieces with dyadic coordinates and scan positions: on, between, before and after vertices, "
            "repeated, consumed in part or whole, some on chains of over 2^16 vertices; non-trivial: some trapezoid is due"),
    "C12": (1_500_000, 40_000_000, 50_000, "monotone pieces and pixel columns with dyadic bounds, inside, beside and across, some with over 2^16 vertices or rows; non-trivial: "
            "the column meets the piece"),
    "C13": (500_000, 12_000_000, 10_000, "histories of up to some thousand map/set operations (one in 30000: some 400000, over 2^16 keys), key patterns (random, sorted, clustered, repeated), "
            "four comparators; non-trivial: more than one key stored at the end"),
    "C14": (600_000, 15_000_000, 10_000, "histories as in C13 over counted objects, half of them with comparator panics injected, ended by drop, "
            "clear or partial iteration; trees of 20000 to 220000 levels on a 192 KB stack; non-trivial: more than one key stored"),
    "C15": (60_000, 1_500_000, 2_000, "maps and sets of 64 to 128000 keys, four insertion orders, ten access patterns, mixed operations or a single one throughout (get, contains, next, prev, find, get_mut, remove, insert, neighbourhood, index); every case is non-trivial"),
    "C16": (700_000, 20_000_000, 50_000, "pairs and triples of segments/points: lattices, shared ends, near-parallel, ulp-steep, wide exponents, unimodular maps; "
            "non-trivial: the two are both active at some position of the sweep or meet"),
    "C17": (24_000, 1_500_000, 2_000, "every public operation on hostile inputs (lattice, random, ulp-close, infinite, NaN), iterators abandoned, "
            "moved and mutated, comparators that panic or lie; each case is non-trivial (it runs library code under instrumentation)"),
    "C18": (90_000, 2_000_000, 10_000, "sets of 3 to 4000 (one in 1200: 10000 to 70000) segments: ladders, diagonals, sparse, grids, stacks, fans, zigzags, combs, points, bars, "
            "chevrons, in sorted, reversed or random order; non-trivial: at least 8 segments"),
    "C19": (200_000, 6_000_000, 30_000, "two to eight computations of all kinds (sweeps, pair listings, boolean operations, decompositions, monotone sweeps, "
            "scans, map and set histories), run alone first, then again, nested, inside callbacks, after abandoned or panicked ones, on threads; "
            "non-trivial: at least two of them yield several observations"),
    "C20": (80_000, 2_500_000, 10_000, "pairs of multi-polygons (tiles, nested rings, bars, combs, holes, stairs, diamonds, zigzags, stacks, fans, corners), valid polygons (ragged, "
            "holes, teeth, spirals) and monotone chains with columns, of 8 to 4000 edges (one in 150: 10000 to 40000), turned, mirrored, in any order; "
            "non-trivial: at least 8 edges"),
}
HANG_CPU = 60       # CPU seconds one case may take (they take milliseconds)
MIRI_QUICK, MIRI_THOROUGH = 60, 1500   # seconds of interpretation


def env_for(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS",
              "MIRIFLAGS", "ASAN_OPTIONS", "RUST_BACKTRACE", "RUST_LOG", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def inconclusive(msg):
    print("NO-ANSWER: " + msg, flush=True)
    sys.exit(2)


def tree_hash(root, suffixes):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "fixtures", "docs") and not x.startswith("target-"))
        for f in sorted(fs):
            if f.endswith(suffixes):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def cargo(args, what, **env):
    r = subprocess.run(["cargo"] + args, cwd=HARNESS, env=env_for(**env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        inconclusive(f"{what} did not build")


def build(kinds):
    """Rebuild from /repo; never trust time stamps alone."""
    stamp = os.path.join(TARGET, "gc-source.sha")
    now = "".join(tree_hash(d, (".rs", ".toml", ".lock")) for d in (REPO, HARNESS, PROBES))
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now and os.path.isdir(TARGET):
        for extra in ([], ["--profile", "release"], ["--profile", "plain"], ["--profile", "release", "--target", TRIPLE],
                      ["--target", TRIPLE], ["--target-dir", TARGET + "-miri"], ["--target-dir", TARGET + "-miri", "--target", TRIPLE]):
            subprocess.run(["cargo", "clean", "--offline", "-p", "geo-crossings", "-p", "gcmon"] + extra, cwd=HARNESS, env=env_for(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for extra in (["--target-dir", TARGET + "-probes"], ["--target-dir", TARGET + "-miri"], ["--target-dir", TARGET + "-miri", "--target", TRIPLE]):
            subprocess.run(["cargo", "clean", "--offline", "-p", "geo-crossings", "-p", "gcprobes"] + extra, cwd=PROBES, env=env_for(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    b = {}
    if "release" in kinds:
        cargo(["build", "--offline", "--release"], "the harness")
        b["release"] = os.path.join(TARGET, "release/gcmon")
    if "plain" in kinds:
        cargo(["build", "--offline", "--profile", "plain"], "the harness (plain)")
        b["plain"] = os.path.join(TARGET, "plain/gcmon")
    if "asan" in kinds:
        cargo(["+nightly", "build", "--offline", "--release", "--target", TRIPLE], "the harness (AddressSanitizer)",
              RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=off -Coverflow-checks=off")
        b["asan"] = os.path.join(TARGET, TRIPLE, "release/gcmon")
    if "miri" in kinds:
        r = subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=env_for(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            inconclusive("no Miri sysroot: " + r.stdout[-2000:])
        # builds the dependencies, runs one case
        cargo(["+nightly", "miri", "run", "--offline", "--target-dir", TARGET + "-miri", "--", "C17", "--small", "--to", "0"],
              "the harness (Miri)", MIRIFLAGS=MIRI_FLAGS)
        b["miri"] = None
    os.makedirs(TARGET, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
    return b


MIRI_FLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"
ASAN_ENV = "abort_on_error=1:detect_leaks=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:allocator_may_return_null=0"


def lifetime_probes(report):
    """Programs of safe code which keep what the library hands out beyond what
    it borrows from. The compiler refuses most; each it accepts is executed by
    the interpreter, which decides. report: (name, how, output) per accepted
    program, or an error."""
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--bins", "--keep-going", "--message-format=json",
                        "--target-dir", TARGET + "-probes"], cwd=PROBES, env=env_for(), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    names = sorted(f[:-3] for f in os.listdir(os.path.join(PROBES, "src/bin")) if f.endswith(".rs"))
    accepted, refused = set(), set()
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        t = m.get("target", {})
        if t.get("kind") != ["bin"]:
            continue
        if m["reason"] == "compiler-artifact":
            accepted.add(t["name"])
        elif m["reason"] == "compiler-message" and m["message"]["level"] == "error":
            refused.add(t["name"])
    report["refused"] = sorted(refused)
    if [n for n in names if n not in accepted | refused] or [n for n in names if n.startswith("control_") and n not in accepted]:
        report["error"] = "the lifetime probes did not compile as they should: " + r.stdout[-1500:]
        return
    report["runs"] = []
    for n in sorted(accepted):
        how, out = probe_run(n)
        report["runs"].append((n, how, out))


def probe_run(name):
    p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", TARGET + "-miri", "--bin", name],
                         cwd=PROBES, env=env_for(MIRIFLAGS=MIRI_FLAGS), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, preexec_fn=os.setsid)
    try:
        out, _ = p.communicate(timeout=300)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "timeout", ""
    return ("ok" if p.returncode == 0 else "ended"), out.decode(errors="replace")


def limits(kind, cpu=None):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if kind in ("release", "plain"):
            resource.setrlimit(resource.RLIMIT_AS, (4 * GB, 4 * GB))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def cpu_of(pid):
    try:
        s = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


class Worker:
    def __init__(self, tmp, i, kind, binary, prop, seed, start, step, to, secs, thorough):
        self.kind, self.start, self.step, self.prop, self.seed = kind, start, step, prop, seed
        self.base = os.path.join(tmp, f"w{i}")
        args = [prop, "--seed", str(seed), "--from", str(start), "--step", str(step), "--to", str(to), "--secs", str(secs),
                "--out", self.base + ".json", "--hashes", self.base + ".h"]
        if thorough:
            args.append("--thorough")
        env = {}
        if kind == "miri":
            args += ["--small", "--progress", self.base + ".p", "--progress-text"]
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", TARGET + "-miri", "--"] + args
            env["MIRIFLAGS"] = MIRI_FLAGS
        else:
            args += ["--progress", self.base + ".p"]
            cmd = [binary] + args
            if kind == "asan":
                env["ASAN_OPTIONS"] = ASAN_ENV
        self.err = open(self.base + ".err", "wb")
        self.p = subprocess.Popen(cmd, cwd=HARNESS, env=env_for(**env), stdin=subprocess.DEVNULL, stdout=self.err,
                                  stderr=self.err, preexec_fn=limits(kind))
        self.at, self.at_cpu, self.at_wall = None, 0.0, time.time()
        self.hung = False

    def case(self):
        try:
            d = open(self.base + ".p", "rb").read()
        except OSError:
            return None
        if self.kind == "miri":
            d = d.decode(errors="replace").split()
            return int(d[-1]) if d else None
        return struct.unpack("<Q", d[:8])[0] if len(d) >= 8 else None

    def stuck(self):
        c = self.case()
        if c != self.at or c is None:
            self.at, self.at_cpu, self.at_wall = c, cpu_of(self.p.pid), time.time()
            return False
        if self.kind == "miri":
            return time.time() - self.at_wall > 240
        return cpu_of(self.p.pid) - self.at_cpu > 40

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        self.err.flush()
        return open(self.base + ".err", "rb").read().decode(errors="replace")


def isolated(kind, binary, prop, seed, case, thorough):
    """Run one case alone. Returns (how it ended, output)."""
    args = [prop, "--seed", str(seed), "--from", str(case), "--to", str(case + 1), "--only"] + (["--thorough"] if thorough else [])
    env = {}
    cmd = [binary] + args
    if kind == "asan":
        env["ASAN_OPTIONS"] = ASAN_ENV
    if kind == "miri":
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", TARGET + "-miri", "--"] + args + ["--small"]
        env["MIRIFLAGS"] = MIRI_FLAGS
    p = subprocess.Popen(cmd, cwd=HARNESS, env=env_for(**env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=limits(kind, None if kind == "miri" else HANG_CPU))
    try:
        out, _ = p.communicate(timeout=600 if kind != "miri" else 300)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "timeout", ""
    out = out.decode(errors="replace")
    rc = p.returncode
    if rc == 0:
        return "ok", out
    if rc == 2 and '"harness_error":"' in out:
        return "harness", out
    if rc == -signal.SIGXCPU or (rc == -signal.SIGKILL and kind != "miri" and "rss limit" not in out and not os_oom(p.pid)):
        return "cpu", out
    return "crash", out


def os_oom(pid):
    try:
        return f"process {pid}," in open("/root/.vp/ended.log").read()
    except OSError:
        return False


def input_of(binary, prop, seed, case, thorough):
    """The literal input of a case, from a run that stops before library code
    matters: only used when a crash kept the worker from writing it."""
    return None


def classify(kind, text):
    """What a dead worker's output says."""
    if kind == "asan":
        if "AddressSanitizer" in text and "rss limit" not in text and "out-of-memory" not in text and "allocation-size-too-big" not in text:
            m = re.search(r"ERROR: AddressSanitizer:? ?([^\n]*)", text)
            return "AddressSanitizer: " + (m.group(1)[:200] if m else "report")
        if "unsafe precondition" in text:
            return "unsafe precondition violated"
        return None
    if kind == "miri":
        m = re.search(r"error: Undefined Behavior: ([^\n]*)", text)
        if m:
            return "Miri: Undefined Behavior: " + m.group(1)[:300]
        return None
    m = re.search(r"unsafe precondition\(s\) violated[^\n]*", text)
    if m:
        return m.group(0)[:300]
    if "has overflowed its stack" in text:
        return "stack overflow"
    if "memory allocation of" in text:
        return "memory without bound (4 GB limit reached)"
    return "the process died"


def known_findings(prop):
    out = {}
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+): (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out


def write_replay(prop, seed, tier, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-seed{seed}-{v['kind']}-case{v['case']}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "build": v["kind"], "case": v["case"], "what": v["what"],
                   "input": v.get("input", ""), "output": v.get("output", "")[-8000:],
                   "run_again": f"python3 {VERIF}/check.py --replay {p}"}, f, indent=1)
    return p


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    q, th, least, rule = PROPS[prop]
    total = th if thorough else q
    mem = prop == "C17"
    b = build(("release", "asan", "miri") if mem else ("release", "plain"))
    built = time.time() - t0
    cap = 1500 if thorough else 240
    layout = ["release"] * 1 + ["asan"] * 4 + ["miri"] * 3 if mem else ["release", "plain"] * 3
    workers, spawned = [], 0
    with tempfile.TemporaryDirectory(prefix="gcmon-") as tmp:
        def spawn(kind, start, step, to, secs):
            nonlocal spawned
            w = Worker(tmp, spawned, kind, b[kind], prop, seed, start, step, to, secs, thorough)
            spawned += 1
            workers.append(w)
            return w
        if mem:
            miri_secs = MIRI_THOROUGH if thorough else MIRI_QUICK
            nn = [k for k in layout if k != "miri"]
            for i, k in enumerate(nn):
                spawn(k, i, len(nn), total, cap)
            # interpreted cases have their own (small) sizes: a separate range
            nm = layout.count("miri")
            for i in range(nm):
                spawn("miri", 10_000_000 + i, nm, 20_000_000, miri_secs)
        else:
            for i, k in enumerate(layout):
                spawn(k, i, len(layout), total, cap)
        results, viols, errors, skipped = [], [], [], []
        probes = {}
        prober = threading.Thread(target=lifetime_probes, args=(probes,)) if mem else None
        if prober:
            prober.start()
        live = list(workers)
        deadline = time.time() + cap + (900 if thorough else 300)
        while live:
            time.sleep(0.05)
            for w in list(live):
                rc = w.p.poll()
                dead = rc is not None
                if not dead and w.stuck():
                    w.hung = True
                    w.kill()
                    dead = True
                if not dead and time.time() > deadline:
                    w.kill()
                    live.remove(w)
                    errors.append(f"{w.kind} worker overran its time at case {w.case()}")
                    continue
                if not dead:
                    continue
                live.remove(w)
                if not w.hung and rc in (0, 2) and os.path.exists(w.base + ".json"):
                    r = json.load(open(w.base + ".json"))
                    r["kind"] = w.kind
                    r["hashes"] = w.base + ".h"
                    results.append(r)
                    if r["harness_error"]:
                        errors.append(f"harness error ({w.kind}): {r['harness_error']}")
                    for v in r["violations"]:
                        viols.append(dict(v, kind=w.kind))
                    continue
                # died or hung: decide on an isolated run of the case
                text, case = w.stderr(), w.case()
                if case is None:
                    errors.append(f"{w.kind} worker ended with {rc} before its first case: {text[-800:]}")
                    continue
                if w.kind != "miri" and not w.hung and rc == -signal.SIGKILL and os_oom(w.p.pid):
                    errors.append(f"{w.kind} worker was ended by the sandbox for memory")
                    continue
                if w.kind == "miri":
                    what = classify("miri", text)
                    if what:
                        viols.append({"case": case, "what": what, "kind": "miri", "output": text})
                    elif w.hung or "unsupported" in text or "resource exhaust" in text.lower() or "memory" in text:
                        skipped.append(("miri", case))
                        live.append(spawn("miri", case + w.step, w.step, 20_000_000, max(5, miri_secs - (time.time() - t0 - built))))
                    else:
                        errors.append(f"miri worker ended with {rc}: {text[-1500:]}")
                    continue
                how, out = isolated(w.kind, b[w.kind], prop, seed, case, thorough)
                if mem:
                    what = classify(w.kind, out) if how == "crash" else None
                    if how == "crash" and w.kind == "release" and what in ("memory without bound (4 GB limit reached)",):
                        what = None
                    if what:
                        viols.append({"case": case, "what": what, "kind": w.kind, "output": out})
                    else:
                        # hostile input kept it busy or filled its memory: no memory error
                        skipped.append((w.kind, case))
                        live.append(spawn(w.kind, case + w.step, w.step, total, cap))
                        if len(skipped) > 20:
                            errors.append("too many cases without an answer")
                            for x in live:
                                x.kill()
                            live = []
                            break
                elif how == "cpu":
                    viols.append({"case": case, "what": f"one case did not end within {HANG_CPU} CPU seconds", "kind": w.kind, "output": out})
                elif how == "crash":
                    viols.append({"case": case, "what": classify(w.kind, out), "kind": w.kind, "output": out})
                elif how == "ok":
                    errors.append(f"{w.kind} worker ended with {rc} at case {case}, which is fine alone: {text[-800:]}")
                else:
                    errors.append(f"{w.kind} worker ended with {rc} at case {case}, then {how}: {out[-800:]}")
                if viols and not mem:
                    # decided
                    for x in live:
                        x.kill()
                    live = []
                    break
        if prober:
            prober.join()
            if "runs" not in probes:
                errors.append(probes.get("error", "the lifetime probes did not run"))
            for name, how, out in probes.get("runs", []):
                what = classify("miri", out)
                if what:
                    viols.append({"case": name, "what": f"safe program probes/src/bin/{name}.rs: {what}", "kind": "probe",
                                  "input": open(os.path.join(PROBES, "src/bin", name + ".rs")).read(), "output": out})
                elif how != "ok" and "panicked at" not in out:
                    errors.append(f"probe {name}: {how}: {out[-800:]}")
        # totals
        evals = sum(r["evaluations"] for r in results)
        hs = set()
        for r in results:
            d = open(r["hashes"], "rb").read() if os.path.exists(r["hashes"]) else b""
            salt = 0 if r["kind"] != "miri" else 1
            hs.update((x, salt) for x in struct.unpack(f"<{len(d) // 8}Q", d))
    counters, per_build = {}, {}
    known_seen = {}
    for r in results:
        per_build[r["kind"]] = per_build.get(r["kind"], 0) + r["evaluations"]
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        for k, v in r["known"].items():
            n, ex = known_seen.get(k, (0, ""))
            known_seen[k] = (n + v["count"], ex or v["example"])
    if probes.get("runs"):
        counters["lifetime_probes_refused_by_the_compiler"] = len(probes["refused"])
        counters["lifetime_probes_accepted_and_interpreted"] = len(probes["runs"])
    listed = known_findings(prop)
    for k, (n, ex) in sorted(known_seen.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {k}: {listed[k]} [seen {n} times in this run]")
        else:
            viols.append({"case": -1, "what": f"{k}: {ex}", "kind": "release", "input": ex})
    samples = [dict(s, build=r["kind"]) for r in results for s in r["samples"]][:4]
    for v in viols:
        if v.get("input"):
            samples.append({"case": v["case"], "input": v["input"][:1500], "violation": v["what"][:400]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hs), "rule": rule, "samples": samples[:8] or ["none"],
            "evaluations_per_build": per_build,
            "observed": counters,
            "known_findings_seen": {k: n for k, (n, _) in known_seen.items()},
            "cases_without_answer": len(skipped),
        },
        "assumptions": ["the harness's exact integer oracles", "inputs are those of the generators described in `rule`"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viols:
        viols.sort(key=lambda v: (str(v["case"]).rjust(12), v["kind"]))
        for v in viols[:3]:
            p = write_replay(prop, seed, tier, v)
            print(f"VIOLATION property={prop} replay={p}")
            print("  " + v["what"][:1200].replace("\n", "\n  "))
            if v.get("input"):
                print("  input: " + v["input"][:1200])
        sys.exit(1)
    for e in errors:
        print("NO-ANSWER: " + e)
    if errors:
        sys.exit(2)
    need = least if not thorough else least
    if len(hs) < need:
        inconclusive(f"only {len(hs)} distinct non-trivial cases, {need} wanted")
    if mem and per_build.get("miri", 0) < 15:
        inconclusive(f"only {per_build.get('miri', 0)} cases interpreted")
    print(f"{prop} held on {evals} executions ({len(hs)} distinct non-trivial), {per_build}, {ev['wall_s']} s (build {built:.0f} s)")
    print("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    sys.exit(0)


def replay(path):
    v = json.load(open(path))
    if v["build"] == "probe":
        build(("miri",))
        how, out = probe_run(v["case"])
        print(out[-6000:])
        if classify("miri", out):
            print(f"VIOLATION property={v['property']} replay={path}")
            sys.exit(1)
        print(f"ended: {how}; the violation does not show")
        sys.exit(0)
    b = build((v["build"],))
    how, out = isolated(v["build"], b[v["build"]], v["property"], v["seed"], v["case"], v["tier"] == "thorough")
    print(out[-6000:])
    bad = how in ("crash", "cpu") or (how == "ok" and '"nviol":0' not in out)
    if bad:
        print(f"VIOLATION property={v['property']} replay={path}")
        sys.exit(1)
    print(f"ended: {how}; the violation does not show")
    sys.exit(0 if how == "ok" else 2)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        build(("release", "plain", "asan", "miri"))
        print("built")
    elif a[:1] == ["--replay"] and len(a) == 2:
        replay(a[1])
    elif len(a) == 2 and a[0] in PROPS and a[1] in ("quick", "thorough"):
        run(a[0], a[1])
    else:
        print(__doc__)
        sys.exit(2)
