#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property of merkle_bit against /repo's working tree
   check.py --replay FILE              runs one recorded scenario again
   check.py --setup                    checks the tools and builds the default harness

1. TLC checks the specification (MerkleStore and, by property, Bytes, Preimages, Forgery, Twins, Codec;
   VersionedMap with the export) in the configurations of models.py that bear on the property, and that
   it notices deliberate mistakes switched into it.
2. TLC enumerates VersionedMap's state graphs and generates long behaviours; the harness takes the
   implementation through them and compares every answer.
3. Histories that the harness records are given back to TLC, which checks them against MerkleTrace.
"""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc
import models
from tlc import ToolError, VERIF

HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
START = time.time()

# which exported graphs and behaviours, and which builds, each property's plan uses
COMMON = (("m", "q", "e", "p"), ("w", "r", "v"))
USES = {
    **{p: COMMON for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11")},
    "C08": ((), ("r",)),
    "C09": (("s", "q", "m", "e"), ("w", "r")),
    "C10": (("s", "m", "q", "e"), ("w", "r")),
    "C12": (("c", "d"), ("r",)),
    "C13": ((), ("w",)),
    "C14": (("s",), ("w",)),
    "C15": (("q", "m", "p"), ("w", "r")),
    "C16": (("r", "s"), ("f", "r", "v")),
}
SETS = ["hashbrown", "groestl", "sha2", "sha3", "keccak", "blake2b", "md2", "md4", "md5", "ripemd160", "ripemd320",
        "sha1", "rust_sha2", "rust_sha3", "rust_keccak", "whirlpool", "fxhash", "seahash", "blake2-rfc",
        "bincode", "json", "cbor", "yaml", "pickle", "ron"]
SERIAL = {"hashbrown", "bincode", "json", "cbor", "yaml", "pickle", "ron", "rocksdb"}  # do not change roots
# classes of differences in recorded histories that decide the property
CLASSES = {
    "C01": {"read", "read_one"}, "C02": {"missing_after_insert"}, "C03": {"missing_after_remove"},
    "C04": {"store_extra", "store_missing", "former_read"}, "C05": {"same_contents_other_root"},
    "C06": {"other_contents_same_root"}, "C07": {"proof", "proof_absent"}, "C08": {"forged"},
    "C09": set(), "C10": {"reject_trace", "missing_after_reject", "former_read", "unknown_read"}, "C11": {"shape"},
    "C12": {"missing_after_cut", "missing_after_insert", "missing_after_remove", "store_missing", "read", "read_one", "proof"},
    "C13": set(), "C14": set(), "C15": {"depth_answer"},
    "C16": {"store_extra", "store_missing", "read", "read_one", "same_contents_other_root", "former_read"},
}


def log(*a):
    print("[%6.1f s]" % (time.time() - START), *a, flush=True)


# ---------------------------------------------------------------- builds
def rocks_env():
    env = {"CXXFLAGS": "-include cstdint", "RUSTFLAGS": "-Clink-arg=-Wl,--allow-multiple-definition"}
    root = "/repo/target/rocksdb/debug/build"
    try:
        for d in sorted(os.listdir(root)):
            out = os.path.join(root, d, "out")
            if d.startswith("librocksdb-sys-") and all(os.path.exists(os.path.join(out, "lib%s.a" % l)) for l in ("rocksdb", "snappy", "lz4")):
                for l in ("ROCKSDB", "SNAPPY", "LZ4"):
                    env[l + "_LIB_DIR"], env[l + "_STATIC"] = out, "1"
                break
    except OSError:
        pass
    return env


# the on-disk store, a serializer and a hash function of the digest crates, for every property
DISK = ("disk", "release", ("few", "rocksdb", "bincode", "rust_sha2"), os.path.join(TARGET, "c13-rocksdb"))


def build(name, profile="release", features=(), target=None, timeout=800):
    """Builds the harness (and with it /repo) and returns the binary, kept under its own name"""
    target = target or os.path.join(TARGET, name)
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--target-dir", target]
    if features:
        cmd += ["--features", ",".join(features)]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CXXFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        env.pop(k, None)
    if "rocksdb" in features:
        env.update(rocks_env())
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("building %s took too long" % name)
    if p.returncode:
        raise ToolError("building %s failed:\n%s" % (name, p.stdout[-6000:]))
    src = os.path.join(target, profile, "conform")
    dst = os.path.join(target, "conform-" + name)
    shutil.copy2(src, dst)
    log("built %s in %.0f s" % (name, time.time() - t))
    return dst


# ---------------------------------------------------------------- harness
class Result:
    def __init__(self, name, d, trace):
        self.name, self.d, self.trace = name, d, trace


def run_harness(binary, name, prop, tier, seed, inputs, work, threads=8, budget=500, only=None):
    out = os.path.join(work, "out-%s.json" % name)
    trace = os.path.join(work, "trace-%s.ndjson" % name)
    scratch = os.path.join(work, "scratch-%s" % name)
    os.makedirs(scratch, exist_ok=True)
    cmd = [binary, "--prop", prop, "--tier", tier, "--seed", str(seed), "--threads", str(threads), "--budget", str(budget),
           "--out", out, "--traces", trace, "--dir", scratch]
    for kind, n, path in inputs:
        cmd += ["--" + kind, "%s=%s" % (n, path)]
    if only:
        cmd += ["--only", only]
    for f in (out, trace):
        if os.path.exists(f):
            os.remove(f)
    err = os.path.join(work, "err-%s" % name)
    with open(err, "w") as e:
        try:
            p = subprocess.run(cmd, cwd=scratch, stdout=e, stderr=e, timeout=budget + 200)
        except subprocess.TimeoutExpired:
            raise ToolError("the harness (%s) did not end" % name)
    shutil.rmtree(scratch, ignore_errors=True)
    tail = open(err, errors="replace").read()[-1500:]
    if p.returncode in (-11, -6, -4, -7):
        # the implementation took the process down: stack exhausted, abort
        d = {"jobs": 0, "skipped": 0, "traces": 0, "counts": {}, "notes": {}, "roots": {}, "samples": [], "broken": [],
             "violations": [{"id": "", "class": "crash", "ctx": "", "label": name, "trail": [],
                             "text": "the process died of signal %d: %s" % (-p.returncode, tail)}]}
        return Result(name, d, None)
    if p.returncode or not os.path.exists(out):
        raise ToolError("the harness (%s) ended with %d:\n%s" % (name, p.returncode, tail))
    d = json.load(open(out))
    if d["broken"]:
        raise ToolError("the harness (%s) failed: %s" % (name, d["broken"][:3]))
    log("%s: %d scenarios in %.0f s, %d skipped" % (name, d["jobs"], d["seconds"], d["skipped"]))
    return Result(name, d, trace if os.path.exists(trace) else None)   # none after a call that did not return


# ---------------------------------------------------------------- recorded histories
def chunks(paths, n):
    """Splits trace files at the starts of histories, which are marked with the build they come from"""
    hist = []
    for path, build in paths:
        with open(path) as f:
            for line in f:
                if line.startswith('{"op":"open"'):
                    hist.append([])
                    line = line.replace('"by":"', '"by":"%s ' % build, 1)
                hist[-1].append(line)
    parts = [[] for _ in range(max(1, min(n, len(hist))))]
    for h in sorted(hist, key=len, reverse=True):
        min(parts, key=lambda p: sum(map(len, p))).append(h)
    return len(hist), [[l for h in p for l in h] for p in parts if p]


def validate(paths, prop, work, n, timeout):
    """TLC on the recorded histories: (histories, steps, states, differences)"""
    total, parts = chunks(paths, n)
    if not total:
        return 0, 0, 0, []
    runs = []
    for i, lines in enumerate(parts):
        f = os.path.join(work, "part-%d.ndjson" % i)
        with open(f, "w") as o:
            o.writelines(lines)
        cfg = ("SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nVIEW Line\nINVARIANT Consumed\n"
               "PROPERTIES InsertIsolated RemoveIsolated\n")
        runs.append((tlc.Run("MerkleTrace", cfg, work, "trace-%d" % i, 1, env={"TRACE": f}, timeout=timeout), lines, f))
    states, diffs = 0, []
    for r, lines, f in runs:
        r.expect_ok()
        m = re.findall(r'<<\\"CONSUMED\\", (\d+)>>', r.text)
        if m != [str(len(lines))]:
            raise ToolError("TLC read %s of %d lines of the trace" % (m, len(lines)))
        states += r.generated
        for c, l, dirty in re.findall(r'<<\\"DIFFERENCE\\", \\"(\w+)\\", (\d+), (TRUE|FALSE)>>', r.text):
            if prop != "C12" or dirty == "TRUE" or c == "missing_after_cut":
                diffs.append((c, lines, int(l)))
    return total, sum(len(p) for p in parts), states, diffs


def history_of(lines, at):
    start = max(i for i in range(at) if lines[i].startswith('{"op":"open"'))
    return [l.strip() for l in lines[start:at]]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """lines `known: property=<id> match=<regular expression> what fails'"""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\w+) match=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append((m[2], m[3]))
    except OSError:
        pass
    return out


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, ".work", "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.thorough = tier == "thorough"
        self.spec_runs = []
        self.violations = []

    def inputs(self):
        """TLC's state graphs and behaviours for this property"""
        gs, ws = USES[self.prop]
        out = []

        def one_graph(g):
            path = os.path.join(self.work, g + ".lts")
            r = tlc.graph(g, self.work, 2)
            n = tlc.export_graph(r, g, path)
            self.spec_runs.append({"module": "VersionedMap", "config": "graph " + g, "states": r.distinct, "transitions": n, "seconds": round(r.took, 1)})
            os.remove(r.out)
            return ("lts", g, path)

        def one_walks(w):
            path = os.path.join(self.work, w + ".walks")
            r = tlc.walks(w, self.work, self.seed, self.thorough)
            n = tlc.export_walks(r, w, path)
            self.spec_runs.append({"module": "VMSim", "config": "behaviours " + w, "behaviours": n, "states": 0, "transitions": r.generated, "seconds": round(r.took, 1)})
            os.remove(r.out)
            return ("walks", w, path)

        return [self.pool.submit(one_graph, g) for g in gs] + [self.pool.submit(one_walks, w) for w in ws]

    def models(self):
        def one(m):
            r = m.start(self.work, 2, self.thorough)
            m.judge(r)
            self.spec_runs.append({"module": m.module, "config": m.name, "states": r.distinct, "transitions": r.generated,
                                   "seconds": round(r.took, 1), **({"mistake": m.bug, "noticed_by": r.violated[:1] or ["an assertion"]} if m.bug != "none" else {}),
                                   **({"obligations_proved": m.obligations} if hasattr(m, "obligations") else {})})

        return [self.pool.submit(one, m) for m in models.plan(self.prop, self.thorough)]

    def builds(self):
        """[(name, binary future)]"""
        if self.prop == "C13":
            f = [("default", "release", ("few",)), ("hashbrown", "release", ("few", "hashbrown")),
                 ("rocksdb", "release", ("few", "rocksdb", "bincode"))]
            return [(n, self.builders.submit(build, "c13-" + n, p, ft)) for n, p, ft in f]
        if self.prop == "C14":
            names = ["default"] + SETS
            lanes = 8
            done = {}
            futs = {}

            def lane(j):
                for n in names[j::lanes]:
                    if n in futs:
                        continue
                    done[n] = build("c14-" + n, "variant", ("few",) + (() if n == "default" else (n,)),
                                    os.path.join(TARGET, "lane%d" % j))
                return True

            lanes_f = [self.builders.submit(lane, j) for j in range(lanes)]
            return [("lanes", (lanes_f, names, done))]
        return [("default", self.builders.submit(build, "default")),
                ("disk", self.builders.submit(build, *DISK))]

    def violation(self, cls, text, detail):
        for pat, what in known_findings(self.prop):
            if re.search(pat, "%s %s %s" % (cls, detail.get("id", ""), text)):
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, what)
                if line not in self.known:
                    self.known.append(line)
                return
        self.violations.append(dict(detail, **{"class": cls, "text": text}))

    def run(self):
        self.known = []
        self.pool = ThreadPoolExecutor(4)
        self.builders = ThreadPoolExecutor(8)
        ins = self.inputs()
        mods = self.models()
        builds = self.builds()
        inputs = [f.result() for f in ins]
        log("inputs generated")
        budget = 560 if self.thorough else 240
        results = []
        if self.prop == "C14":
            lanes_f, names, done = builds[0][1]
            for f in lanes_f:
                f.result()
            par = ThreadPoolExecutor(4)
            fs = [par.submit(run_harness, done[n], n, self.prop, self.tier, self.seed, inputs, self.work, 3, budget) for n in names]
            results = [f.result() for f in fs]
        else:
            for name, f in builds:
                results.append(run_harness(f.result(), name, self.prop, self.tier, self.seed, inputs, self.work, 8, budget))
        for f in mods:
            f.result()
        log("specification checked")
        self.compare(results)
        traces = [(r.trace, r.name) for r in results if r.trace and os.path.getsize(r.trace)]
        hist, steps, tstates, diffs = validate(traces, self.prop, self.work, 8 if self.thorough else 6, 600)
        seen = []
        for cls, lines, at in diffs:
            trail = history_of(lines, at)
            by = re.search(r'"by":"(.*?)"', trail[0])[1]
            seen.append((cls, by, lines[at - 1].strip(), trail))
        # what the plain store of the default configuration does too is not for C13 and C14 to judge
        usual = {cls for cls, by, _, _ in seen if by.startswith("default ") and (self.prop == "C14" or "Caller(Immediate)" in by)}
        for cls, by, line, trail in seen:
            if cls in CLASSES[self.prop] or self.prop in ("C13", "C14") and not usual:
                self.violation(cls, "a recorded history (%s) is no behaviour of the specification: %s" % (by, line[:300]),
                               {"id": "", "build": by.split()[0], "trail": trail})
                break
        if hist:
            log("%d recorded histories checked (%d lines)" % (hist, steps))
        self.report(results, hist, steps)

    def compare(self, results):
        first = results[0]
        if self.prop == "C14":
            # against the default configuration: what fails there too is not a matter of the configuration
            base = first.d["violations"]
            for r in results[1:]:
                for v in r.d["violations"]:
                    if v["class"] == "codec" or not base:
                        self.violation(v["class"], v["text"], dict(v, build=r.name))
        else:
            for r in results:
                for v in r.d["violations"]:
                    self.violation(v["class"], v["text"], dict(v, build=r.name))
        if self.prop in ("C13", "C14"):
            self.same_roots = 0
            for r in results[1:]:
                if r.name not in SERIAL:
                    continue
                for j, h in r.d["roots"].items():
                    if j in first.d["roots"]:
                        self.same_roots += 1
                        if first.d["roots"][j] != h:
                            self.violation("roots", "the same history gives other roots with %s than by default" % r.name,
                                           {"id": j, "build": r.name, "label": "", "trail": []})
                            break

    def report(self, results, hist, steps):
        tot = {}
        for r in results:
            for k, v in r.d["counts"].items():
                tot[k] = tot.get(k, 0) + v
        notes = {}
        for r in results:
            for k, v in r.d["notes"].items():
                notes[k] = notes.get(k, 0) + v
        jobs = sum(r.d["jobs"] for r in results)
        samples = [s for r in results for s in r.d["samples"]][:3]
        wall = time.time() - START
        cov = {
            "states": sum(x["states"] for x in self.spec_runs),
            "transitions": sum(x["transitions"] for x in self.spec_runs),
            "traces_validated_against_impl": jobs + hist,
            "scenarios_replayed_into_the_implementation": jobs,
            "scenarios_skipped_for_time": sum(r.d["skipped"] for r in results),
            "recorded_histories_checked_by_tlc": hist,
            "recorded_lines_checked_by_tlc": steps,
            "builds": [r.name for r in results],
            "implementation": tot,
            "specification": sorted(self.spec_runs, key=lambda x: (x["module"], x["config"])),
            "other_differences_noted": notes,
            "samples": samples,
        }
        if hasattr(self, "same_roots"):
            cov["histories_with_roots_compared_between_builds"] = self.same_roots
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": models.assumptions(self.prop), "wall_s": round(wall, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known:
            print(k)
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:4]):
                path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, i))
                with open(path, "w") as f:
                    json.dump(dict(v, property=self.prop, tier=self.tier, seed=self.seed), f, indent=1)
                print("  %s (%s, %s): %s" % (v["class"], v.get("build", ""), v.get("id", ""), v["text"][:700]))
                for s in v.get("trail", [])[-12:]:
                    print("      " + s[:300])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            self.clean()
            os._exit(1)
        log("%s holds on everything explored" % self.prop)
        self.clean()

    def clean(self):
        shutil.rmtree(self.work, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    print(v["class"], v["text"])
    for s in v.get("trail", []):
        print("   ", s)
    if not v.get("id"):
        print("(this one has no scenario of its own: run the check again)")
        return 1
    c = Check(v["property"], v["tier"], v["seed"])
    c.pool, c.builders, c.known = ThreadPoolExecutor(4), ThreadPoolExecutor(8), []
    inputs = [f.result() for f in c.inputs()]
    b = v.get("build", "default")
    if c.prop == "C14":
        binary = build("c14-" + b, "variant", ("few",) + (() if b == "default" else (b,)), os.path.join(TARGET, "lane0"))
    elif b == "disk":
        binary = build(*DISK)
    elif c.prop == "C13":
        binary = build("c13-" + b, "release", ("few",) + {"default": (), "hashbrown": ("hashbrown",), "rocksdb": ("rocksdb", "bincode")}[b])
    else:
        binary = build("default")
    r = run_harness(binary, b, c.prop, c.tier, c.seed, inputs, c.work, 1, only=v["id"])
    c.clean()
    for x in r.d["violations"]:
        print("VIOLATION property=%s replay=%s" % (c.prop, path))
        print("  ", x["class"], x["text"])
    return 1 if r.d["violations"] else 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a[:1] == ["--replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["--setup"]:
        pool = ThreadPoolExecutor(2)
        fs = [pool.submit(build, "default"), pool.submit(build, *DISK)]
        for f in fs:
            f.result()
        r = tlc.graph("s", os.path.join(VERIF, ".work", "setup"), 2)
        r.expect_ok()
        shutil.rmtree(os.path.join(VERIF, ".work", "setup"), ignore_errors=True)
        return
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        Check(prop, tier, seed).run()
    except ToolError as e:
        print("ERROR of the check itself:", e, flush=True)
        os._exit(2)


if __name__ == "__main__":
    main()
