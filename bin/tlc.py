"""Runs TLC on the specifications and turns what it exports into the harness's input."""
import os, re, subprocess, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Run:
    """One run of TLC"""

    def __init__(self, module, cfg, work, name, workers=4, extra=(), heap="3g", env=None, timeout=600):
        self.name, self.module = name, module
        self.dir = os.path.join(work, name)
        os.makedirs(self.dir, exist_ok=True)
        self.cfg = os.path.join(self.dir, name + ".cfg")
        with open(self.cfg, "w") as f:
            f.write(cfg)
        self.out = os.path.join(self.dir, "out")
        self.timeout = timeout
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-config", self.cfg,
               "-metadir", os.path.join(self.dir, "states"), "-noGenerateSpecTE", "-workers", str(workers),
               *extra, os.path.join(SPEC, module + ".tla")]
        self.cmd = " ".join(cmd)
        self.start = time.time()
        with open(self.out, "w") as f:
            self.p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=self.dir, env=e)

    def wait(self):
        try:
            self.rc = self.p.wait(max(1, self.timeout - (time.time() - self.start)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise ToolError("TLC took too long: " + self.name)
        self.took = time.time() - self.start
        with open(self.out, errors="replace") as f:
            self.text = f.read()
        shutil.rmtree(os.path.join(self.dir, "states"), ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"(?:The number of states generated: |Progress: )(\d+)", self.text)
        if not self.generated and m:
            self.generated = int(m[-1])
        self.violated = re.findall(r"(?:Invariant|property|Action property) (\w+) (?:is|was) violated", self.text)

        self.ok = self.rc == 0
        return self

    def expect_ok(self):
        self.wait()
        if not self.ok:
            raise ToolError("TLC found an error in the specification itself (%s):\n%s" % (self.name, self.text[-3000:]))
        return self


def cfg(constants, spec="Spec", invariants=(), properties=(), view=None, actc=None):
    s = "CONSTANTS\n" + "\n".join("  %s %s %s" % (k, "<-" if isinstance(v, tuple) else "=", v[0] if isinstance(v, tuple) else tla(v))
                                  for k, v in constants.items())
    s += "\nSPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if view:
        s += "VIEW %s\n" % view
    if invariants:
        s += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        s += "PROPERTIES " + " ".join(properties) + "\n"
    if actc:
        s += "ACTION_CONSTRAINT %s\n" % actc
    return s


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, range, list)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return '"%s"' % v


VM_INV = ("TypeOK", "ReclaimsAll")
VM_PROP = ("InsertReads", "InsertIsolated", "RemoveIsolated", "RejectsInert", "HandleCount")

GRAPHS = {  # keys, values, handles, crashes
    "s": (2, 2, 3, False), "m": (3, 2, 3, False), "e": (3, 1, 2, False), "q": (4, 1, 3, False),
    "p": (5, 1, 2, False), "r": (2, 1, 6, False), "c": (3, 1, 2, True), "d": (2, 2, 3, True),
    "M": (3, 2, 4, False), "Q": (4, 2, 2, False),
}
WALKS = {  # keys, values, handles, depth, number quick, number thorough
    "w": (8, 3, 8, 120, 100, 400), "f": (3, 2, 10, 120, 40, 200), "r": (5, 2, 5, 30, 40, 100),
    "v": (6, 3, 48, 160, 16, 80),
}


def graph(name, work, workers=4):
    k, v, m, c = GRAPHS[name]
    consts = {"Key": set(range(k)), "Val": set(range(1, v + 1)), "MaxLive": m, "Crashes": c, "Export": True}
    return Run("VersionedMap", cfg(consts, invariants=VM_INV, properties=VM_PROP, view="View", actc="ExportStep"),
               work, "graph-" + name, workers)


def walks(name, work, seed, thorough):
    k, v, m, d, nq, nt = WALKS[name]
    if thorough and name == "w":
        d = 400
    consts = {"Key": set(range(k)), "Val": set(range(1, v + 1)), "MaxLive": m, "Crashes": False, "Export": False, "Depth": d}
    n = nt if thorough else nq
    return Run("VMSim", cfg(consts, spec="SimSpec", invariants=("TypeOK", "Printed"), properties=("StepsAllowed",)),
               work, "walks-" + name, 1, extra=["-simulate", "num=%d" % n, "-depth", str(d + 1), "-seed", str(seed), "-aril", "3"])


STEP = re.compile(r'^"<<\\"T\\", \{(.*?)\}, (?:TRUE|FALSE), <<\\"(\w+)\\", (\d+), (\d+)>>, \{(.*?)\}, (?:TRUE|FALSE)>>"$')
PAIR = re.compile(r"<<(\d+), (\d+)>>")


def bag(s):
    return ",".join("%s*%s" % p for p in PAIR.findall(s)) or "-"


def export_graph(run, name, path):
    run.expect_ok()
    k, v, m, c = GRAPHS[name]
    n = 0
    with open(path, "w") as f:
        f.write("C %d %d\n" % (k, v))
        for line in run.text.splitlines():
            x = STEP.match(line)
            if x:
                f.write("T %s %s %s %s %s\n" % (bag(x[1]), x[2], x[3], x[4], bag(x[5])))
                n += 1
            elif line.startswith('"<<'):
                raise ToolError("unreadable transition: " + line[:200])
    if n == 0:
        raise ToolError("no transitions exported")
    return n


def export_walks(run, name, path):
    run.expect_ok()
    k, v = WALKS[name][:2]
    n = 0
    with open(path, "w") as f:
        f.write("C %d %d\n" % (k, v))
        for line in run.text.splitlines():
            if line.startswith('"<<\\"B\\"'):
                f.write("W\n")
                n += 1
                for op, a, b, dst in re.findall(r'<<<<\\"(\w+)\\", (\d+), (\d+)>>, \{(.*?)\}>>', line):
                    f.write("T %s %s %s %s\n" % (op, a, b, bag(dst)))
    if n == 0:
        raise ToolError("no behaviours exported")
    return n
