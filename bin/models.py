"""Which configurations of the specification are checked for which property."""
import os, re, shutil, subprocess, time
import tlc
from tlc import ToolError

STATE = ("DepthExact", "LiveStored", "StoreExact", "RefsExact", "Canonical", "WellFormed", "ReadsExact", "SinglesExact", "FormerExact", "RefinesTypes")
CRASH = ("FailsSafe", "LiveStored", "RefsEnough", "Closed", "Canonical", "ReadsExact", "SinglesExact")
STEP = ("Refines", "RefusedInert")

# Width, ByteLen, InsKey, Val, MaxLive, DepthLimit, Staged, QueryMax, MaxCuts
CONFIGS = {
    "base":      dict(W=4, B=2, keys={2, 3, 9}, vals={1, 2}, live=2),
    "share":     dict(W=4, B=2, keys={2, 3, 9}, vals={1}, live=3),
    "staged":    dict(W=4, B=2, keys={2, 3, 9}, vals={1}, live=3, staged=True),
    "unaligned": dict(W=4, B=4, keys={1, 6, 7}, vals={1}, live=3),
    "repeat":    dict(W=2, B=2, keys={1, 2}, vals={1}, live=5),
    "depth0":    dict(W=3, B=3, keys={1, 2, 6}, vals={1}, live=3, limit=0),
    "depth1":    dict(W=3, B=3, keys={1, 2, 6}, vals={1}, live=3, limit=1),
    "depth2":    dict(W=3, B=2, keys={1, 2, 3}, vals={1}, live=3, limit=2),
    "crash":     dict(W=3, B=3, keys={1, 2, 6}, vals={1}, live=2, cuts=1),
    "crashst":   dict(W=3, B=3, keys={1, 2, 6}, vals={1}, live=2, cuts=1, staged=True),
    "split":     dict(W=4, B=2, keys={2, 3, 9}, vals={1, 2}, live=2, split=True),
    "Split":     dict(W=4, B=2, keys={0, 2, 3, 9}, vals={1}, live=3, split=True),
    "requests":  dict(W=4, B=2, keys={2, 3, 9}, vals={1}, live=2, req=2),
    "deep":      dict(W=3, B=3, keys={0, 1, 2, 6}, vals={1}, live=2, limit=2),
    # thorough
    "Share":     dict(W=4, B=2, keys={2, 3, 9}, vals={1, 2}, live=3),
    "Base":      dict(W=4, B=2, keys={2, 3, 9, 12}, vals={1, 2}, live=2),
    "Four":      dict(W=4, B=2, keys={0, 2, 3, 9}, vals={1}, live=3),
    "Live":      dict(W=4, B=2, keys={2, 3, 9}, vals={1, 2}, live=4),
    "Staged":    dict(W=4, B=2, keys={2, 3, 9}, vals={1, 2}, live=3, staged=True),
    "Repeat":    dict(W=2, B=2, keys={1, 2}, vals={1, 2}, live=7),
    "Depth1":    dict(W=4, B=2, keys={2, 3, 9}, vals={1, 2}, live=3, limit=1),
    "Depth2":    dict(W=4, B=2, keys={0, 2, 3, 9}, vals={1}, live=3, limit=2),
    "Crash":     dict(W=3, B=3, keys={1, 2, 6}, vals={1}, live=3, cuts=2),
    "CrashSt":   dict(W=3, B=3, keys={1, 2, 6}, vals={1}, live=3, cuts=2, staged=True),
}
# deliberate mistakes, where each shows, and the properties it shows for
MISTAKES = {
    "unaligned":  ("base", "C01 C15"),
    "shallow":    ("depth1", "C09 C15"),
    "norelease":  ("base", "C04"),
    "overwrite":  ("base", "C03 C16"),
    "datarefs":   ("base", "C04 C16"),
    "writefirst": ("depth1", "C10"),
    "reusecount": ("base", "C11"),
    "leaffirst":  ("crash", "C12"),
    "childfirst": ("crash", "C12"),
    "latecommit": ("staged", "C02"),
    "swallow":    ("crash", "C12"),
    "encodelate": ("requests", "C10"),
    "repeatlate": ("requests", "C10"),
}
QUICK = {
    "C01": ["base"], "C02": ["base", "staged"], "C03": ["share", "staged"], "C04": ["base", "share"], "C05": ["base", "share"],
    "C06": ["base"], "C07": ["base"], "C08": ["base"], "C09": ["split", "depth1"], "C10": ["requests", "depth0", "depth1"],
    "C11": ["base", "unaligned"], "C12": ["crash", "crashst"], "C13": ["staged", "base"], "C14": ["base"],
    "C15": ["depth0", "depth1", "depth2", "deep"], "C16": ["repeat"],
}
DEEP = {
    "C09": ["Split", "Base", "Depth1"],
    "C12": ["Crash", "CrashSt"], "C15": ["Depth1", "Depth2"], "C10": ["Depth1", "Depth2"], "C16": ["Repeat", "Live"],
    "C13": ["Staged", "Live"], "C02": ["Live", "Staged", "Base"], "C03": ["Live", "Staged", "Four"],
}


KEYS = dict(Key=("AllKeys",), KeyBits=("BitsOfAll",), DepthLimit=9, Staged=False, QueryMax=1, Requests=0)
# the other modules: constants (quick, thorough), invariants, mistakes, properties
OTHERS = {
    "Bytes": (dict(B={0, 1, 2, 3, 8, 16, 128, 255}, N=2), dict(B={0, 1, 16, 128, 255}, N=3),
              ("SplitRight", "OrderRight", "DescendantRight"),
              ("spread", "order", "unaligned", "inclusive"), "C01 C11"),
    "Preimages": (dict(Byte=range(4), TagD=1, TagL=2, TagB=3, N=2, MaxValue=4), dict(Byte=range(4), TagD=1, TagL=2, TagB=3, N=2, MaxValue=6),
                  ("Complete", "ReadBack"),
                  ("no data tag", "no leaf tag", "no branch tag", "one tag for both", "no key in data", "no key in leaf",
                   "sides in order", "key without its last byte", "first bytes of the value"), "C06 C08"),
    "Forgery": (dict(Width=2, Val={1, 2}, Most=4, MaxLen=5), dict(Width=3, Val={1}, Most=3, MaxLen=6),
                ("OnlyMembers", "OnlyGenuine", "GenuineAccepted", "Agrees"),
                ("data unread", "leaf unread", "leaf taken on trust", "stops at the root", "unknown sibling skipped",
                 "side unread", "short"), "C07 C08"),
    "Twins": (dict(Width=4, ByteLen=2, InsKey={2, 3, 9}, Val={1}, MaxLive=3, DepthLimit=9),
              dict(Width=4, ByteLen=2, InsKey={2, 3, 9}, Val={1, 2}, MaxLive=3, DepthLimit=1),
              ("SameStore", "SameRoots", "NothingHeld", "SameAnswers"), ("uncommitted remove", "latecommit"), "C13"),
    "Codec": (dict(Base=3, N=2, MaxValue=4), dict(Base=4, N=3, MaxValue=9), ("RoundTrip", "Readable"),
              ("one tag", "narrow count", "length of one digit", "sides swapped", "short array"), "C14"),
    "RC": (dict(Loc=range(1, 7), Kids=("Small",), Cuts=False, Owners=range(0, 3)),
           dict(Loc=range(1, 8), Kids=("Wide",), Cuts=False, Owners=range(0, 3)),
           ("Inv", "Readable", "Exact"),
           ("share_uncounted", "again_keeps", "create_keeps", "free_early", "free_keeps"), "C02 C03 C04 C16"),
    "RC cut": (dict(Loc=range(1, 7), Kids=("Small",), Cuts=True, Owners=range(0, 3)),
               dict(Loc=range(1, 7), Kids=("Small",), Cuts=True, Owners=range(0, 4)),
               ("CutInv", "Readable"),
               ("share_uncounted", "free_early"), "C12"),
    "Steps": (dict(KEYS, Width=3, ByteLen=3, InsKey={1, 2, 6}, Val={1}, MaxLive=3, MaxCuts=0),
              dict(KEYS, Width=4, ByteLen=2, InsKey={2, 3, 9}, Val={1}, MaxLive=4, MaxCuts=0),
              ("Sane", "Held", "Done", "LiveStored"), ("childfirst", "leaffirst", "norelease", "overwrite", "datarefs"), "C02 C03 C04 C16"),
    "Steps cut": (dict(KEYS, Width=3, ByteLen=3, InsKey={1, 2, 6}, Val={1}, MaxLive=2, MaxCuts=1),
                  dict(KEYS, Width=4, ByteLen=2, InsKey={2, 3, 9}, Val={1}, MaxLive=2, MaxCuts=1),
                  ("Sane", "Held", "Done", "LiveStored"), ("childfirst", "leaffirst"), "C12"),
}
# how some of them are checked: what TLC is given besides constants and invariants
SPECIAL = {"RC cut": dict(actc="Few"), "Steps": dict(spec="SSpec", properties=("Counts",)), "Steps cut": dict(spec="SSpec", properties=("Counts",))}


class Other:
    """A module of its own"""
    def __init__(self, module, bug, deep):
        quick, more, self.inv, _, _ = OTHERS[module]
        self.module, self.bug, self.consts = module, bug, more if deep else quick
        self.name = module + (" (larger)" if deep else "") + (" with mistake " + bug if bug != "none" else "")

    def start(self, work, workers, thorough):
        cfg = tlc.cfg(dict(self.consts, Bug=self.bug), invariants=self.inv, **SPECIAL.get(self.module, {}))
        return tlc.Run(self.module.split()[0], cfg, work, "model-" + re.sub(r"\W", "-", self.name), workers, timeout=800)


class Model:
    def __init__(self, name, bug="none"):
        self.config, self.bug, self.module = name, bug, "MS"
        self.name = name if bug == "none" else "%s with mistake %s" % (name, bug)

    def start(self, work, workers, thorough):
        c = CONFIGS[self.config]
        consts = {
            "Key": ("AllKeys",), "KeyBits": ("BitsOfAll",), "InsKey": c["keys"], "ByteLen": c["B"], "Val": c["vals"],
            "MaxLive": c["live"], "DepthLimit": c.get("limit", 9), "Staged": c.get("staged", False), "QueryMax": 2,
            "MaxCuts": c.get("cuts", 0), "Requests": c.get("req", 0), "Bug": self.bug, "Width": c["W"],
        }
        crash = c.get("cuts", 0) > 0
        inv = CRASH if crash else STATE + (("SplitSame",) if c.get("split") else ())
        cfg = tlc.cfg(consts, invariants=inv, properties=("Refines",) if crash else STEP)
        return tlc.Run("MS", cfg, work, "model-" + re.sub(r"\W", "-", self.name), workers, timeout=800)

    def judge(self, r):
        if self.bug == "none":
            r.expect_ok()
            if r.distinct < 10:
                raise ToolError("the model %s has no behaviour to speak of" % self.name)
        else:
            r.wait()
            if r.ok or not (r.violated or "first argument of Assert" in r.text or "partitioned" in r.text):
                raise ToolError("TLC does not notice the mistake %s:\n%s" % (self.name, r.text[-1500:]))


Other.judge = Model.judge


class Proof:
    """A module of theorems, each proved by tlapm for all values of the constants"""
    def __init__(self, module, needs, props):
        self.module, self.needs, self.props, self.bug = module, needs, props, "none"
        self.name = "theorems (tlapm)"

    def start(self, work, workers, thorough):
        d = os.path.join(work, "proof-" + self.module)
        os.makedirs(d, exist_ok=True)
        for m in (self.module,) + self.needs:
            shutil.copy(os.path.join(tlc.SPEC, m + ".tla"), d)
        at = time.time()
        try:
            p = subprocess.run(["tlapm", "--threads", "4", self.module + ".tla"], cwd=d, capture_output=True, text=True, errors="replace", timeout=800)
        except subprocess.TimeoutExpired:
            raise ToolError("tlapm took too long: " + self.module)
        self.took, self.text = time.time() - at, p.stdout + p.stderr
        return self

    def judge(self, r):
        m = re.search(r"All (\d+) obligations proved", self.text)
        if not m:
            raise ToolError("tlapm does not prove %s:\n%s" % (self.module, self.text[-1500:]))
        self.obligations, self.distinct, self.generated, self.violated = int(m[1]), 0, 0, []


PROOFS = [Proof("RefCountProofs", ("RefCount",), "C02 C03 C04 C12 C16"),
          Proof("PatriciaProofs", ("Patricia",), "C01 C05 C06 C07 C08 C11"),
          Proof("PatriciaParts", ("Patricia", "PatriciaProofs"), "C01 C02 C04 C05 C07 C09 C10 C16")]


def plan(prop, thorough):
    out = [Model(n) for n in QUICK[prop]]
    others = [o for o, d in OTHERS.items() if prop in d[4].split()]
    out += [Other(o, "none", False) for o in others]
    # of the mistakes in these, quick takes two, which show that the invariants are alive
    out += [Other(o, b, False) for o in others for b in OTHERS[o][3][:None if thorough else 2]]
    if thorough:
        out += [Other(o, "none", True) for o in others]
        out += [Model(n) for n in DEEP.get(prop, ["Base", "Share", "Live", "Four"])]
        out += [Model(c, b) for b, (c, _) in MISTAKES.items()]
        out += [p for p in PROOFS if prop in p.props.split()]
    else:
        out += [Model(c, b) for b, (c, ps) in MISTAKES.items() if prop in ps.split()]
    return out


def assumptions(prop):
    a = ["The hash function has no collisions on the inputs used (the specification's hashes are terms).",
         "The specification is explored exhaustively within the configurations listed; the implementation is taken "
         "through all transitions of the exported graphs under sampled keys, values and stores, and through the generated behaviours.",
         "A root is removed at most as often as it was returned, and only roots that were returned are removed."]
    if prop == "C12":
        a.append("A cut call is not retried on the handle it spent; a single storage operation is atomic; the store is reopened after the failure.")
    if prop in ("C13", "C14"):
        a.append("The key widths built for every configuration are 8, 20, 32, 33 and 64 bytes.")
    return a
