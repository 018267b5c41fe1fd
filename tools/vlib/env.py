"""Paths, seeds, building the harness from /repo, evidence and verdicts."""
import fcntl, json, os, random, subprocess, sys, time, shutil, tempfile, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORKERS = 8


class ToolError(Exception):
    """Something is wrong with the machinery (not with the code under test)."""


def rng(*salt):
    return random.Random("/".join([str(SEED)] + [str(s) for s in salt]))


_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "run")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="r", dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def cargo_env():
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = TARGET
    env.pop("RUSTFLAGS", None)
    return env


def build(*packages):
    """Build harness packages against /repo's current working tree; return the directory of the binaries."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for p in packages:
            r = subprocess.run(
                ["cargo", "build", "--offline", "-q", "-p", p],
                cwd=os.path.join(VERIF, "harness"), env=cargo_env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("building %s failed:\n%s" % (p, r.stderr[-4000:]))
    return os.path.join(TARGET, "debug")


class NoAnswer(Exception):
    """The program did not answer, again and again."""


HANGS = []
ENOUGH = 8


def hung(what):
    HANGS.append(str(what)[:2000])


def still():
    """No use to go on waiting after so many requests without an answer."""
    if len(HANGS) >= ENOUGH:
        raise NoAnswer("%d requests without an answer in time" % len(HANGS))


class Run:
    """One execution of one check: collects what was covered and the verdicts."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.bad = []      # (summary, replay object)
        self.known = {}    # known finding id -> [count, example]
        self.assumptions = []
        self.extra = {}
        self.models = []

    def quick(self):
        return self.tier != "thorough"

    def log(self, *a):
        print("[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a)), flush=True)

    def model(self, name, stats, note=""):
        self.states += stats["distinct"]
        self.transitions += stats["generated"]
        self.models.append({"module": name, "distinct_states": stats["distinct"], "transitions": stats["generated"],
                            "depth": stats.get("depth"), "note": note})

    def sample(self, obj):
        if len(self.samples) < 6:
            self.samples.append(obj)

    def violation(self, summary, replay):
        self.bad.append((summary, replay))

    def known_finding(self, key, example):
        k = self.known.setdefault(key, [0, example])
        k[0] += 1

    def finish(self):
        from . import known
        os.makedirs(REPLAY, exist_ok=True)
        findings = known.load()
        # known findings count only if the committed file lists them for this property
        for key, (count, example) in list(self.known.items()):
            entry = findings.get((self.prop, key))
            if entry is None:
                self.bad.append(("%s (not listed as a known finding)" % key, example))
                del self.known[key]
        cov = dict(self.extra)
        cov.update({
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or ["none"], "models": self.models,
        })
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", self.validated)
            cov.setdefault("distinct_nontrivial", self.validated)
            cov.setdefault("rule", "see DESIGN.md")
        ev = {
            "property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": SEED,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for key, (count, example) in self.known.items():
            print("KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)" % (
                self.prop, findings[(self.prop, key)], count, json.dumps(example)[:300]))
        self.log("states", self.states, "events validated", self.validated, "violations", len(self.bad))
        if self.bad:
            path = os.path.join(REPLAY, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"what": s, "replay": r} for s, r in self.bad[:50]], f, indent=1, default=str)
                f.write("\n")
            for s, r in self.bad[:10]:
                print("  violated:", s[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        return 0
