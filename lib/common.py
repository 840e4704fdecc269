"""Shared plumbing of the checks: generation from /repo, scratch space, evidence, reporting."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BESCHI_REPO", "/repo")
CORPUS = os.path.join(VERIF, "corpus")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
EXT = {"c": "h", "csharp": "cs", "go": "go", "rust": "rs", "typescript": "ts", "zig": "zig",
       "swift": "swift", "assemblyscript": "ts"}

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="beschi-verif-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def workdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


class CheckError(Exception):
    """The check could not decide (not a verdict)."""


class GenError(Exception):
    def __init__(self, msg, cmd):
        super().__init__(msg)
        self.cmd = cmd


def sh(cmd, timeout=600, cwd=None, env=None, inp=None, mem_gb=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    import resource

    def pre():
        # a child whose check is killed ends by itself
        resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) * 9 + 10, int(timeout) * 9 + 15))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, start_new_session=True)
    try:
        out, err = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return -999, out.decode("utf-8", "replace"), err.decode("utf-8", "replace") + "\n[timeout]"
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def beschi_cmd(lang, proto, out, args=()):
    return ["/usr/bin/python3", "-B", "-m", "beschi", "--lang", lang, "--protocol", proto, "--output", out, *args]


def generate(lang, proto, outdir, name=None, args=()):
    """Run the real command line tool of the tree under test."""
    if not os.path.isabs(proto):
        proto = os.path.join(CORPUS, proto if proto.endswith(".toml") else proto + ".toml")
    if not os.path.exists(proto):
        raise CheckError("no such protocol: " + proto)
    os.makedirs(outdir, exist_ok=True)
    base = name or os.path.splitext(os.path.basename(proto))[0]
    out = os.path.join(outdir, base if "." in base else f"{base}.{EXT[lang]}")
    cmd = beschi_cmd(lang, proto, out, args)
    rc, so, se = sh(cmd, timeout=60, cwd=outdir, env={"PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"})
    if rc != 0 or not os.path.exists(out):
        raise GenError(f"beschi failed on a valid protocol ({rc}): {(so + se).strip()[-800:]}", cmd)
    return out


def pmap(fn, items, jobs=None):
    items = list(items)
    with ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        return list(ex.map(fn, items))


class Report:
    """Collects what one run of one check did."""

    def __init__(self, prop, level, level_rule=""):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.queries = 0
        self.solver_s = 0.0
        self.functions = set()
        self.units = []
        self.violations = []     # dict(key, what, replay)
        self.errors = []
        self.samples = []
        self.vacuity_ok = 0
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.assumptions = []
        self.bounds = {}
        self.extra = {}

    def query(self, n=1, secs=0.0):
        with self.lock:
            self.queries += n
            self.solver_s += secs

    def unit(self, name, **kw):
        with self.lock:
            self.units.append(dict(unit=name, **kw))

    def error(self, msg):
        with self.lock:
            self.errors.append(msg)

    def violation(self, key, what, files):
        """files: {name: text}; written under evidence/replay so that the line can be followed."""
        with self.lock:
            for v in self.violations:
                if v["key"] == key:
                    return
            n = len(self.violations)
            d = os.path.join(VERIF, "evidence", "replay", f"{self.prop}-{n}")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for name, text in files.items():
                with open(os.path.join(d, name), "w" if isinstance(text, str) else "wb") as f:
                    f.write(text)
            with open(os.path.join(d, "WHAT.txt"), "w") as f:
                f.write(f"property {self.prop}\nkey {key}\n{what}\n")
            self.violations.append(dict(key=key, what=what, replay=d))

    def finish(self):
        known = load_known()
        listed, fresh = [], []
        for v in self.violations:
            (listed if (self.prop, v["key"]) in known else fresh).append(v)
        cov = {
            "functions_encoded": sorted(self.functions),
            "functions_encoded_count": len(self.functions),
            "bounds": self.bounds,
            "queries_discharged": self.queries,
            "solver_seconds": round(self.solver_s, 3),
            "units": len(self.units),
            "unit_list": self.units[:400],
            "reachability_witnesses": self.vacuity_ok,
            "samples": self.samples[:12] or [u["unit"] for u in self.units[:12]],
            "states": self.states or self.queries,
            "transitions": self.transitions or self.queries,
            "traces_validated_against_impl": self.replayed,
            "explanation": "bounded symbolic execution of the code generated by /repo's current tree; see DESIGN.md",
        }
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.prop}.json"))
        for v in listed:
            print(f"KNOWN-FINDING: property={self.prop} {v['key']}: {v['what'].splitlines()[0]}")
        for v in fresh:
            print(f"  {v['key']}: {v['what'].splitlines()[0]}")
            print(f"VIOLATION property={self.prop} replay={v['replay']}")
        for e in self.errors[:20]:
            print(f"ERROR property={self.prop}: {e}", file=sys.stderr)
        print(f"{self.prop}: units={len(self.units)} queries={self.queries} solver={self.solver_s:.1f}s "
              f"wall={time.time()-self.t0:.1f}s witnesses={self.vacuity_ok} violations={len(fresh)} "
              f"known={len(listed)} errors={len(self.errors)}")
        sys.stdout.flush()
        if fresh:
            return 1
        return 2 if self.errors else 0


def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> :: text' (suppress that key) and
    'fixed: property=<id> <commit> text' (suppress nothing)."""
    res = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                head = line.split("::", 1)[0].split()
                kv = dict(x.split("=", 1) for x in head[1:] if "=" in x)
                res.add((kv["property"], kv["key"]))
    return res
