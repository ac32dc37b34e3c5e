"""Common driver pieces: environment, evidence, findings, verdict."""
import json, os, re, subprocess, sys, time, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
T0 = time.time()

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.pop("LD_LIBRARY_PATH", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None); e.pop("CARGO_TARGET_DIR", None); e.pop("CARGO_BUILD_TARGET_DIR", None)
    e["HOME"] = e.get("HOME") or "/root"
    return e

def run(cmd, cwd=None, timeout=800, extra=None):
    e = env()
    if extra: e.update(extra)
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = -999
    return rc, out.decode("utf-8", "replace"), time.time() - t

def fresh(path):
    shutil.rmtree(path, ignore_errors=True); os.makedirs(path); return path

def lockfile(dst):
    """The dependency versions /repo is built with; a committed copy if /repo has none."""
    for c in (os.path.join(REPO, "Cargo.lock"), os.path.join(VERIF, "lib", "repo.Cargo.lock")):
        if os.path.exists(c): shutil.copy(c, os.path.join(dst, "Cargo.lock")); return

def log(*a): print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ findings
def findings(prop):
    """known-findings.txt: `known: property=<id> key=<key> <text>` lines suppress that key."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

class Result:
    """What a check found."""
    def __init__(self, prop):
        self.prop = prop
        self.violations = []          # (what, replay text, concrete: bool)
        self.undecided = []           # components that gave no verdict
        self.known = []               # (key, text) seen again
        self.obligations = 0; self.discharged = 0
        self.backends = []            # evidence rows
        self.functions = []
        self.assumptions = []
        self.extra = {}
        self.samples = []
        self.evaluations = 0; self.nontrivial = 0
    def violate(self, what, replay, concrete): self.violations.append((what, replay, concrete))

def finish(res, level, trusted, checker_cmd, rule=""):
    wall = time.time() - T0
    cov = {"obligations": res.obligations, "discharged": res.discharged, "checker_cmd": checker_cmd,
           "trusted_base": trusted, "functions_under_contract": res.functions, "backends": res.backends,
           "undecided": res.undecided}
    if level == "exploration": cov.update(evaluations=res.evaluations, distinct_nontrivial=res.nontrivial, rule=rule)
    elif res.evaluations: cov["bounded_native_evaluations"] = res.evaluations
    if res.samples: cov["samples"] = res.samples[:6]
    cov.update(res.extra)
    if level == "other": cov["explanation"] = rule
    ev = {"property": res.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(wall, 1), "violations": len(res.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", res.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for key, text in res.known: print(f"KNOWN-FINDING: property={res.prop} {text}")
    if res.violations:
        d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
        res.violations.sort(key=lambda v: not v[2])
        conc = [v for v in res.violations if v[2]]
        path = os.path.join(d, res.prop + ".txt")
        with open(path, "w") as f:
            for what, replay, c in res.violations:
                f.write(f"== {what}\n{'' if c else '(no failing input found)'}\n{replay}\n\n")
        for what, _, c in res.violations[:20]: print(f"  {res.prop}: {what}" + ("" if c else " [no input]"))
        print(f"VIOLATION property={res.prop} replay={path}" + ("" if conc else " no-failing-input-found"))
        sys.exit(1)
    if res.obligations + res.evaluations == 0:
        print(f"{res.prop}: nothing was checked"); sys.exit(2)
    und = f", {len(res.undecided)} undecided" if res.undecided else ""
    print(f"{res.prop}: held ({res.discharged}/{res.obligations} obligations discharged{und}, {wall:.0f}s)")
    sys.exit(0)
