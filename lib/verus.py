"""Verus back end: functions extracted from /repo on every run, annotated, verified modularly.

A unit is one Verus source file: a preamble (contracts of traits, specification functions, lemmas,
trusted helpers) and the extracted functions.  Verdict per extracted function:
  ok         every obligation discharged
  failed     an obligation is refuted or not provable, with all anchors in place: reported
  undecided  the function no longer has the shape the annotation needs, or the solver gave up"""
import json, os, re, threading, time
import extract as X
from core import *

VERUS = "verus"

CLOCK = threading.RLock()
class Unit:
    def __init__(self, name): self.name, self.parts, self.fns, self.lost, self.trusted, self.only, self.alts = name, [], {}, {}, [], None, {}   # only: which functions this property reports
    def text(self, s): self.parts.append((None, s)); return self
    def fn(self, label, *makes):
        """make() -> (Fn, annotated text) or raises Lost; further makes are other annotations of the same contract, tried when one does not go through"""
        got, why = [], None
        for make in makes:
            try: got.append(make())
            except (X.Lost, IndexError, KeyError, ValueError) as e: why = why or str(e) or repr(e)
        if not got: self.lost[label] = why; return False
        self.fns[label] = got[0][0]; self.parts.append((label, got[0][1])); self.alts[label] = [t for _, t in got[1:]]
        return True
    def method(self, label, make, f):
        """a method of a trait: when its text has no longer the annotated shape, the others still need its signature"""
        if not self.fn(label, make): self.text("#[verifier::external_body] " + f.sig() + " { unimplemented!() }")
    def next_try(self, labels):
        """use the next annotation of those functions; False: none left"""
        some = False
        for k in labels:
            if self.alts.get(k): t = self.alts[k].pop(0); self.parts = [(l, t if l == k else x) for l, x in self.parts]; some = True
        return some
    def source(self, stubs=()):
        """the Verus file; functions in stubs keep their contract (assumed) and lose their body"""
        out, where, n = ["use vstd::prelude::*;", "verus! {"], {}, 3
        for label, t in self.parts:
            if label in stubs: t = stub(t)
            k = t.count("\n") + 1
            if label:
                for i in range(n, n + k): where[i] = label
            out.append(t); n += k
        out.append("} fn main() {}")
        return "\n".join(out), where

def stub(t):
    """a function's contract without its body (the last function of t, possibly inside an impl)"""
    q = t.rstrip(); m = re.compile(r'"(?:[^"\\]|\\.)*"|//[^\n]*|[{}]', re.S); st, pairs = [], []
    for x in m.finditer(q):
        if x.group(0) == "{": st.append(x.start())
        elif x.group(0) == "}": pairs.append((len(st), st.pop(), x.start()))
    for depth in (1, 2):
        at = [(o, e) for d, o, e in pairs if d == depth]
        if not at: break
        o, e = at[-1]; f = [x.start() for x in re.finditer(r"\b(?:pub )?(?:proof )?fn \w", q[:o])]
        if f: return q[:f[-1]] + "#[verifier::external_body] " + q[f[-1]:o] + "{ unimplemented!() }" + q[e+1:]
    raise X.Lost("stub")

UNPROVED = re.compile(r"error: (possible (arithmetic|division)|(post|pre)condition not|invariant not|assertion failed|decreases not|recommendation not|unreachable|cannot show)", re.I)     # an obligation, not the language
UNKNOWN = re.compile(r"rlimit|Resource limit|timed out|not supported|unsupported|The verifier does not yet support", re.I)
def verify(prop, unit, rlimit=20, tries=2):
    """-> {label: (status, text)}, stats"""
    d = os.path.join(BUILD, prop, "verus"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, unit.name + ".rs"); stubs = {}
    seed, st, res = 0, {"obligations": 0, "discharged": 0, "smt_ms": 0, "wall_s": 0.0, "file": f}, {}
    for k, why in unit.lost.items(): res[k] = ("undecided", why)
    if not unit.fns: return res, st
    while True:
        src, where = unit.source(stubs); open(f, "w").write(src)
        e = run(["bash", "-c", f"exec {VERUS} --output-json --time-expanded --multiple-errors 4 --rlimit {rlimit} --smt-option smt.random_seed={seed} {f} 2>{f}.err"], timeout=400)
        rc, out, w = e; st["wall_s"] += round(w, 1)
        err = open(f + ".err").read() if os.path.exists(f + ".err") else ""
        try: j = json.loads(out[out.index("{"):])
        except Exception: j = {}
        vr = j.get("verification-results", {})
        fb = [x for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for x in m.get("function-breakdown", []) if x.get("mode:") in ("exec", "proof")]
        if not vr or vr.get("encountered-vir-error") or (not fb and unit.fns) or ("verified" not in vr):
            # functions outside the subset (or calling what is not extracted) keep their contract only: no verdict for them
            new = {}
            for b in re.split(r"\n(?=error|warning|note: )", "\n" + err):
                if not b.strip().startswith("error") or UNPROVED.match(b.strip()): continue
                m = re.search(r"-->\s*\S+?:(\d+):\d+", b); k = where.get(int(m.group(1))) if m else None
                if k and k not in stubs: new.setdefault(k, "the extracted text is outside the verifier's subset or does not compile: " + b.strip()[:700])
            if new and len(stubs) + len(new) < len(unit.fns):
                try: [stub(t) for l, t in unit.parts if l in new]; stubs.update(new); continue
                except X.Lost: pass
            for k in unit.fns: res[k] = ("undecided", "the extracted text is outside the verifier's subset or does not compile:\n" + "\n".join(b.strip() for b in re.split(r"\n(?=error|warning|note: )", "\n" + err) if b.strip().startswith("error"))[:1500])
            return res, st
        blocks = re.split(r"\n(?=error|warning|note: )", "\n" + err)
        bad, maybe = {}, {}
        for b in blocks:
            if not b.strip().startswith("error"): continue
            ls = [int(x) for x in re.findall(r"-->\s*\S+?:(\d+):\d+", b)] + [int(x) for x in re.findall(r"^\s*(\d+)\s*[|│]", b, re.M)]
            lab = [where[l] for l in ls if l in where]
            tgt = maybe if UNKNOWN.search(b) else bad
            for k in ([lab[0]] if lab else []): tgt.setdefault(k, []).append(b.strip())
            if not lab and "aborting due to" not in b: maybe.setdefault("__other__", []).append(b.strip())
        if unit.next_try(bad): continue
        if (bad or maybe) and '__other__' not in maybe and seed < tries - 1:
            seed += 1; rlimit *= 2; continue
        break
    st["obligations"] = len(fb); st["discharged"] = sum(1 for x in fb if x.get("success"))
    st["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    if "__other__" in maybe or vr.get("errors", 0) and not (bad or maybe):
        # a lemma of ours that does not go through says nothing about the code
        for k in unit.fns: maybe.setdefault(k, []).append("a lemma of the specification did not verify: " + "\n".join(maybe.get("__other__", ["?"]))[:600])
    for k in unit.fns:
        if k in stubs: res[k] = ("undecided", stubs[k])
        elif k in maybe: res[k] = ("undecided", "\n".join(maybe[k])[:3000])
        elif k in bad: res[k] = ("failed", "\n".join(bad[k])[:4000])
        else: res[k] = ("ok", "")
    return res, st

def cheating(src):
    return {w: len(re.findall(r"\b" + w + r"\b", src)) for w in ("admit", "assume", "external_body", "assume_specification") if re.search(r"\b" + w + r"\b", src)}

def vacuous(prop, unit, r, rlimit):
    """no function may verify with `assert(false)` after its preconditions"""
    with CLOCK:
        X.CANARY = " proof { assert(false); } "
        try: u = unit()
        finally: X.CANARY = ""
    u.name += "_canary"
    c, _ = verify(prop, u, rlimit, 1)
    return {k: (("undecided", "vacuous: assert(false) verifies at its entry") if v[0] == "ok" and c.get(k, ("", ""))[0] == "ok" else v) for k, v in r.items()}

def check(prop, res, unit, what, rlimit=20): return check_many(prop, res, [(unit, what)], rlimit)

def check_many(prop, res, units, rlimit=20):
    """Verify units (in parallel), add to the evidence, return the definite failures (reported by report())."""
    from concurrent.futures import ThreadPoolExecutor
    def one(uw):
        try:
            with CLOCK: u = uw[0]()
        except X.Lost as e: return uw[1], None, str(e), None
        r, st = verify(prop, u, rlimit)
        if TIER != "quick": r = vacuous(prop, uw[0], r, rlimit)
        return uw[1], u, r, st
    fails = []
    with ThreadPoolExecutor(8) as ex: done = list(ex.map(one, units))
    for u in [u for _, u, _, _ in done if u is not None]:
        for t in u.trusted:
            if t in FACTS and t not in res.extra.setdefault("axioms_compared_natively", {}): res.extra["axioms_compared_natively"][t] = fact(prop, res, FACTS[t])
    for what, u, r, st in done:
        if u is None: res.undecided.append(f"Verus ({what}): {r}"); continue
        if u.only: r = {k: v for k, v in r.items() if u.only(k)}
        src, _ = u.source()
        res.obligations += st["obligations"]; res.discharged += st["discharged"]
        rules = sorted({x for f in u.fns.values() for x in f.rules})
        res.backends.append({"backend": "Verus 0.2026.09.13 / Z3 (unbounded, all inputs)", "what": what, "functions": {k: v[0] for k, v in r.items()}, "function_obligations": st["obligations"], "discharged": st["discharged"], "solver_ms": st["smt_ms"], "wall_s": round(st["wall_s"], 1), "extraction_rules_used": rules, "trusted_text": cheating(src)})
        res.functions += [f"{k} (Verus, no bound)" for k, v in r.items() if v[0] == "ok"]
        for t in u.trusted:
            if t not in res.assumptions: res.assumptions.append(t)
        for k, (s, t) in r.items():
            if s == "undecided": res.undecided.append(f"Verus {u.name}/{k}: {t[:300]}")
        fails += [(f"contract of {k} no longer discharged ({what})", f"function: {k}\nVerus file: {st['file']}\n\n{t}") for k, (s, t) in r.items() if s == "failed"]
    return fails

FACTS = {}      # trusted statement -> Rust program that compares it with the real thing over its whole stated range
def fact(prop, res, prog):
    d = os.path.join(BUILD, prop, "verus"); f = os.path.join(d, "fact")
    with open(f + ".rs", "w") as h: h.write(prog)
    rc, out, _ = run(["rustc", "-O", f + ".rs", "-o", f], timeout=120)
    if rc == 0: rc, out, _ = run([f], timeout=200)
    if rc != 0: res.undecided.append("a trusted statement does not hold natively: " + out[-300:]); return "failed"
    return out.strip()

def report(res, fails):
    """A refuted contract: the stand-ins' failing input makes it concrete; without one it is reported as such."""
    for w, t in fails: res.violate(w, t, False)
