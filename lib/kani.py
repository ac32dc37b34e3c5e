"""Kani back end: full-domain symbolic harnesses over /repo's real crates, with
native replay of counterexamples against the real dependencies."""
import os, re, json, time, random, shutil
from core import *

ND = r'''
#[cfg(kani)]
pub mod nd {
    #[inline] pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
    #[inline] pub fn assume(b: bool) { kani::assume(b) }
}
#[cfg(not(kani))]
pub mod nd {
    use std::cell::RefCell;
    thread_local! { pub static S: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0)); }
    pub fn consumed() -> Option<u64> { S.with(|s| { let s = s.borrow(); let n = s.1.min(s.0.len()); if s.0[..n].iter().all(|b| *b == 0) { return None } let mut h = 0xcbf29ce484222325u64; for b in &s.0[..n] { h = (h ^ *b as u64).wrapping_mul(0x100000001b3) } Some(h) }) }
    pub fn set(v: Vec<u8>) { S.with(|s| *s.borrow_mut() = (v, 0)) }
    fn byte() -> u8 { S.with(|s| { let mut s = s.borrow_mut(); let i = s.1; s.1 += 1; if i < s.0.len() { s.0[i] } else { 0 } }) }
    pub trait Any { fn get() -> Self; }
    macro_rules! im { ($($t:ty),*) => { $( impl Any for $t { fn get() -> Self { let mut a = [0u8; core::mem::size_of::<$t>()]; for x in a.iter_mut() { *x = byte() } <$t>::from_le_bytes(a) } } )* } }
    im!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
    impl Any for bool { fn get() -> Self { byte() & 1 == 1 } }
    impl<T: Any, const N: usize> Any for [T; N] { fn get() -> Self { core::array::from_fn(|_| T::get()) } }
    pub fn any<T: Any>() -> T { T::get() }
    pub struct Discard;
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Discard) } }
}
'''
PRELUDE = "#![allow(warnings)]\n" + ND
USES = "#[allow(unused_imports)] use packed_struct::prelude::*; #[allow(unused_imports)] use packed_struct::types::bits::*; #[allow(unused_imports)] use packed_struct::PackedStructInfo; #[allow(unused_imports)] use crate::nd;\n"

MAIN = r'''
use std::panic;
fn hexd(s: &str) -> Vec<u8> { (0..s.len()/2).map(|i| u8::from_str_radix(&s[2*i..2*i+2], 16).unwrap()).collect() }
struct R(u64);
impl R { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    let once = |f: fn(), v: Vec<u8>| -> Option<String> {
        LIB::nd::set(v);
        match panic::catch_unwind(|| f()) {
            Ok(()) => None,
            Err(e) => {
                if e.downcast_ref::<LIB::nd::Discard>().is_some() { return Some(String::new()); }
                Some(if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() })
            }
        }
    };
    // run <harness> <hex>  |  search <harness|*> <iterations> <seed>
    match a[1].as_str() {
        "run" => {
            let f = LIB::ALL.iter().find(|x| x.0 == a[2]).expect("harness").1;
            match once(f, hexd(a.get(3).map(|s| s.as_str()).unwrap_or(""))) { Some(m) if !m.is_empty() => { println!("FAIL {} {}", a[2], m); std::process::exit(1) } _ => println!("PASS {}", a[2]) }
        }
        "search" => {
            let n: u64 = a[3].parse().unwrap();
            let mut r = R(a[4].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1);
            let (mut ev, mut bad, mut distinct) = (0u64, 0, 0u64);
            for (name, f) in LIB::ALL.iter() {
                if a[2] != "*" && a[2].split(',').all(|x| x != *name) { continue; }
                let mut seen = std::collections::HashSet::new();
                for i in 0..n {
                    let len = 4096;
                    let mode = i % 6;
                    let v: Vec<u8> = match mode { 0 if i == 0 => vec![0; len], 1 if i == 1 => vec![0xff; len],
                        2 => (0..len).map(|_| [0u8, 0xff, 1, 0x80, 0x7f, 2, 0xfe][(r.n() >> 20) as usize % 7]).collect(),
                        3 => { let p = 1 + (r.n() >> 20) as usize % 16; (0..len).map(|k| if k % p == 0 { (r.n() >> 24) as u8 } else { 0 }).collect() }
                        4 => (0..len).map(|_| if r.n() >> 61 == 0 { 1u8 << ((r.n() >> 20) & 7) } else { 0 }).collect(),
                        _ => (0..len).map(|_| (r.n() >> 24) as u8).collect() };
                    match once(*f, v.clone()) {
                        None => { ev += 1; if let Some(h) = LIB::nd::consumed() { if seen.insert(h) { distinct += 1 } } }
                        Some(m) if m.is_empty() => {}
                        Some(m) => { println!("FAIL {} {} {}", name, v.iter().take(256).map(|b| format!("{:02x}", b)).collect::<String>(), m.replace('\n', " ")); bad += 1; break; }
                    }
                }
            }
            println!("EVALUATIONS {} {}", ev, distinct);
            if bad > 0 { std::process::exit(1) }
        }
        _ => panic!()
    }
}
'''

class Crate:
    """A generated harness crate.  files: {relative path: text}; harnesses: list of
    (module path, fn) with `pub fn fn()` in them."""
    def __init__(self, prop, name, features=None, deps=""):
        self.dir = os.path.join(BUILD, prop, name); self.prop, self.name = prop, name
        self.mods = {}; self.harnesses = []; self.src = {}; self.features = features; self.deps = deps; self.unwind = {}; self.shards = 8; self.cost = {}; self.native_only = []; self.describe = None; self.compile_violation = True
    def add_mod(self, name, text): self.mods[name] = USES + text
    def add_harness(self, name, calls, unwind=None):
        """One proof harness calling the given pub fns in turn."""
        self.harnesses.append((name, calls)); 
        if unwind: self.unwind[name] = unwind
    def write(self):
        fresh(os.path.join(self.dir, "src"))
        os.makedirs(os.path.join(self.dir, "src", "bin"), exist_ok=True)
        feat = f', features = {json.dumps(self.features)}' if self.features else ''
        shim = os.path.join(VERIF, "shim", "bitvec")
        def toml(patched):
            return (f'[package]\nname = "harness"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[lib]\npath = "src/lib.rs"\n'
                    f'[lints.rust]\nunexpected_cfgs = {{ level = "allow" }}\n'
                    f'[profile.dev]\ndebug = false\nopt-level = 0\n'
                    f'[dependencies]\npacked_struct = {{ path = "{REPO}/packed_struct"{feat} }}\n{self.deps}' +
                    (f'[patch.crates-io]\nbitvec = {{ path = "{shim}" }}\n' if patched else ''))
        def lib(hs):
            used = {c.split("::")[0] for h, calls in self.harnesses for c in calls} | {c.split("::")[0] for c in self.native_only}
            mine = {c.split("::")[0] for h, calls in hs for c in calls}
            mods = [m for m in self.mods if m in mine or m not in used]
            t = PRELUDE + "".join(f'#[path = "{self.dir}/src/{m}.rs"] pub mod {m};\n' for m in mods)
            for h, calls in hs:
                uw = f"#[cfg_attr(kani, kani::unwind({self.unwind[h]}))]\n" if h in self.unwind else ""
                t += f"#[cfg_attr(kani, kani::proof)]\n{uw}pub fn {h}() {{ {' '.join(c + '();' for c in calls)} }}\n"
            flat = [(c.replace("::", "_"), c) for h, calls in hs for c in calls]
            return t + "pub const ALL: &[(&str, fn())] = &[" + ", ".join(f'("{n}", {c})' for n, c in flat) + "];\n"
        self.shard = {}
        n = max(1, min(self.shards, len(self.harnesses)))
        size = lambda h: sum(self.cost.get(c, 1) for c in h[1])
        bins = [[] for _ in range(n)]; load = [0] * n
        for h in sorted(self.harnesses, key=lambda h: -size(h)):
            k = load.index(min(load)); bins[k].append(h); load[k] += size(h)
        for i in range(n):
            hs = bins[i]; d = os.path.join(self.dir, f"kani{i}"); os.makedirs(d + "/src", exist_ok=True)
            for h, _ in hs: self.shard[h] = i
            open(d + "/Cargo.toml", "w").write(toml(True)); open(d + "/src/lib.rs", "w").write(lib(hs)); lockfile(d)
        self.nshards = n
        d = os.path.join(self.dir, "native"); os.makedirs(d, exist_ok=True)
        open(d + "/Cargo.toml", "w").write(toml(False)); lockfile(d)
        if not os.path.islink(d + "/src"): os.symlink("../src", d + "/src")
        full = lib(self.harnesses)
        extra = {c.split("::")[0] for c in self.native_only} - {c.split("::")[0] for h, calls in self.harnesses for c in calls}
        full += "".join(f"pub mod {m};\n" for m in sorted(extra))
        full = full.replace("pub const ALL: &[(&str, fn())] = &[", "pub const ALL: &[(&str, fn())] = &[" + "".join(f'("{c.replace("::", "_")}", {c}), ' for c in self.native_only))
        open(os.path.join(self.dir, "src", "lib.rs"), "w").write(full)
        for m, t in self.mods.items(): open(os.path.join(self.dir, "src", m + ".rs"), "w").write(t)
        open(os.path.join(self.dir, "src", "bin", "replay.rs"), "w").write("#![allow(warnings)]\nuse harness as LIB;\n" + MAIN)

    # ------------------------------------------------------------ Kani
    def kani(self, only=None, timeout=700, htimeout=240, playback=False):
        def one(i, hs):
            cmd = ["cargo", "kani", "-Z", "unstable-options", "--lib", "--no-memory-safety-checks", "--no-overflow-checks",
                   "--no-assertion-reach-checks", "--output-format", "terse", "--harness-timeout", f"{htimeout}s",
                   "--target-dir", os.path.join(BUILD, self.prop, f"kani-target{i}")]
            if playback: cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
            else: cmd += ["--jobs", str(max(1, 8 // self.nshards))]
            for h in hs: cmd += ["--harness", h, "--exact"]
            return run(cmd, cwd=os.path.join(self.dir, f"kani{i}"), timeout=timeout)
        warm = os.path.join(BUILD, self.prop, "kani-target0")
        if not os.path.isdir(warm):
            # dependencies once, then a copy of the build directory per shard
            d = os.path.join(self.dir, "warm"); os.makedirs(d + "/src", exist_ok=True)
            shutil.copy(os.path.join(self.dir, "kani0", "Cargo.toml"), d); lockfile(d)
            open(d + "/src/lib.rs", "w").write("#[cfg(kani)] #[kani::proof] fn w() {}\n")
            run(["cargo", "kani", "-Z", "unstable-options", "--lib", "--only-codegen", "--target-dir", warm], cwd=d, timeout=300)
        for i in range(self.nshards):
            t = os.path.join(BUILD, self.prop, f"kani-target{i}")
            if not os.path.isdir(t): shutil.copytree(warm, t, symlinks=True)
        if only: jobs = [(i, [h for h in only if self.shard[h] == i]) for i in sorted({self.shard[h] for h in only})]
        else: jobs = [(i, []) for i in range(self.nshards)]
        from concurrent.futures import ThreadPoolExecutor
        t = time.time()
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda j: one(*j), jobs))
        return max(r[0] for r in rs), "\n".join(r[1] for r in rs), time.time() - t
    # ------------------------------------------------------------ native replay
    def build_native(self, timeout=600):
        return run(["cargo", "build", "--bin", "replay", "--target-dir", os.path.join(BUILD, self.prop, "native-target-" + self.name)], cwd=os.path.join(self.dir, "native"), timeout=timeout)
    def native(self, *args, timeout=300):
        return run([os.path.join(BUILD, self.prop, "native-target-" + self.name, "debug", "replay"), *map(str, args)], timeout=timeout)

def replay_bin(c): return os.path.join(BUILD, c.prop, "native-target-" + c.name, "debug", "replay")

def parse_kani(out):
    """harness -> (status, [failed descriptions])"""
    res = {}; thr = {}; cur = None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            thr[m.group(1)] = m.group(2); cur = m.group(2); res.setdefault(cur, [None, []]); last = m.group(1); continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m: cur = thr.get(m.group(1)); continue
        m = re.match(r"(?:Thread (\d+): )?\s*VERIFICATION:- (\w+)", l)
        if m:
            if m.group(1): cur = thr.get(m.group(1), cur)
            if cur: res[cur][0] = m.group(2)
            continue
        m = re.match(r"Failed Checks: (.*)", l)
        if m and cur: res[cur][1].append(m.group(1)); continue
        if re.search(r"CBMC (failed|timed out)|out of memory|harness.*timed out", l) and cur: res[cur][1].append("TOOL: " + l.strip())
    return res

def errors_of(out, limit=60):
    ls = out.splitlines(); keep = []
    for i, l in enumerate(ls):
        if l.startswith("error"): keep += ls[i:i+8] + [""]
    return "\n".join(keep[:limit]) or out[-3000:]

TOOLISH = re.compile(r"unwinding assertion|is not currently supported|unsupported|TOOL:|undefined function|recursion")

def repo_compiles():
    d = os.path.join(BUILD, "repo-target")
    rc, out, _ = run(["cargo", "check", "-p", "packed_struct", "--offline", "--target-dir", d], cwd=REPO, timeout=400)
    return rc == 0, out

def decide(crate, res, what, known=None, max_report=4, native_iters=20000, native_only_iters=300, describe=None, compile_is_violation=True):
    """Run all harnesses; fill res.  describe(fn)->text of the declaration for replay files."""
    crate.write(); crate.describe = describe; crate.compile_violation = compile_is_violation
    if crate.native_only: bounded_native(crate, res, [], what + " (natively)", native_only_iters, [c.replace("::", "_") for c in crate.native_only])
    if not crate.harnesses: return
    rc, out, wall = crate.kani()
    os.makedirs(os.path.join(BUILD, "log"), exist_ok=True)
    open(os.path.join(BUILD, "log", f"{crate.prop}-{crate.name}.kani.log"), "w").write(out)
    pr = parse_kani(out)
    names = [h for h, _ in crate.harnesses]
    calls = dict(crate.harnesses)
    row = {"backend": "kani (CBMC)", "what": what, "harnesses": len(names), "contracts": sum(len(c) for c in calls.values()), "solver_wall_s": round(wall, 1)}
    if not pr:
        # nothing was verified: the harness did not compile, or Kani died
        nrc, nout, _ = crate.build_native()
        ok, rout = repo_compiles()
        if not ok:
            res.undecided.append(what + ": /repo does not compile"); row["status"] = "repo does not compile"; res.backends.append(row)
            print("/repo does not compile:\n" + errors_of(rout)); return
        harness_err = re.search(r"--> (src/\S+)", nout)
        if nrc != 0 and compile_is_violation and harness_err:
            res.violate(f"{what}: a program within the contract does not compile against the current tree", errors_of(nout, 120) + "\n\nsource: the generated crate " + crate.dir + "/native\n" + offending(crate, nout), True)
            res.obligations += row["contracts"]; row["status"] = "does not compile"; res.backends.append(row); return
        if nrc != 0:
            res.undecided.append(what + ": harness does not build"); row["status"] = "harness build error"; res.backends.append(row)
            print(errors_of(nout)); res.extra["error"] = True; return
        row["status"] = "undecided by Kani: " + errors_of(out, 12)[-600:]
        res.undecided.append(what + ": Kani gave no verdict, bounded native run instead")
        res.backends.append(row)
        bounded_native(crate, res, names, what, native_iters); return
    good = [h for h in names if pr.get(h, [None])[0] == "SUCCESSFUL"]
    failed = [h for h in names if pr.get(h, [None])[0] == "FAILED" and not all(TOOLISH.search(d) for d in pr[h][1]) and not any("TOOL:" in d for d in pr[h][1])]
    und = [h for h in names if h not in good and h not in failed]
    res.obligations += row["contracts"]; n = sum(len(calls[h]) for h in good)
    res.discharged += n
    row.update(discharged=n, failed=failed, undecided=und); res.backends.append(row)
    if failed or und:
        nrc, nout, _ = crate.build_native()
        if nrc != 0:
            ok, rout = repo_compiles()
            if ok and compile_is_violation and re.search(r"--> (src/\S+|\S*/src/\S+)", nout):
                res.violate(f"{what}: a program within the contract does not compile against the current tree", errors_of(nout, 120) + "\n\nsource: the generated crate " + crate.dir + "/native\n" + offending(crate, nout), True)
            for h in failed: res.violate(f"{what}: {h}: {pr[h][1][:3]}", out[-4000:], False)
            if und: res.undecided += und
            if not res.violations: print(errors_of(nout)); res.extra["error"] = True
            return
    seen = set()
    for h in failed:
        fns = [c.replace("::", "_") for c in calls[h]]
        rc, o, _ = crate.native("search", ",".join(fns), native_iters, SEED)
        got = [l for l in o.splitlines() if l.startswith("FAIL ")]
        if not got and len(seen) < max_report:
            # ask the verifier for its counterexample and replay that
            prc, po, _ = crate.kani(only=[h], playback=True, timeout=300)
            for vals in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", po, re.S):
                vs = re.sub(r"//.*", "", vals)
                by = [int(x) for v in re.findall(r"vec!\[([^\]]*)\]", vs) for x in v.split(",") if x.strip()]
                if len(fns) > 1:
                    # several contracts in one harness: the bytes belong to them in turn; isolate by running the harness group
                    pass
                hx = "".join(f"{b:02x}" for b in by)
                for f in fns[:1]:
                    rc2, o2, _ = crate.native("run", f, hx)
                    if "FAIL" in o2: got.append(o2.strip().replace("FAIL " + f, f"FAIL {f} {hx}"))
        if got:
            for g in got:
                p = g.split(" ", 3); f = p[1]
                if f in seen: continue
                seen.add(f)
                msg = p[3] if len(p) > 3 else ""
                d = describe(f) if describe else ""
                res.violate(f"{what}: {f}: {msg}", f"contract: {f}\nfailing input (little-endian byte stream of the symbolic values, in order): {p[2][:512]}\nobserved: {msg}\n{d}\nverifier: Kani harness {h} FAILED: {'; '.join(pr[h][1][:4])}\nreplay: {replay_bin(crate)} run {f} {p[2][:128]}", True)
        else:
            res.violate(f"{what}: harness {h}: {'; '.join(pr[h][1][:3])}", f"Kani harness {h} ({', '.join(calls[h][:8])}) FAILED\n" + "\n".join(pr[h][1]) + "\n" + (describe(fns[0]) if describe else ""), False)
    if und:
        res.undecided += [f"{what}: {h}: {'; '.join((pr.get(h) or [0, ['no result']])[1][:2]) or 'no result'}" for h in und]
        bounded_native(crate, res, und, what, native_iters)

def offending(crate, out):
    o = []
    for f, ln in re.findall(r"--> (src/[\w/]+\.rs):(\d+)", out)[:3]:
        try: o.append(f"{f}:{ln}: " + open(os.path.join(crate.dir, f)).read().splitlines()[int(ln)-1][:1500])
        except Exception: pass
    return "\n".join(o)

def bounded_native(crate, res, hs, what, iters, fns=None):
    """Bounded stand-in: the same contracts executed natively on sampled inputs."""
    nrc, nout, _ = crate.build_native()
    if nrc != 0:
        ok, rout = repo_compiles()
        if ok and re.search(r"--> (src/\S+|\S*/src/\S+)", nout) and crate.compile_violation:
            res.violate(f"{what}: a program within the contract does not compile against the current tree", errors_of(nout, 120) + offending(crate, nout), True); return
        res.undecided.append(what + ": native build failed"); print(errors_of(nout)); res.extra["error"] = True; return
    calls = dict(crate.harnesses)
    if fns is None: fns = [c.replace("::", "_") for h in hs for c in calls[h]]
    rc, o, _ = crate.native("search", ",".join(fns), iters, SEED, timeout=400)
    m = re.search(r"EVALUATIONS (\d+) (\d+)", o)
    if m: res.evaluations += int(m.group(1)); res.nontrivial += int(m.group(2))
    else: res.undecided.append(what + ": native run died"); res.violate(f"{what}: native execution ended abnormally", o[-2000:], True) if rc not in (0, 1, -999) else None
    res.backends.append({"backend": "native execution (bounded, not proof)", "what": what, "contracts": len(fns), "evaluations": int(m.group(1)) if m else 0})
    for l in o.splitlines():
        if l.startswith("FAIL "):
            p = l.split(" ", 3)
            res.violate(f"{what}: {p[1]}: {p[3] if len(p) > 3 else ''}", f"contract: {p[1]}\ninput stream: {p[2][:512]}\n{p[3] if len(p)>3 else ''}\n{crate.describe(p[1]) if crate.describe else ''}\nreplay: {replay_bin(crate)} run {p[1]} {p[2][:128]}", True)
