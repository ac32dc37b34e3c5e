"""Native probes: small programs compiled with rustc against the current tree."""
import os, re
from core import *
import kani as K
import extract as X

def lib_build(prop, name, features=None, deps="", cargo_flags=()):
    """Build /repo's crate once (real dependencies) and return rustc arguments for linking against it."""
    d = fresh(os.path.join(BUILD, prop, "probe_" + name)); os.makedirs(d + "/src")
    feat = f', features = {json.dumps(features)}' if features else ''
    open(d + "/Cargo.toml", "w").write(f'[package]\nname = "probe"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\npacked_struct = {{ path = "{REPO}/packed_struct"{feat} }}\n{deps}')
    open(d + "/src/lib.rs", "w").write("")
    lockfile(d)
    rc, out, _ = run(["cargo", "build", "--message-format=json", *cargo_flags], cwd=d, timeout=600)
    ext = {}
    for l in out.splitlines():
        if l.startswith("{"):
            try: m = json.loads(l)
            except Exception: continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"): ext[m["target"]["name"].replace("-", "_")] = f
    if "packed_struct" not in ext: return None, out
    return ["--edition", "2021", "-L", "dependency=" + os.path.dirname(ext["packed_struct"]).replace("/debug", "/debug") , "-L", "dependency=" + d + "/target/" + ("release" if "--release" in cargo_flags else "debug") + "/deps", "--extern", "packed_struct=" + ext["packed_struct"]], out

HEAD = "#![allow(warnings)]\nuse packed_struct::prelude::*; use packed_struct::types::bits::*; use packed_struct::PackedStructInfo;\n"

def compile_many(prop, name, progs, run_it=True, jobs=8, emit=True):
    """progs: [(key, source)].  -> {key: (compiled, ran_ok, output)}"""
    from concurrent.futures import ThreadPoolExecutor
    args, out = lib_build(prop, name)
    if args is None: raise RuntimeError("packed_struct does not build:\n" + K.errors_of(out))
    d = os.path.join(BUILD, prop, "probe_" + name)
    def one(kp):
        key, src = kp
        f = os.path.join(d, f"p_{re.sub(r'[^A-Za-z0-9]', '_', key)}")
        open(f + ".rs", "w").write(HEAD + src)
        mode = ["-o", f] if emit else ["--emit=metadata", "-o", f + ".rmeta"]
        rc, o, _ = run(["rustc", f + ".rs", "--crate-type", "bin", "--crate-name", "probe", *mode, *args], timeout=120)
        if rc != 0: return key, (False, False, o)
        if not run_it: return key, (True, False, o)
        rc, o, _ = run([f], timeout=60)
        return key, (True, rc == 0, o)
    with ThreadPoolExecutor(jobs) as ex: return dict(ex.map(one, progs))

def probe(prop, name, progs):
    r = compile_many(prop, name, progs)
    src = dict(progs)
    return {k: (c and ok, f"program:\n{src[k]}\n{'does not compile' if not c else 'fails when run'}:\n{K.errors_of(o) if not c else o[-800:]}") for k, (c, ok, o) in r.items()}

def expanded(prop):
    """/repo's runtime crate after macro expansion, as the compiler sees it."""
    d = fresh(os.path.join(BUILD, prop, "expand")); os.makedirs(d + "/src")
    open(d + "/Cargo.toml", "w").write(f'[package]\nname = "probe"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\npacked_struct = {{ path = "{REPO}/packed_struct" }}\n')
    open(d + "/src/lib.rs", "w").write(""); lockfile(d)
    rc, out, w = run(["bash", "-c", f"exec cargo +nightly rustc --offline -p packed_struct --lib --profile check -- -Zunpretty=expanded 2>{d}/err"], cwd=d, timeout=400)
    if rc != 0 or "mod " not in out: raise X.Lost("macro expansion failed: " + open(d + "/err").read()[-400:])
    return out
