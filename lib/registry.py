import os, shutil, sys, traceback
from core import *
import checks_layout as CL
import checks_values as CV
import checks_decl as CD
import kani as K
import verus as V
import vunits as VU
import venum as VE
import vglue as VG
import vfmt as VF
import vwrap as VW
import vattr as VA
import vstruct as VS

SHIM = "assumed contract of the external crate bitvec 1.x for LSB partial bytes (shim/bitvec), compared natively with the real crate by C06"
TB = ["Verus 0.2026.09.13 / Z3 (contracts on extracted text)", "lib/extract.py and lib/stage.py: token-level extraction of the functions, the named rewriting rules and staging erasure (DESIGN section 4)", "the contracts on std and syn functions listed in assumptions", "Kani 0.68 / CBMC 6.11 (MIR to goto translation, CaDiCaL)", "rustc and the proc-macro host", "the layout oracle in lib/layout.py", SHIM]
KCMD = "verus <generated unit under build/<id>/> (functions extracted from /repo on this run); cargo kani -Z unstable-options --lib --jobs 8 --no-memory-safety-checks --no-overflow-checks --no-assertion-reach-checks (generated crate under build/<id>/)"
CHECKS = {
 "C01": (CL.c01, "proof"), "C02": (CL.c02, "proof"), "C03": (CL.c03, "proof"),
 **{f"C{n:02d}": (getattr(CV, f"c{n:02d}"), "proof") for n in (4, 5, 6, 8, 9, 10, 11, 12, 13, 17, 19)},
 "C18": (CV.c18, "proof"), "C15": (CD.c15, "exploration"),
 "C07": (CL.c07, "proof"), "C14": (CL.c14, "proof"), "C16": (CL.c16, "proof"),
}
CONTRACTS = {   # contracts discharged by Verus on the text extracted from /repo (C10-C13, C17 start theirs themselves)
 **{p: [(VU.layout, "generated bit copying at every position and width; layout, inverse and ownership lemmas")] for p in ("C01", "C02", "C03")},
 "C09": [(VU.catch_all, "EnumCatchAll, every enumeration")], "C19": [(VU.catch_all, "EnumCatchAll, every enumeration")],
 "C14": [(lambda: VU.decl("C14"), "positions and widths the derive macro computes, every declaration"), (VG.positions, "positions as written, every documented form")],
 "C15": [(lambda: VU.decl("C15"), "the derive macro's own rejections, every declaration")],
 "C16": [(lambda: VU.decl("C16"), "shares of an array's elements, every declaration"), (VU.layout, "generated bit copying at every position and width")],
}
CONTRACTS["C13"] = [(lambda: VU.decl("C13"), "size in bits and bytes, every declaration")]
CONTRACTS["C01"] = CONTRACTS["C01"] + [(lambda: VU.decl("C01"), "bit ranges handed to the generator are disjoint and inside")]
for p in ("C07", "C16", "C13", "C03", "C02"):
    CONTRACTS[p] = CONTRACTS.get(p, []) + [(lambda p=p: VU.simple(p), "one-byte types, bool, (), byte arrays and reserved bits: pack, unpack, size")]
for p in ("C08", "C19"):
    CONTRACTS[p] = CONTRACTS.get(p, []) + [(lambda p=p: VE.enumeration(p), "numbers, backing type, names and parsing tables the derive generates, every enumeration")]
CONTRACTS["C18"] = [(VF.bits_fmt, "bit formatter, every slice and range"), (VF.dumps, "header, dumps and table of PackedStructDisplay, every structure"), (VF.table_fmt, "rows of the field table, every table"), (VF.table, "rows the derive generates, every declaration")]
for p in ("C01", "C02", "C03", "C16"): CONTRACTS[p] = CONTRACTS[p] + [(VG.glue, "assembly of the derived impl, every declaration")]
for p in ("C01", "C02", "C03", "C14", "C15", "C16"): CONTRACTS[p] = CONTRACTS[p] + [(lambda p=p: VW.conversions(p), "conversions chosen for a field, applied by pack, undone by unpack, every declaration")]
for p in ("C13", "C14", "C15"): CONTRACTS[p] = CONTRACTS[p] + [(lambda p=p: VA.attributes(p), "attributes: what each one says, which one counts, every declaration")]
for p in ("C13", "C14", "C15"): CONTRACTS[p] = CONTRACTS[p] + [(lambda p=p: VS.structure(p), "the derive's reading of a declaration as a whole, every declaration")]
def run_check(pid, fn, res):
    cs = CONTRACTS.get(pid)
    if not cs: return fn(res)
    fails = V.check_many(pid, res, cs)
    fn(res)
    if fails and not any(v[2] for v in res.violations) and pid in CL.DEEP and not res.extra.get("error"): CL.DEEP[pid](res)
    V.report(res, fails)
def main(pid):
    fn, level = CHECKS[pid]
    res = Result(pid)
    shutil.rmtree(os.path.join(BUILD, pid), ignore_errors=True)
    try:
        run_check(pid, fn, res)
    except Exception:
        traceback.print_exc()
        if not res.violations: sys.exit(2)
    if res.extra.pop("error", None) and not res.violations:
        print(f"{pid}: no verdict: {res.undecided}"); sys.exit(2)
    for b in os.listdir(os.path.join(BUILD, pid)) if os.path.isdir(os.path.join(BUILD, pid)) else []:
        if b.startswith("kani-target") or (b.startswith("native-target") and not res.violations): shutil.rmtree(os.path.join(BUILD, pid, b), ignore_errors=True)
        shutil.rmtree(os.path.join(BUILD, pid, b, "target"), ignore_errors=True)
    finish(res, level, TB, KCMD, rule=getattr(fn, "rule", ""))
