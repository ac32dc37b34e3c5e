"""Writes MANIFEST.json from the table below."""
import json, os
N = {
 "C01": ('Verus contracts on extracted functions; Kani contracts on derived code', 'proof', 'Verus: the generator (pack_bits, ones_u8, shift emission, parse_struct, derive_pack) for every start bit, width and declaration. Kani: concrete declarations (every offset x width 1..64, multi-field) against a layout oracle, all values. bitvec is an assumed contract, compared natively with the real crate.'),
 "C02": ('Verus contracts on extracted functions; Kani contracts on derived code', 'proof', 'Verus: unpacking statements and the inverse lemmas for every start bit and width. Kani: both round trips per declaration of a battery, all values and bytes.'),
 "C03": ('Verus contracts on extracted functions; Kani contracts on derived code', 'proof', 'Verus: unpacking reads owned bits only and never out of bounds, for every position. Kani: value, error kind and absence of panics per declaration, all byte arrays.'),
 "C04": ('Kani contracts, all 128 type/width pairs', 'proof', 'Complete for all 128 pairs and all values; text and hash forms are executed natively on sampled values (bounded).'),
 "C05": ('Kani contracts, all eight native types', 'proof', 'Complete: every value, every byte array.'),
 "C06": ('Kani contracts, all 128 type/width pairs, both byte orders', 'proof', "Complete for all pairs and values, given the assumed contract of bitvec's shifts (compared natively with the real crate in the same run)."),
 "C07": ('Verus contracts on extracted functions; Kani contracts on derived code', 'proof', 'Verus: ReservedBits for every value and width. Kani: reserved regions inside structures, all values and bytes; declarations are a battery.'),
 "C08": ('Verus contracts on extracted functions; Kani contracts on derived enumerations', 'proof', 'Verus: numbering, backing type and from_primitive table for every enumeration. Kani: a battery of enumerations, every number of the backing type.'),
 "C09": ('Verus contracts on extracted functions; Kani contracts on instances', 'proof', 'Verus: EnumCatchAll for every enumeration. Kani: nine enumerations and structures holding catch-all fields, every number.'),
 "C10": ('Verus contracts on extracted functions; Kani contracts on instances', 'proof', 'Verus: the blanket slice implementation for every packable type and slice length. Kani: concrete types at lengths around the exact one.'),
 "C11": ('Verus contracts on extracted functions; Kani contracts on instances', 'proof', 'Verus: Vec<T> for every item type and length. Kani and native instances as stand-ins.'),
 "C12": ('Verus contracts on extracted functions (macro-expanded tuples); Kani instances', 'proof', 'Verus: length builder and every arity 1..10 for all members. Kani and native tuples as stand-ins.'),
 "C13": ('Verus contracts on extracted functions; Kani contracts per packable type', 'proof', 'Verus: size computed by the derive macro and by the built-in types. Kani/native: size tables, executed once (they have no inputs).'),
 "C14": ('Verus contracts on extracted functions; Kani contracts per attribute form', 'proof', 'Verus: positions and widths for every declaration, and positions as written for every documented form. Kani: each form through the real macro. Exclusive byte ranges are a listed finding.'),
 "C15": ('Verus contracts on extracted functions; compile-time battery on the real macro', 'exploration', "Verus: the macro's own rejections (overlap, out of range, uneven arrays, missing numbering) for every declaration. Whether a declaration compiles is rustc's answer: a bounded battery, in debug and release builds of the macro."),
 "C16": ('Verus contracts on extracted functions; Kani contracts on derived code', 'proof', 'Verus: shares of array elements, bit copying, byte arrays and one-byte types as members. Kani: arrays and nestings battery, all values and bytes. Partial-byte nested structures are a listed finding.'),
 "C17": ('Verus contracts on extracted functions; Kani contracts on instances', 'proof', 'Verus: ByteArray for [u8; N] for every N and rotation. Kani: N = 0..12 and 33.'),
 "C18": ('Verus contracts on extracted functions; Kani contract on the bit formatter', 'proof', 'Verus: bit formatter, header, dumps, table and derived rows, as the sequence of pieces written. Rendering by core::fmt is checked natively on whole displays (bounded).'),
 "C19": ('Verus contracts on extracted functions; Kani contracts on derived string tables', 'proof', 'Verus: names and parsing tables the derive emits, for every enumeration. Kani: every ASCII string up to one byte longer than the longest name per enumeration.'),
}
m = {"version": 1, "setup_cmd": "true", "checks": [
    {"property": k, "quick_cmd": f"bin/check {k}", "thorough_cmd": f"bin/check {k} --thorough", "technique": t, "level": l, "level_note": n} for k, (t, l, n) in N.items()],
    "not_applicable": []}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
