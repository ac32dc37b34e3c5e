#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the hand-written list below)."""
import json, os
G = "packed_struct_codegen/src/"
L = "packed_struct/src/"
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

props = [
P("C01", "Packing puts every field's bits exactly at its declared position",
  "Packing a structure yields the declared number of bytes in which each field's value occupies exactly the bits its declaration names (numbered from the most significant bit of byte 0 in msb0 mode, from the least significant bit of the last byte in lsb0 mode), most significant wire bit first. Every bit that no field claims is zero. No field ever disturbs the bits of another field.",
  ["inputs", "programs"], "every field value, and every well-formed declaration (any start bit, any width, any mix of field types, any field order)",
  "The tests pack a few dozen hand-picked values of a few dozen layouts; the generator emits different shift/mask code for every (start bit, width, type) combination, and each emitted line must be right for all values.",
  [G+"pack_codegen.rs", G+"pack_parse.rs", G+"utils.rs"],
  [("bit copy emission", G+"pack_codegen.rs:pack_bits"), ("byte mask", G+"utils.rs:ones_u8"), ("field value serialisation", G+"pack_codegen.rs:pack_field")],
  ["return value of pack() on derived structures"],
  [("target", "byte array being assembled by generated pack()", G+"pack_codegen.rs:derive_pack")]),
P("C02", "Unpacking inverts packing",
  "For every structure value whose fields fit their declared widths, unpacking its packed bytes gives back an equal value. Conversely, packing the value obtained from any accepted byte array reproduces that array on every bit owned by a non-reserved field.",
  ["inputs", "programs"], "every representable field value, every accepted byte array, every well-formed declaration",
  "Round-trip tests use fixed values; an error limited to one shift amount, one byte of a wide field or one sign boundary passes them all.",
  [G+"pack_codegen.rs", L+"types_num.rs", L+"types_basic.rs"],
  [("pack/unpack emission in pairs", G+"pack_codegen.rs:pack_bits"), ("field deserialisation", G+"pack_codegen.rs:unpack_field")],
  ["unpack(pack(v))", "pack(unpack(b))"]),
P("C03", "Unpacking is total and reads only the bits a field owns",
  "Unpacking any byte array of the declared size never panics, and each field of the result is determined by the field's own bits alone, whatever all other bits are. It fails only with the invalid-value error, and exactly when a boolean's bits are neither 0 nor 1 or an enumeration's number matches no variant.",
  ["inputs", "programs"], "every byte array of the declared size, every well-formed declaration",
  "Tests feed a handful of well-formed buffers; robustness to arbitrary (corrupted, hostile) input is a statement about all 2^(8n) buffers.",
  [G+"pack_codegen.rs", L+"types_basic.rs", L+"types_num.rs", G+"primitive_enum.rs"],
  [("bit extraction", G+"pack_codegen.rs:pack_bits"), ("enum lookup and InvalidValue", G+"pack_codegen.rs:unpack_field"), ("bool decoding", L+"types_basic.rs")],
  ["return value of unpack() on derived structures"]),
P("C04", "A bit-limited integer holds exactly its low N bits",
  "Constructing a bit-limited integer of N bits from any native value, by conversion or by deserialisation, keeps exactly the value's low N bits, zero-extended when unsigned and sign-extended from bit N-1 when signed, so values that fit are unchanged and conversion is idempotent. Converting back, dereferencing, comparing, displaying and serialising all act on that value.",
  ["inputs", "configurations"], "every native value, every supported (native type, bit width) pair, with and without serde support",
  "128 (type, width) pairs times up to 2^64 values; the tests touch a handful of values for about ten pairs.",
  [L+"types_num.rs"],
  [("mask", L+"types_num.rs:ones / value_bit_mask"), ("sign extension", L+"types_num.rs:from_unpacked_to_signed / sign_extend_bits"), ("construction", L+"types_num.rs:from_primitive"), ("serde", L+"types_num.rs:serialize")],
  ["From/Into, Deref, PartialEq, Deserialize on the bit-limited integer type"],
  [("num", "the stored native value; always already masked and extended", L+"types_num.rs:Integer.num")]),
P("C05", "Native integers convert to big/little-endian bytes and back",
  "For every native integer, the most-significant-first conversion gives exactly its big-endian bytes and the least-significant-first conversion exactly its little-endian bytes. Each conversion from bytes is the exact inverse of the corresponding conversion to bytes.",
  ["inputs"], "every value of u8..u64 and i8..i64, every byte array of the matching size",
  "Tests check one or two constants per width.",
  [L+"types_num.rs"],
  [("byte assembly macros", L+"types_num.rs:as_bytes!/from_bytes!"), ("impls", L+"types_num.rs:integer_as_bytes!")],
  ["the native integer/byte-array conversion trait"]),
P("C06", "Partial-width integers have the documented MSB and LSB byte layout",
  "An N-bit integer packed in MSB order is its N-bit value right-aligned in the smallest whole number of bytes; packed in LSB order, its low-order bytes come first and, when N is not a multiple of 8, its remaining top bits come last, the whole N-bit string being right-aligned. Unpacking either form returns the packed integer and ignores whatever precedes those N bits.",
  ["inputs"], "every value and byte array, every supported (native type, bit width) pair, both byte orders",
  "Tests cover widths 10, 24, 32 with one value each; every other width, sign and the shifting of partial bytes is unexercised.",
  [L+"types_num.rs"],
  [("MSB wrapper", L+"types_num.rs:MsbInteger"), ("LSB wrapper and partial-byte shift", L+"types_num.rs:LsbInteger"), ("sized byte conversions", L+"types_num.rs:SizedInteger")],
  ["pack()/unpack() of the MSB and LSB integer wrappers", "the sized byte conversions"]),
P("C07", "Reserved space always packs as its constant and ignores input",
  "A reserved-zeroes region packs as all zero bits and a reserved-ones region as all one bits, over exactly its declared bits, whatever was unpacked before. Unpacking reserved space accepts every input and yields the same value.",
  ["inputs", "programs"], "every input byte array, every reserved width and position (alone, in arrays, inside structures)",
  "The tests hold one or two reserved fields at fixed places with fixed input.",
  [L+"types_reserved.rs", G+"pack_codegen.rs"],
  [("fill byte", L+"types_reserved.rs:get_reserved_bit_value_byte"), ("pack/unpack", L+"types_reserved.rs"), ("placement", G+"pack_codegen.rs:pack_bits")],
  ["pack()/unpack() of reserved types and of structures holding them"]),
P("C08", "Enumerations map to their discriminants and back exactly",
  "For a derived enumeration, converting a variant to its number gives its discriminant as Rust defines it (explicit, or previous plus one), and converting a number gives the variant with that discriminant, or nothing when there is none. When no backing type is named, an accepted enumeration's derived one represents every discriminant.",
  ["inputs", "programs"], "every number of the backing type, every enumeration declaration (explicit, implicit, negative, gapped, suffixed discriminants; all eight backing types)",
  "Tests list a few enumerations and a few numbers; the variant counter and the type choice have boundary cases (around zero, type limits) they never hit.",
  [G+"primitive_enum.rs", G+"lib.rs"],
  [("discriminant counter", G+"primitive_enum.rs:get_unitary_enum"), ("match emission", G+"primitive_enum.rs:derive"), ("backing type choice", G+"primitive_enum.rs:derive min_ty")],
  ["from_primitive / to_primitive / Primitive of derived enumerations"]),
P("C09", "A catch-all enumeration loses no value",
  "Wrapping an enumeration with catch-all makes every number of the backing type convertible: known numbers become the matching variant, all others are kept verbatim, and converting back always returns the original number. Two wrapped values are equal exactly when their numbers are, and a structure holding such a field unpacks and repacks every bit pattern unchanged.",
  ["inputs", "programs"], "every backing number, every wrapped enumeration",
  "Tests try a couple of numbers on one enumeration.",
  [L+"primitive_enum.rs", G+"pack_codegen.rs"],
  [("catch-all conversions", L+"primitive_enum.rs:EnumCatchAll"), ("enum field wrappers", G+"pack_codegen.rs:pack_field/unpack_field")],
  ["from_primitive/to_primitive/== on wrapped enumerations", "structures with catch-all fields"]),
P("C10", "Slice packing demands the exact length and fails cleanly",
  "Packing into or unpacking from a slice succeeds only when the slice length equals the type's packed size, and then agrees byte for byte with the array form; any other length is refused with a size-mismatch error carrying the expected and actual lengths. A refused or failed pack of a type with a fixed-size byte-array form leaves the output slice untouched, and no slice length causes a panic.",
  ["inputs", "programs"], "every statically sized packable type, every slice length and content",
  "Tests use matching lengths; refusal behaviour for all other lengths and for failing element packs is untested.",
  [L+"types_generic.rs", L+"types_bits.rs", L+"packing.rs"],
  [("length guard and copy", L+"types_generic.rs"), ("vector form", L+"packing.rs:pack_to_vec")],
  ["pack_to_slice / unpack_from_slice / pack_to_vec / packed_bytes_size"]),
P("C11", "Vectors pack as the concatenation of their items",
  "A vector of statically sized items packs as its items' bytes in order, without gaps, and demands exactly count times item size bytes. Unpacking splits the input into consecutive items in order, refuses an input that is not a whole number of items with the modulo-mismatch error, propagates an item's error, and gives an empty vector for empty input; unpack and pack are inverse.",
  ["inputs"], "every item type, every item count, every input slice",
  "Tests use fixed short vectors of valid items; item order, offsets and the error paths are properties of all lengths.",
  [L+"types_vec.rs"],
  [("per-item offsets", L+"types_vec.rs:pack_to_slice/unpack_from_slice"), ("size", L+"types_vec.rs:packed_bytes_size")],
  ["pack_to_slice/unpack_from_slice/packed_bytes_size/pack_to_vec on vectors"]),
P("C12", "Tuples chain their members with at most one dynamic part",
  "A tuple packs as its members' bytes in order without gaps, its size is the sum of its members' sizes, and unpacking inverts packing; a single member of dynamic size takes exactly the bytes the others leave. Unpacking with more than one dynamic member, and any buffer whose length cannot be divided this way, is refused with an error and never a panic.",
  ["inputs", "programs"], "every tuple arity 1 to 10, every position of the dynamic member, every buffer length and content",
  "Tests use two shapes with one buffer each; ten macro instantiations times the dynamic position times the buffer length remain.",
  [L+"types_tuples.rs"],
  [("length partition", L+"types_tuples.rs:StructLengthBuilder::build"), ("range construction", L+"types_tuples.rs:StructLengths::new"), ("per-arity impls", L+"types_tuples.rs:tuple_impls!")],
  ["pack_to_slice/unpack_from_slice/packed_bytes_size/pack_to_vec on tuples"],
  [("lengths/ranges", "length class and byte range of each member", L+"types_tuples.rs:StructLengthBuilder/StructLengths")]),
P("C13", "Every way to ask for a size gives the same answer",
  "For every packable type the number of bytes produced by packing, the length of its byte-array type, and the size reported for slices are equal, and equal the reported bit count rounded up to whole bytes. The reported bit count is the declared width (the bit limit of a limited integer, the explicit structure size, or the end of the last declared bit when no size is given).",
  ["programs", "configurations"], "every packable type: basic types, arrays, integers and reserved types of every supported width, derived structures of every shape, every size-table feature",
  "A few struct sizes are asserted; the width-to-bytes tables have hundreds of generated entries.",
  [L+"types_bits.rs", "packed_struct/build.rs", G+"pack_parse.rs", L+"types_generic.rs", L+"types_basic.rs", L+"types_array.rs"],
  [("bits/bytes table", L+"types_bits.rs + packed_struct/build.rs"), ("structure size", G+"pack_parse.rs:parse_struct num_bits/num_bytes"), ("reported bits", L+"types_*.rs:packed_bits")],
  ["packed_bits(), ByteArray::len(), packed_bytes_size(), pack().len()"]),
P("C14", "Position, size and byte-order attributes mean what is documented",
  "Every documented attribute form (single bit or byte, inclusive ranges in either order, exclusive ranges, open-ended starts, sizes in bits or bytes, decimal or hexadecimal numbers, automatic placement after the previous field) places the field at the bits it denotes, for bit and byte units alike. A field's own byte order overrides the structure's default, which applies to all other multi-byte integers; fields of at most 8 bits are unaffected by byte order.",
  ["programs"], "every well-formed combination of attribute forms, numbering modes, sizes and byte orders",
  "One unit test pins a dozen strings; how the parsed position combines with numbering mode, previous fields, element sizes and byte order is only sampled.",
  [G+"pack_parse_attributes.rs", G+"pack_parse.rs", G+"utils.rs"],
  [("position parsing", G+"pack_parse_attributes.rs:parse_position_val"), ("number parsing", G+"pack_parse.rs:parse_num"), ("placement", G+"utils.rs:get_bits_range"), ("width and endianness selection", G+"pack_parse.rs:get_field_mid_positioning/parse_reg_field")],
  ["layout of derived structures written with each attribute form"]),
P("C15", "Ill-formed declarations are rejected at compile time",
  "A declaration in which two fields (or array elements) share a bit, a field extends past the declared structure size, an array's bits do not divide evenly among its elements, an lsb0 structure lacks explicit positions or size, a positioned field lacks a numbering mode, a multi-byte integer lacks a byte order, a position names more than two bounds, an automatically placed first field leaves bits of the last byte over without a declared size, a packed_struct attribute stands on a field or a packed_field attribute on the structure, or the type is generic or not a braced structure, does not compile. Every well-formed declaration does compile.",
  ["programs"], "every declaration of these kinds",
  "The test suite holds no negative tests at all: a test that must not compile cannot be an ordinary unit test, and overlap is a relation between all pairs of fields.",
  [G+"pack_parse.rs", G+"pack.rs", G+"utils.rs"],
  [("overlap check", G+"pack_parse.rs:parse_struct find_overlaps"), ("array division", G+"pack_parse.rs:parse_field"), ("numbering rules", G+"pack_parse.rs:parse_struct"), ("endianness rule", G+"pack_parse.rs:parse_reg_field")],
  ["whether rustc accepts the declaration"],
  [("bits", "owner of each bit of the structure", G+"pack_parse.rs:parse_struct")]),
P("C16", "Arrays and nested structures compose element by element",
  "An array field lays its elements out consecutively from element 0, each at its equal share of the field's bits and each exactly like a single field of the element type, and unpacks them in the same order. A nested packable structure contributes exactly its own packed bits at the declared position and is rebuilt from exactly those bits, its errors surfacing unchanged.",
  ["inputs", "programs"], "every element count, element width, element type, nesting depth and bit offset; every value and byte array",
  "Tests have three array layouts and two nestings, all with fixed values and mostly byte aligned.",
  [G+"pack_codegen.rs", G+"pack_parse.rs", L+"types_array.rs"],
  [("element expansion", G+"pack_parse.rs:parse_field"), ("per-element copy", G+"pack_codegen.rs:derive_pack"), ("nested call", G+"pack_codegen.rs:pack_field/unpack_field"), ("byte arrays", L+"types_array.rs")],
  ["pack/unpack of structures with array and nested fields"]),
P("C17", "The fixed-size byte buffer operations are exact",
  "A byte buffer of size N reports length N, is created with every byte equal to the given value, and its read-only and mutable views expose all N bytes in order. Rotating right by k (k less than N) moves every byte k places towards the end, drops the last k and zero-fills the first k.",
  ["inputs"], "every N, every content, every k below N",
  "One test rotates one 4-byte array by one.",
  [L+"types_bits.rs"],
  [("rotation", L+"types_bits.rs:bytes_rotate_right"), ("array impl", L+"types_bits.rs:ByteArray for [u8; N]")],
  ["the byte array trait on [u8; N]"]),
P("C18", "The debug display shows exactly the packed bits",
  "The field table of a structure's display lists every field and array element once, in order, with its declared bit range and with the very bits that packing stores there (a table whose widest field exceeds 33 bits lists names and values only); the hexadecimal, decimal and binary dumps list the packed bytes in order. The runtime binary formatter prints bits start to end inclusive of any byte slice.",
  ["inputs", "programs"], "every structure, every value, every bit range and slice content",
  "Tests compare two fixed strings.",
  [L+"debug_fmt.rs", G+"pack_codegen_docs.rs"],
  [("bit formatter", L+"debug_fmt.rs:DebugBinaryByteSlice"), ("field table", L+"debug_fmt.rs:packable_fmt_fields"), ("field ranges", G+"pack_codegen_docs.rs:struct_runtime_formatter"), ("dumps", L+"debug_fmt.rs:PackedStructDisplay")],
  ["Display output of derived structures", "the binary formatter"]),
P("C19", "Enumeration names parse and print consistently",
  "A variant's display string is its name, parsing that exact string returns the variant, parsing the lower-case form through the lower-case parser returns it too, and any other string parses to nothing. The list of all variants holds every variant exactly once in declaration order; with catch-all, known variants behave the same and an unknown number prints as an unknown value showing that number.",
  ["inputs", "programs"], "every string, every variant, every enumeration",
  "Tests check a few names; 'any other string is refused' and the order and completeness of the list hold for all inputs.",
  [G+"primitive_enum.rs", L+"primitive_enum.rs"],
  [("string tables", G+"primitive_enum.rs:derive"), ("catch-all strings", L+"primitive_enum.rs:EnumCatchAll")],
  ["from_str, from_str_lower, to_display_str, all_variants"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
