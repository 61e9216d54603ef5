#!/usr/bin/env python3
"""writes properties.jsonl (kept in git together with its output)"""
import json
A='src/bv/arithmetic.rs';O='src/bv/ops.rs';W='src/bv/owned.rs';B='src/bv/borrowed.rs';I='src/bv/indexed.rs'
S='src/bv/io/strings.rs';Y='src/bv/io/bytes.rs';G='src/bv/io/bigint.rs';R='src/array/owned.rs';P='src/array/ops.rs';L='src/lib.rs'
def q(over,text): return {"over":over,"text":text}
IN=["inputs"]
ALLW="every bit width >= 1 (one, two and arbitrarily many 64-bit words, multiples of 64 or not) and every value of that width"
WT="A test fixes a handful of widths and values; carries, masks and word boundaries fail only at particular width/value combinations out of an unbounded set."
props=[]
def p(id,title,statement,quant,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    props.append({"id":id,"title":title,"statement":statement,"quantifier":quant,"why_tests_cant":why,"anchors":a})
p("C01","Every bit-vector value is stored canonically",
  "Every bit-vector the library produces, by whatever operation, conversion, parse or in-place update, consists of exactly ceil(width/64) words and has every bit above its width equal to zero. This must hold whenever all operands were canonical, because equality, hashing, comparison, interning and printing look at the raw words.",
  q(["inputs","histories"],ALLW+", for every producing operation, and every sequence of such operations"),
  "A stray bit above the width is invisible to most single-operation tests and only breaks a later comparison, hash or conversion; it depends on width mod 64, shift amounts and carries.",
  [A,O,W,Y,G,S],[("masking of the most significant word",A+": mask, mask_msb"),("word-count allocation",W+": value_vec_zeros"),("producing operations",O),("raw constructors",W)])
p("C02","Addition, subtraction, negation, multiplication are modular",
  "For equal-width operands of width w >= 1, addition, subtraction and negation return exactly the mathematical result modulo 2^w, for any number of words. Multiplication returns the product modulo 2^w for every width up to 64 bits. Operands are never modified.",
  q(IN,ALLW+"; multiplication: every width 1..64"),WT,[A,O,W],
  [("carry chain",A+": adc, add, sub, negate, negate_in_place, mul"),("public operators",O+": add/sub/mul/negate; "+W+": Add, Sub")])
p("C03","Bitwise and, or, xor and not act on every bit independently",
  "For operands of width w >= 1, bit i of and/or/xor equals the boolean operation applied to bit i of each operand, and bit i of the complement is the opposite of bit i of the operand, for every i < w. No bit at or above w is ever set.",
  q(IN,ALLW),WT,[A,O],[("word-wise operators",A+": and, or, xor, not, bitwise_bin_op, bitwise_un_op"),("public operators",O)])
p("C04","Shifts move bits exactly, including over-shift",
  "For value and amount operands of the same width w >= 1, shifting left by n gives value*2^n mod 2^w, logical right shift gives floor(value/2^n) and arithmetic right shift gives floor of the two's complement value divided by 2^n. This holds for every amount n the amount operand can encode, including 0, multiples of 64, n >= w and amounts that need more than one word.",
  q(IN,ALLW+" and every shift amount representable in that width"),WT+" Shift amounts multiply the number of distinct word-boundary cases.",[A,O],
  [("shift amount decoding",A+": get_shift_amount"),("shifters",A+": shift_left, shift_right, arithmetic_shift_right, slice")])
p("C05","Concatenation, slicing, extension and bit access are exact",
  "Concatenation places the right operand in the low bits and the left operand directly above it; slicing [msb:lsb] (lsb <= msb < width) returns exactly those bits with width msb-lsb+1; zero and sign extension keep all original bits and fill the new ones with zero or the sign bit. Reading bit i returns bit i, and setting or clearing bit i in place changes that bit and no other. All operands have width >= 1.",
  q(IN,ALLW+", every legal msb/lsb, extension amount and bit position"),WT,[A,O],
  [("bit movers",A+": slice, concat, zero_extend, sign_extend, is_bit_set, set_bit, clear_bit"),("public operators",O)])
p("C06","Comparisons agree with the mathematical order",
  "For equal-width operands of width w >= 1, equal / not-equal / greater / greater-or-equal / less / less-or-equal return exactly the comparison of the unsigned values, and the signed variants exactly the comparison of the two's complement values. In particular every comparison is consistent with its negation and mirror image, also for equal operands and for values spanning several words.",
  q(IN,"every bit width >= 1 and every pair of values of that width"),"Equal operands, or operands that differ only in one word or in the sign bit, are measure-zero for random tests but are exactly where word-wise comparison goes wrong.",[A,O],
  [("comparison kernels",A+": cmp_equal, is_greater_and_not_less, cmp_greater*, is_neg"),("public predicates",O)])
p("C07","Integer, boolean and constant conversions are exact",
  "Building a bit-vector from a 64-bit unsigned or signed integer that fits its width (any width >= 1) yields that number (two's complement for signed), the constants zero / all-ones / true / false have their defining bits, and predicates is-zero / is-negative / is-true / is-false report exactly that. Converting back to an unsigned or signed 64-bit integer returns the exact value when it is representable in 64 bits and nothing otherwise; conversion to a boolean succeeds exactly for width one.",
  q(IN,ALLW+", every 64-bit integer"),WT+" Negative numbers in widths just above a multiple of 64 are one such corner.",[O,W,A],
  [("integer conversions",O+": to_u64, to_i64, to_bool, assign_from_u64, assign_from_i64"),("constants and predicates",W+"; "+O)])
p("C08","Little-endian byte conversion is exact and round-trips",
  "Converting a bit-vector of width w to little-endian bytes yields exactly ceil(w/8) bytes whose base-256 value is the bit-vector's value. Building a bit-vector from at most ceil(w/64)*8 bytes yields their base-256 little-endian value modulo 2^w, missing high bytes counting as zero, so that converting to bytes and back is the identity.",
  q(IN,ALLW+"; every byte string of legal length"),WT,[Y,W,O],[("byte codec",Y+": to_bytes_le, from_bytes_le")])
p("C09","Printed binary, hex and decimal digits denote the value",
  "The binary (hex) text of a width-w bit-vector has exactly w (ceil(w/4)) digits and denotes its unsigned value; the decimal text of any value below 2^128 denotes it without leading zeros. For width w >= 1 the signed binary and hex texts start with a minus sign exactly when the value is negative and the digits denote the absolute value of the two's complement number.",
  q(IN,ALLW+"; decimal: every value below 2^128 in any width"),WT+" The most negative value and widths one above a multiple of 64 need their own digit counts.",[S,O],
  [("digit loops",S+": to_bit_str*, to_hex_str*, to_dec_str*"),("word selection",S+": select_words_for_width")])
p("C10","Parsing yields the exact number or an error",
  "Parsing non-empty text in radix 2, 10 or 16 (10 only for widths up to 128) into width w >= 1 succeeds exactly when it is an optional sign followed by one or more valid digits whose magnitude is below 2^w, and then yields the denoted number, a minus sign meaning two's complement negation modulo 2^w, with nothing of a previous value surviving. Leading zeros never matter, and an error never leaves a non-canonical value behind. Text printed in binary, hex or decimal parses back to the same value, and when no width is given it is the number of digits times one (binary) or four (hex), plus one for a minus sign.",
  q(IN,"every text of fewer than 2^29 characters (a minus directly followed by a plus sign excepted), every radix 2/10/16 and every width >= 1 (radix 10: width <= 128)"),
  "Texts are unbounded; width checks, leading zeros, digit counts that straddle word boundaries, and stale destination contents each need a specific text/width combination.",[S,W,O],
  [("narrow parser",S+": from_str_radix"),("wide parsers",S+": parse_base_2, parse_base_16"),("width inference",S+": determine_width_from_str_radix")])
p("C11","Big-integer conversion is exact and reduces modulo 2^w",
  "Converting a bit-vector to an arbitrary-precision unsigned (signed) integer yields its unsigned (two's complement) value. Converting an arbitrary-precision integer to width w >= 1 yields it modulo 2^w, and when no width is given the inferred width is the number of bits of the magnitude, plus one sign bit for signed integers, so that the conversion round-trips.",
  q(IN,ALLW+"; every big integer, of either sign and any length"),WT,[G,W,O],
  [("codec",G+": to_big_uint, to_big_int, iter_to_word, words_to_u32"),("width inference",G+": count_big_int_bits, count_big_uint_bits")])
p("C12","Equality is value-plus-width, regardless of representation",
  "Two bit-vectors compare equal exactly when they have the same width and the same value, whether they are owned, borrowed or mutably borrowed, inline or heap allocated, and in whichever order they are compared. Copies and owned-from-borrowed conversions preserve width and value, and equal owned values hash equally.",
  q(IN,"every pair of widths and values, every pairing of owned and borrowed representation"),"The representation pairs times the width/value space cannot be enumerated; tests compare a few owned values.",[W,B,O],
  [("owned equality",W+": PartialEq, From"),("borrowed equality",B+": PartialEq, From")])
p("C13","Interning is injective, stable and value preserving",
  "After any history of interning values of width >= 1, the index handed out for a value reads back exactly that value from the store, interning the same value and width again returns the same index, and different (value, width) pairs always get different indices. Indices handed out earlier keep reading the same value after any later interning, and the zero / one predicates on an index answer whether the interned value is zero / one.",
  q(["histories","inputs"],"every sequence of interned values of arbitrary widths >= 1 (store below 2^32 words)"),"It is a whole-history property: an append or lookup that goes wrong shows only for a later value that collides with an earlier one.",[I],
  [("interner",I+": ValueInterner::get_index, is_zero, is_one"),("index range",I+": BitVecValueIndex::to_range, words")])
p("C14","Indexed references address exactly their words",
  "Resolving an index in a shared word store yields a reference with the index's width covering exactly its ceil(width/64) words. Resolving a mutable destination together with one or two disjoint sources yields exactly the respective words whatever their order in the store, and writing through the destination changes those words and no other word of the store.",
  q(IN,"every store, every in-bounds index, every relative placement of destination and sources"),"Depends on the relative order of up to three ranges in a store of unbounded size; tests fix one layout.",[I,B],
  [("range resolution",I+": to_range, IndexToRef, IndexToMutRef"),("borrow splitting",I+": split_borrow_1, split_borrow_2, move_range")])
p("C15","Dense arrays satisfy read-over-write",
  "A dense array created with a default reads the default at every index; after storing a value at an index (index and data of the array's widths), reading that index returns exactly that value and every other index reads what it did before; clearing makes every element zero. Index width, data width and the number of elements never change; this holds for every data width >= 1 (one bit, up to 8, up to 64, wider) and any sequence of operations.",
  q(["histories","inputs"],"every index width whose storage fits the 1 GiB limit, every data width, every sequence of stores, clears and reads"),"Corrupting a neighbour needs a particular representation, index and word boundary; frame conditions over all other indices are not expressible by sampling.",[R,P,A,O],
  [("dense storage",R+": DenseArrayValue::new, select_usize, store, clear"),("public wrapper",R+": ArrayValue")])
p("C16","Sparse arrays satisfy read-over-write and list exact entries",
  "A sparse array created with a default reads the default at every index; after storing a value at an index, reading that index returns exactly that value and every other index reads what it did before; clearing makes every element zero. The listed entries are exactly the index/value pairs whose value differs from the reported default, each index once, also after values are overwritten by the default. This holds for every index and data width, including more than 64 bits.",
  q(["histories","inputs"],"every index width and data width >= 1 (data; index may be any width), every sequence of stores, clears and reads"),"The never-store-the-default invariant is a history property over an unbounded index space.",[R,P],
  [("sparse storage",R+": SparseArrayValue::new, select, store, clear, default, store_u64_u64, store_u64_big"),("entry iteration",R+": non_default_entries, SparseArrayEntryIter")])
p("C17","Dense/sparse conversion preserves every element",
  "Converting an array between its dense and its sparse representation, in either direction, preserves index width, data width and the value read at every index, for every data width and contents. Making an already dense array dense changes nothing, and a copy of an array has the same widths and elements.",
  q(["inputs","histories"],"every array contents, index width (dense limit) and data width"),"Depends on the majority element, on ties, on data values above small constants and on representation boundaries of both widths.",[R],
  [("densify",R+": From<&SparseArrayValue> for DenseArrayValue, make_dense"),("sparsify",R+": From<&DenseArrayValue> for SparseArrayValue"),("copies",R+": derive(Clone)")])
p("C18","Array equality means same type and same elements",
  "Comparing two arrays yields no answer exactly when index or data width differ, and otherwise answers whether all elements are equal, independent of dense or sparse representation, of the default values and of the history of stores that produced them. The equality operator is true exactly when that answer is yes.",
  q(["histories","inputs"],"every pair of arrays, of either representation and any history"),"Equal contents can be reached by different histories, defaults and representations, which is a quadratic, unbounded space.",[R],
  [("equality",R+": ArrayValue::is_equal, DenseArrayValue::is_equal, SparseArrayValue::is_equal, is_equal_mixed")])
p("C19","Arrays built from slices hold the slice, zero padded",
  "An array built from a slice of booleans, bytes or 64-bit integers has data width 1, 8 or 64 and the smallest index width whose element count covers the slice length (zero for length 0 or 1). Reading index i returns element i of the slice, or zero for indices beyond its length.",
  q(IN,"every slice length and content"),"Power-of-two boundaries and padding depend on the length, which is unbounded.",[R],
  [("constructors",R+": From<&[bool]>, From<&[u8]>, From<&[u64]>, index_width_from_len")])
p("C20","Fixed-point conversion is exact or refused",
  "Interpreting a bit-vector as an unsigned (signed) fixed-point number with f fraction bits, f <= width, returns exactly value / 2^f whenever the unsigned value (for negative numbers: the width) fits 64 bits and f < 64, and otherwise returns nothing rather than a wrong number or a crash.",
  q(IN,ALLW+", every fraction width up to the width"),"Overflow of the denominator or of the magnitude appears only for fraction widths around 64 and extreme values.",[O],
  [("fixed point",O+": to_signed_fixed_point, to_unsigned_fixed_point")])
p("C21","Serialization round-trips",
  "Serializing a bit-vector or an array and deserializing the result yields a value equal to the original.",
  q(IN,"every value"),"Unbounded value space.",[W,R],[("derived serde impls",W+": derive(Serialize, Deserialize); "+R)])
p("C22","In-place updates overwrite everything and touch nothing else",
  "Assigning a bit-vector, an integer, all ones or zero in place (width >= 1) makes the destination equal to the assigned value whatever it held before. When the destination is a mutable reference into a larger buffer, no word outside the destination changes and its width stays the same; sources are never modified.",
  q(IN,ALLW+", every previous content of the destination"),"Stale words only show for particular combinations of old and new contents and widths above 64 bits.",[O,B,W],
  [("mutators",O+": BitVecMutOps"),("mutable reference",B+": BitVecValueMutRef")])
p("C23","Wrapping and unwrapping values loses nothing",
  "A bit-vector or array wrapped into the common value type unwraps to the identical bit-vector or array when the requested kind matches, and is refused when it does not; two wrapped values are equal exactly when they are of the same kind and equal as such, and a copy equals its original.",
  q(IN,"every bit-vector and array"),"Quantifies over every wrapped value.",[L],[("conversions",L+": TryFrom<Value>")])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in props:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
