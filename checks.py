"""What every check runs: entry points of the harness and their bounds (parameters)."""

STUBS = [
    "memory allocator: never fails; every allocation is a separate object of exactly the requested size",
    "memcpy/memmove/memset/memcmp/strlen and LLVM intrinsics: modelled by their definition",
    "panics: rust_begin_unwind ends the path (build with panic=abort); its message is not formatted",
    "floating-point operations: uninterpreted for the solver, refined with their real results until the model is real",
]
ASSUMPTIONS = [
    "rustc 1.99.1 / LLVM opt-level 1 IR (overflow checks and debug assertions on) represents the code; the native replays are "
    "built at opt-level 0",
    "the symbolic executor /verif/engine and z3 4.8.12 are trusted; every run validates sampled paths against native execution",
]

INT = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]


def J(entry, params=(), **kw):
    return dict(entry=entry, params=list(params), **kw)


CHECKS = {}

CHECKS["C01"] = dict(
    quick=[J("h_c01_string", (n,), what=f"write and read back a string of {n} characters", covers=[1], cost=[1, 1, 1, 4][n]) for n in range(4)]
    + [J("h_c01_long", (40, 1), what="strings of 1..40 characters, one of them arbitrary", covers=[1], cost=2),
       J("h_c01_long", (40, 4), what="strings of 1..40 characters of all UTF-8 lengths, one arbitrary", covers=[1], cost=2),
       J("h_c01_char", what="every char", covers=[1]),
       J("h_c01_as_char", (0,), what='char from ""', covers=[2]),
       J("h_c01_as_char", (1,), what="char from every spelling of one character", covers=[1]),
       J("h_c01_as_char", (2,), what="char from every spelling of two characters", covers=[2], cost=4),
       J("h_c01_key", (0, 1), what="empty key, value of 1 character", covers=[1]),
       J("h_c01_key", (1, 1), what="key and value of one character", covers=[1], cost=2),
       J("h_c01_key", (1, 2), what="key of 1, value of 2 characters", covers=[1], cost=16),
       J("h_c01_read", (0,), what='"" consumed in place in every way', covers=[1]),
       J("h_c01_read", (1,), what="every spelling of one character, consumed in place in every way", covers=[1], cost=4),
       J("h_c01_ahead", (0,), what='"" read ahead', covers=[1]),
       J("h_c01_ahead", (1,), what="every spelling of one character, read ahead", covers=[1], cost=5),
       J("h_c01_keys", (2,), what="keys of up to 2 characters in many spellings, looked up", covers=[1])],
    thorough=[
        J("h_c01_string", (4,), what="write and read back a string of 4 characters", covers=[1], cost=35),
        J("h_c01_long", (100, 4), what="strings of 1..100 characters, one of them arbitrary", covers=[1], cost=8),
        J("h_c01_key", (2, 1), what="key of 2, value of 1 characters", covers=[1], cost=20),
        J("h_c01_key", (2, 2), what="key of 2, value of 2 characters", covers=[1], cost=350, max_steps=50_000_000),
        J("h_c01_read", (2,), what="every spelling of two characters, consumed in place in every way", covers=[1], cost=400),
        J("h_c01_ahead", (2,), what="every spelling of two characters, read ahead", covers=[1], cost=300),
        J("h_c01_keys", (3,), what="keys of up to 3 characters in many spellings, looked up", covers=[1], cost=5)],
    bounds=[
        "strings of 0..3 arbitrary Unicode characters written and read back; strings of 1..40 characters in which one (first, "
        "middle, last) is arbitrary; object keys of 0..1 and values of 1..2 arbitrary characters",
        "reading: every spelling (raw, short escape, \\uXXXX with digits of either case, surrogate pairs) of 0..1 arbitrary "
        "characters (for char: 0..2), each consumed as a whole, character by character, skipped, compared, and read ahead",
        "lookup of keys in an object read ahead: 14 spellings per character, up to 2 characters",
    ],
)

CHECKS["C02"] = dict(
    quick=[J("h_c02_rt", (t, 0 if t % 4 < 3 else 1), what=INT[t], cost=[1, 2, 4, 9][t % 4],
             covers=[1, 2, 4] + ([3] if t < 4 else [])) for t in range(8)],
    thorough=[],
    bounds=[
        "i8, i16, i32, u8, u16, u32 and their non-zero types: every value",
        "i64, u64 and their non-zero types: every value in which the decimal digits that differ freely from those of the "
        "largest value contain at most one run of zeros (the reader treats each pattern of zeros separately)",
    ],
)

DIG = [3, 5, 10, 19, 3, 5, 10, 20]  # digits of the largest value
CHECKS["C03"] = dict(
    quick=[j for t in range(8) for j in (
        [J("h_c03_int", (t, 1, 3, 0, 2, 0, 0), what=f"{INT[t]}: -?D{{1,3}}(.D{{1,2}})?", covers=[1, 2], cost=2),
         J("h_c03_int", (t, 1, 2, 0, 2, 1, 0), what=f"{INT[t]}: -?D{{1,2}}(.D{{1,2}})?[eE][+-]?D", covers=[1, 2], cost=4),
         J("h_c03_int", (t, DIG[t], DIG[t], 0, 1, 0, 2), what=f"{INT[t]}: as many digits as the largest value", covers=[1, 2],
           cost=[2, 2, 5, 25][t % 4]),
         J("h_c03_int", (t, DIG[t] - 1, DIG[t] - 1, 0, 1, 1, 2), what=f"{INT[t]}: one digit less, with an exponent digit",
           covers=[1, 2], cost=40) if t % 4 < 2 else None,
         J("h_c03_exp", (t,), what=f"{INT[t]}: exponents near 2^7..2^64 and beyond", covers=[1, 2], cost=1),
         J("h_c03_long", (t, 60), what=f"{INT[t]}: up to 60 zeros with a compensating exponent", covers=[1], cost=1)])
        if j],
    thorough=[j for t in range(8) for j in (
        [J("h_c03_int", (t, 1, 6, 0, 4, 0, 1), what=f"{INT[t]}: -?D{{1,6}}(.D{{1,4}})?, at most one run of zeros", covers=[1, 2]),
         J("h_c03_int", (t, 1, 4, 0, 4, 0, 0), what=f"{INT[t]}: -?D{{1,4}}(.D{{1,4}})?", covers=[1, 2]),
         J("h_c03_int", (t, 1, 3, 0, 3, 1, 0), what=f"{INT[t]}: -?D{{1,3}}(.D{{1,3}})?[eE][+-]?D", covers=[1, 2]),
         J("h_c03_int", (t, 1, 2, 0, 2, 2, 0), what=f"{INT[t]}: -?D{{1,2}}(.D{{1,2}})?[eE][+-]?DD", covers=[1, 2]),
         J("h_c03_int", (t, DIG[t] - 1, DIG[t] + 1, 0, 2, 0, 2), what=f"{INT[t]}: digits around the largest value", covers=[1, 2]),
         J("h_c03_int", (t, DIG[t] - 1, DIG[t] + 1, 0, 2, 0, 3), what=f"{INT[t]}: digits around the largest value + 1", covers=[1, 2]),
         J("h_c03_int", (t, DIG[t] - 2, DIG[t], 0, 1, 1, 2), what=f"{INT[t]}: digits around the largest value, exponent", covers=[1, 2]),
         J("h_c03_long", (t, 99), what=f"{INT[t]}: up to 99 zeros with a compensating exponent", covers=[1], cost=1)])],
    bounds=[
        "literals -?D{1,3}(.D{1,2})? and -?D{1,2}(.D{1,2})?[eE][+-]?D: every digit",
        "literals with as many digits as the largest value of the type (plus 0..1 fraction digits) that agree with its digits up "
        "to any point and contain at most one run of zeros after it; every digit",
        "exponents of 18 magnitudes from 127 to 10^26, with leading zeros; up to 60 zeros with a compensating exponent",
        "the literal is read in place (read ahead: C07)",
    ],
)
# target types, kinds of documents and beginnings of documents (see harness/src/docs.rs)
TYPES = ["any value, skipped", "any value, by its type", "bool", "u8", "String", "char", "Option<bool>", "Vec<u8>", "(bool, u8)",
         "()", "a derived struct", "f64", "Vec<Option<bool>>", "[u8; 3]", "Vec<String>", "(skipped, by type, skipped)", "i64", "f32",
         "Option<Option<bool>>", "Vec of structs", "NonZeroI8", "Option of a struct", "a derived enum", "a derived enum with fields",
         "Vec<Vec<()>>", "(u8, String, Vec<bool>)", "u64"]
KINDS = ["ASCII characters", "Unicode characters", "structural characters", "digits and number characters", "letters of the literals",
         "escape characters", "12 tokens", "8 tokens", "8 tokens (numbers)", "bytes", "13 tokens (enum)", "comment characters", "characters of comments : 1 }"]
STARTS = ["", '\"', '\"\\', '\"\\u', "[", '{\"', '{\"a\"', '{\"a\":', "[[", "-", "1.", "1e", '\"\\ud800', "[1,", '[\"', "/",
          '{\"type\":', "1e214748364", "-1e-214748364", '{\"b\":1e214748364', '{\"b\":0.1e-214748364', "[[[", '{\"b\":',
          '{\"a\":{\"a\":', '{\"b\":[{\"b\":', '{\"b\":\"',
          "1844674407370955161", "-922337203685477580", "0.000000000000000000000000000000", "1234567890123456789012345678901"]


def c04(t, k, n, p=0, how="stream", both=True, cost=1):
    return J("h_c04_" + how, (t, k, n, p), split=True, cost=cost, covers=[1, 2] if both else [2],
             what=f"{STARTS[p]} + up to {n} {KINDS[k]} as {TYPES[t]}" + (" (from a string)" if how == "string" else ""))


CHECKS["C04"] = dict(
    quick=[
        c04(0, 0, 4, cost=3), c04(1, 0, 4, cost=3), c04(0, 0, 5, cost=28), c04(2, 0, 5, cost=3), c04(3, 0, 4), c04(4, 0, 5, cost=3), c04(5, 0, 5, cost=3),
        c04(6, 0, 5, cost=3), c04(7, 0, 5, cost=4), c04(8, 0, 5, both=False, cost=3), c04(9, 0, 5, cost=4), c04(10, 0, 5, both=False, cost=4),
        c04(12, 0, 5, cost=4), c04(13, 0, 5, both=False, cost=4), c04(14, 0, 5, cost=4), c04(15, 0, 5, both=False, cost=5),
        c04(1, 0, 4, how="string", cost=3), c04(0, 0, 4, how="string", cost=3), c04(4, 0, 4, how="string"), c04(4, 1, 3, 1, how="string"),
        c04(4, 1, 3, 1), c04(14, 1, 2, 4), c04(1, 1, 2, 5),
        c04(4, 0, 5, 3, cost=5), c04(4, 0, 4, 2), c04(0, 5, 6, 2, cost=2), c04(4, 0, 6, 12, cost=2), c04(0, 0, 6, 12, cost=2),
        c04(2, 4, 8), c04(0, 4, 6), c04(6, 4, 6), c04(11, 3, 5, cost=9), c04(0, 3, 5, cost=9), c04(3, 3, 5, cost=14),
        c04(0, 2, 8, cost=9), c04(1, 2, 8, cost=9), c04(0, 6, 6, cost=8), c04(1, 6, 6, cost=8), c04(10, 6, 7, cost=12), c04(1, 7, 8, cost=5), c04(0, 7, 8, cost=5),
        c04(7, 8, 7, cost=4), c04(13, 8, 8, cost=14), c04(8, 6, 7, cost=8), c04(1, 0, 3, 7), c04(1, 0, 4, 5, cost=3), c04(0, 0, 4, 13, cost=3),
    ],
    thorough=[
        c04(0, 0, 6, cost=500), c04(1, 0, 6, cost=500), c04(3, 0, 6, cost=60), c04(4, 0, 6, cost=60), c04(7, 0, 6, cost=80), c04(9, 0, 6, cost=50),
        c04(13, 0, 6, both=False, cost=20), c04(0, 2, 9, cost=30), c04(1, 2, 9, cost=30), c04(1, 2, 10, cost=120), c04(0, 6, 8, cost=200),
        c04(1, 6, 8, cost=200), c04(10, 6, 9, cost=200), c04(1, 7, 10, cost=60), c04(0, 7, 10, cost=60), c04(11, 3, 6, cost=100), c04(3, 3, 6, cost=200),
        c04(4, 1, 4, 1, cost=10), c04(1, 0, 6, 5, cost=100), c04(4, 5, 8, 2, cost=30), c04(7, 8, 9, cost=60), c04(8, 6, 9, cost=100),
        c04(1, 0, 5, how="string", cost=40), c04(0, 3, 6, cost=100), c04(15, 6, 8, cost=100),
    ],
    bounds=[
        "every document of up to 4..5 ASCII characters, read as 15 target shapes (skipped, by its type, bool, u8, String, char, "
        "Option, Vec, tuple, array, unit, derived struct, f64, nested)",
        "documents of up to 8 characters of {}[],:\" 1t; up to 5 digits, signs, points, exponents and spaces; up to 6..8 letters of the "
        "literals; up to 7 tokens of a set of 12, up to 8 of a set of 8; after 13 fixed beginnings (inside strings, escapes, "
        "surrogates, keys, nested arrays) up to 3..6 arbitrary characters, Unicode included",
        "read through Utf8Reader one byte at a time, and from strings of up to 4 characters",
    ],
    outside=["lone surrogate escapes denote no text and have to be rejected", "objects with a repeated key, read as a struct"],
)


def c05(t, k, n, p=0, mode=0, how="bytes", covers=(1, 2), cost=1):
    return J("h_c05_" + how, (t, k, n, p, mode), split=True, cost=cost, covers=covers,
             what=f"{STARTS[p]} + up to {n} {KINDS[k]}" + (f", {t} steps of the typed interface" if how == "walk" else f" as {TYPES[t]}")
             + ["", ", comments allowed", ", source interrupted or failing"][mode] + (" (from a string)" if how == "string" else ""))


CHECKS["C05"] = dict(
    quick=[c05(t, 9, 4, covers=[2, 3] if t in (8, 10, 13, 15, 18, 20, 21, 22, 23, 25) else [1, 2, 3], cost=2) for t in range(27)]
    + [c05(0, 9, 5, cost=14), c05(1, 9, 5, cost=14)]
    + [c05(t, 9, 3, mode=2, covers=[2, 3] if t == 22 else [1, 2, 3], cost=2) for t in (0, 1, 3, 4, 6, 9, 22)]
    + [c05(4, 9, 4, 1), c05(14, 9, 4, 14), c05(1, 9, 4, 5, covers=[2]), c05(10, 9, 3, 25, covers=[2]), c05(22, 9, 4, 1, covers=[2])]
    + [c05(0, 1, 3, how="string"), c05(4, 1, 4, 1, how="string"), c05(1, 1, 3, 5, how="string", covers=[2]), c05(1, 0, 4, how="string", cost=3),
       c05(10, 6, 5, how="string", covers=[2], cost=8)]
    + [c05(10, 10, 7, cost=4), c05(23, 10, 7, cost=4), c05(23, 10, 6, 16, covers=[1, 2]), c05(21, 10, 6, cost=2), c05(19, 10, 7, 4, cost=4),
       c05(0, 11, 6, mode=1), c05(1, 11, 6, mode=1, cost=2), c05(1, 11, 6, 15, mode=1), c05(7, 11, 6, mode=1)]
    + [c05(t, 3, 3, p, covers=[1, 2] if t in (11, 17, 0) else [2], cost=3) for t in (0, 3, 11, 16, 17, 26) for p in (17, 18)]
    + [c05(t, 3, 3, p, covers=[2]) for t in (0, 9, 10) for p in (19, 20)]
    + [c05(3, 7, 5, how="walk", cost=11), c05(2, 6, 5, how="walk", cost=13), c05(3, 7, 4, 21, how="walk", cost=8),
       c05(3, 7, 5, 22, how="walk", cost=8), c05(3, 7, 5, 23, how="walk", cost=6), c05(3, 7, 4, 24, how="walk", cost=6),
       c05(2, 11, 5, how="walk", mode=1, cost=6)]
    + [J("h_c05_nest", (200, 4, 0), what="200 levels of arrays and objects skipped in place", covers=[1]),
       J("h_c05_nest", (200, 4, 1), what="200 levels of arrays and objects read ahead and skipped", covers=[1])],
    thorough=[c05(t, 9, 5, cost=14) for t in range(2, 27)] + [c05(0, 9, 6, cost=200), c05(1, 9, 6, cost=200)]
    + [c05(4, 7, 6, how="walk", cost=100), c05(3, 6, 6, how="walk", cost=300), c05(4, 7, 6, 24, how="walk", cost=100),
       c05(4, 7, 6, 23, how="walk", cost=100), c05(0, 11, 8, mode=1, cost=30), c05(1, 11, 8, mode=1, cost=30), c05(10, 10, 9, cost=60), c05(23, 10, 9, cost=60)],
    bounds=[
        "every byte sequence of up to 4 bytes read as 27 target types (5 bytes skipped or by type), up to 3 bytes from a source that "
        "is interrupted or fails; up to 4 bytes within strings and keys; up to 3..4 Unicode characters read from a string",
        "documents of up to 6..7 tokens read as structs and enums; comments of up to 6 characters; exponents around 2^31 and 2^32 for every number type and read ahead",
        "2..3 steps of every kind of use of the typed interface (values, objects, lists, tuples, structs, null checks, validation) on "
        "documents of up to 5..6 tokens, also within nested arrays and objects",
        "values nested 200 levels deep are skipped, in place and read ahead, without using more stack than flat ones",
    ],
    outside=["known finding 1: malformed UTF-8 or a failing source after the first character",
             "recursive target types of the user, memory exhaustion"],
)


def c06(entry, n, depth, unknown, rich, string, what, cost=1, covers=(1, 2)):
    return J("h_c06_" + entry, (n, depth, unknown, rich, string), split=True, cost=cost, covers=covers,
             what=what + (", every spelling" if rich else "") + (" (from a string)" if string else ""))


CHECKS["C06"] = dict(
    quick=[
        c06("order", 5, 0, 1, 0, 0, "every order of every subset of four fields and an unknown entry", cost=40),
        c06("order", 4, 0, 0, 0, 1, "every order of every subset of four fields"),
        c06("order", 3, 0, 0, 1, 0, "every order of up to three fields", cost=6),
        c06("order", 2, 0, 0, 1, 1, "every order of up to two fields", cost=2),
        c06("unknown", 1, 0, 0, 0, 0, "unknown entries with values of depth 1", cost=25, covers=[1]),
        c06("unknown", 0, 0, 0, 1, 1, "unknown entries", cost=2, covers=[1]),
        c06("array", 0, 0, 0, 1, 1, "the positional form", cost=8),
        c06("array", 0, 0, 0, 0, 0, "the positional form", cost=2),
        c06("nested", 0, 0, 0, 0, 0, "structs within structs, in orders of all of them", cost=35),
        c06("nested", 1, 1, 0, 0, 1, "structs within structs, fields missing", cost=10),
        c06("missing", 0, 0, 0, 0, 0, "the field an error names", covers=[3, 4]),
    ],
    thorough=[
        c06("order", 4, 0, 2, 0, 1, "every order of up to four fields and unknown entries", cost=100),
        c06("order", 4, 0, 0, 1, 0, "every order of every subset of four fields", cost=60),
        c06("order", 3, 1, 1, 0, 0, "every order of up to three fields and an unknown entry of depth 1", cost=100),
        c06("order", 2, 2, 1, 0, 1, "every order of up to two fields and an unknown entry of depth 2", cost=100),
        c06("unknown", 2, 0, 0, 0, 1, "unknown entries with values of depth 2", cost=400, covers=[1]),
        c06("unknown", 1, 0, 0, 1, 1, "unknown entries with values of depth 1", cost=400, covers=[1]),
        c06("nested", 0, 0, 0, 1, 1, "structs within structs, in orders of all of them", cost=400),
        c06("missing", 0, 0, 0, 1, 0, "the field an error names", covers=[3, 4]),
    ],
    bounds=[
        "a derived struct with a number, an optional boolean, a defaulted string and a list field; every subset and order of its "
        "entries with up to one unknown entry (6 names) anywhere; every digit and character of the values; the unknown value up to one level deep",
        "the same struct as an array of 0..5 elements; structs within structs, tuples and options, with entries in 4 x 3! orders",
        "which field is reported as missing, in place, read ahead and embedded",
    ],
    outside=["objects with a repeated key"],
)

PLACES = ['{"x":V}', '{..,"x":V,..}', '{"o":{..,"x":V}}', '{"o":{..,"x":V,..},..}', '{"o":[..,{"x":V},..]}']


def c07(t, k, n, place=0, p=0, both=True, cost=1, how="type"):
    return J("h_c07_" + how, (t, k, n, place, p), split=True, cost=cost, covers=[1, 2] if both else [2],
             what=f"V = {STARTS[p]} + up to {n} {KINDS[k]} in {PLACES[place]}"
             + (f", {t} uses of the value" if how == "walk" else f" as {TYPES[t]}"))


CHECKS["C07"] = dict(
    quick=[c07(t, 0, 3 if t in (1, 16, 26) else 4, t % 5 if t in (1, 16, 26) else t % 3 * 2, both=t not in (8, 10, 13, 15, 18, 23, 25), cost=4) for t in range(27) if t not in (11, 17)]
    + [c07(t, 3, 4, 0, cost=3) for t in (3, 16, 26)] + [c07(t, 3, 4, 1, cost=2) for t in (20, 0)] + [c07(0, 3, 3, 0, 17, cost=2), c07(0, 3, 2, 3, 18)]
    + [c07(t, 3, 2, 1, p, both=b) for t, p, b in ((26, 26, 1), (16, 27, 1), (26, 28, 0), (16, 29, 0), (0, 29, 1))]
    + [c07(1, 2, 6, 0, cost=2), c07(0, 2, 6, 3, cost=3), c07(1, 7, 6, 0, cost=3), c07(1, 7, 5, 1, 21, cost=2), c07(4, 1, 2, 1, 1), c07(4, 0, 3, 4, 3),
       c07(4, 5, 5, 2, 1), c07(22, 5, 5, 2, 1, both=False), c07(14, 1, 2, 3, 14), c07(23, 10, 4, 1, both=True, cost=4), c07(10, 6, 5, 0, both=False, cost=4)]
    + [c07(3, 7, 4, 0, how="walk", cost=4), c07(2, 6, 3, 1, how="walk", cost=4), c07(3, 7, 3, 2, 21, how="walk", cost=8),
       c07(3, 7, 3, 4, 22, how="walk", cost=6), c07(2, 7, 4, 3, 23, how="walk", cost=4), c07(2, 0, 3, 0, how="walk", cost=4), c07(2, 5, 4, 0, 1, how="walk"),
       c07(2, 3, 3, 0, how="walk", cost=2)],
    thorough=[c07(t, 0, 5, (t + 1) % 5, both=t not in (10, 15, 18, 23), cost=30) for t in range(27) if t not in (11, 17)]
    + [c07(0, 3, 2, 1, 28, cost=60), c07(3, 7, 5, 0, how="walk", cost=15), c07(2, 6, 4, 1, how="walk", cost=18), c07(3, 7, 4, 2, 21, how="walk", cost=20)]
    + [c07(t, 3, 5, 1, cost=10) for t in (3, 16, 26, 20, 0)]
    + [c07(1, 2, 8, 0, cost=100), c07(1, 7, 8, 4, cost=200), c07(10, 6, 7, 3, cost=200), c07(23, 10, 6, 1, cost=60),
       c07(2, 6, 5, 1, how="walk", cost=80), c07(4, 7, 5, 2, how="walk", cost=60), c07(4, 7, 6, 0, how="walk", cost=300),
       c07(4, 7, 5, 4, 22, how="walk", cost=200), c07(4, 7, 5, 3, 23, how="walk", cost=200), c07(3, 0, 4, 0, how="walk", cost=100)],
    bounds=[
        "every value of up to 4 (as i64, u64 or by type: 3) ASCII characters as 25 target types; up to 4 digits and number characters; up to 6 structural "
        "characters; up to 5..6 tokens; strings of up to 2 Unicode characters or 5 escape characters; integers of 20, and numbers "
        "of 31 digits with up to 2 more characters; the value in 5 places (first, between others, in a nested object or list)",
        "2..3 uses of the value of any kind (each getter, next_char, skip, objects by iteration and by name, lists, tuples, structs, "
        "tags), made once in place and repeated on the value read ahead, on values of up to 3..4 tokens, 3 ASCII or 3 number characters",
    ],
    outside=["which f32 or f64 a number is (C18)", "malformed UTF-8 (C12)"],
)


def c08(n, rich, chars, wrap, cost=1, covers=(1, 2, 3)):
    return J("h_c08_write", (n, rich, chars, wrap), split=True, cost=cost, covers=covers,
             what=f"up to {n} values ({['nulls and strings', 'common', 'all'][rich]}), texts of up to {chars} characters, "
             + ("through the wrappers" if wrap else "raw calls and wrappers") + ", 4 layouts")


CHECKS["C08"] = dict(
    quick=[c08(1, 2, 1, 0, cost=12), c08(1, 2, 1, 1), c08(1, 1, 2, 1), c08(3, 0, 0, 0, cost=3), c08(4, 0, 0, 1, cost=9), c08(2, 2, 0, 0, cost=8),
           c08(2, 2, 0, 1), c08(2, 0, 1, 0, cost=5), c08(2, 0, 1, 1, cost=3)]
    + [J("h_c08_deep", (d, i), what=f"{d} levels of lists, objects and tuples" + (", indented" if i else ""), covers=[1], cost=c)
       for d, i, c in ((20, 0, 3), (20, 1, 3), (4, 0, 1), (4, 2, 1))]
    + [J("h_c08_nonfinite", what="NaN and infinities")],
    thorough=[c08(4, 0, 0, 0, cost=50), c08(5, 0, 0, 1, cost=200), c08(3, 0, 1, 0, cost=100), c08(2, 1, 1, 0, cost=150), c08(2, 1, 1, 1, cost=150),
              c08(3, 1, 0, 1, cost=150), c08(1, 2, 2, 0, cost=150), J("h_c08_deep", (200, 1), what="200 levels", covers=[1], cost=30)],
    bounds=[
        "every sequence of up to 3..4 nested or consecutive values (null, string, list of announced or open length, tuple, struct, object; raw "
        "calls mixed with wrappers), of up to 2 values of all kinds (each number type, bool, char, tag by name and index, strings appended in "
        "pieces, keys written in pieces, std and derived types)",
        "texts and keys of up to 1..2 arbitrary Unicode characters",
        "compact and 3 indented layouts (tab, two spaces, empty); 20 levels of nesting with arbitrary kinds and siblings at both ends",
    ],
    outside=["known finding 2: floating-point numbers that are not finite", "indentation by something other than whitespace"],
)


ENUMS = ["an enum of 3", "an enum with renames, discriminants and indices", "an enum of one", "an enum with large indices", "an enum of 19"]
TAG_STARTS = ["", '"', '"Fourt', '"é', '"Fo\\"\\\\', '"Third', "7000", "429496729", "1844674407370955161", '"A', '"\\u00', "2", "-", '"bi']


def c09(e, k, n, start=0, place=0, cost=1, covers=(1, 2)):
    kinds = {20: "letters", 21: "letters of a name"}
    return J("h_c09_read", (e, k, n, start, place), split=True, cost=cost, covers=covers,
             what=f"{ENUMS[e]} from {TAG_STARTS[start]} + up to {n} {kinds.get(k) or KINDS[k]}" + (", read ahead" if place else ""))


def c09t(k, n, start, covers=(1, 2), cost=1):
    return J("h_c09_tagged", (k, n, start), split=True, cost=cost, covers=covers,
             what=f"the tag of an enum with fields: {TAG_STARTS[start]} + up to {n} " + ({20: "letters"}.get(k) or KINDS[k]))


CHECKS["C09"] = dict(
    quick=[c09(e, 0, 4 if e < 2 else 3, 0, 0, cost=4, covers=[1, 2] if e in (0, 1, 3) else [2]) for e in range(5)]
    + [c09(e, 0, 3, 0, 1, cost=2, covers=[1, 2] if e in (0, 1, 3) else [2]) for e in range(5)]
    + [c09(e, 20, 6, 0, p, covers=[1, 2] if e in (0, 4) else [2]) for e in (0, 4, 2) for p in (0, 1)]
    + [c09(1, 21, 9, 0, p, cost=2) for p in (0, 1)]
    + [c09(1, 0, 3, s, p) for s in (1, 2, 4, 5) for p in (0, 1)] + [c09(1, 1, 3, s, p) for s in (1, 3, 5) for p in (0, 1)]
    + [c09(4, 20, 5, 9, p) for p in (0, 1)] + [c09(0, 0, 4, 10, p, cost=2) for p in (0, 1)]
    + [c09(e, 3, 3, s, p, cost=2, covers=[1, 2] if (e, s) in ((0, 0), (1, 0), (1, 11), (3, 0), (3, 7), (0, 11), (0, 12), (1, 12), (3, 12), (3, 6)) else [2])
       for e in (0, 1, 3) for s in (0, 6, 7, 8, 11, 12) for p in (0, 1)]
    + [c09(2, 3, 4, 0, cost=4), c09(3, 1, 3, 13)]
    + [J("h_c09_write", (e,), what=f"{ENUMS[e]} written and read back", covers=[1]) for e in range(5)]
    + [J("h_c09_index", (999,), what="every index up to 999 against every bound", covers=[1, 2], cost=2),
       c09t(0, 3, 0, cost=2), c09t(20, 5, 0, cost=2), c09t(3, 3, 0, cost=2), c09t(1, 2, 1),
       J("h_c09_tagged_write", what="an enum with fields written and read back", covers=[1])],
    thorough=[c09(e, 0, 5, 0, 0, cost=60) for e in (0, 1)] + [c09(e, 0, 4, 0, 1, cost=10, covers=[1, 2] if e in (0, 1, 3) else [2]) for e in range(5)]
    + [c09(0, 20, 9, 0, 1), c09(4, 20, 9, 0, 1), c09(1, 21, 12, 0, 1, cost=10), c09(1, 1, 4, 1, 0, cost=10), c09(1, 3, 5, 0, 0, cost=60), c09(3, 3, 5, 7, 1, cost=60),
       J("h_c09_index", (99999,), what="every index up to 99999 against every bound", covers=[1, 2], cost=30), c09t(0, 4, 0, cost=10)],
    bounds=[
        "5 derived enums (3 plain variants; renames to empty, quoted, non-ASCII and numeric names, names that are prefixes of others, "
        "discriminants, re-indexing; one variant; indices beyond 2^32; 19 variants) and one whose variants have fields",
        "documents of up to 3..4 arbitrary ASCII characters, in place and read ahead; up to 6..9 letters of the names; after 13 beginnings "
        "of names, escapes and numbers up to 2..4 arbitrary characters",
        "every variant written and read back; every index up to 999 against every bound",
    ],
)


OPTS = ["Option<bool>", "Option<Option<bool>>", "Option<Option<Option<u8>>>", "Option<()>", "Option<Option<()>>", "Option<String>", "Option<Vec<Option<u8>>>",
        "Vec<Option<Option<bool>>>", "Option<(Option<bool>, Option<()>)>", "Option<[Option<Option<u8>>; 2]>", "Option of a struct with optional fields",
        "Option<Option<struct with optional fields>>", "Option of an enum", "Option<Option<enum with fields>>", "five times Option<bool>", "Option<char>",
        "(Option<i64>, Option<Option<u16>>, Option<i8>)", "Vec<Option<Vec<Option<()>>>>", "a struct with optional fields", "a struct with nested optional fields"]
OPT_READS = ["Option<bool>", "Option<Option<bool>>", "Option<Option<Option<bool>>>", "Option<()>", "Option<Vec<Option<bool>>>", "a struct with optional fields",
             "Option of a struct with optional fields", "Option<Option<()>>"]


def c10(t, items, chars, rich, cost=1):
    return J("h_c10_rt", (t, items, chars, rich), split=cost > 2, cost=cost, covers=[1],
             what=f"{OPTS[t]}, lists of up to {items}, texts of up to {chars}" + (", every character, extreme numbers" if rich else ""))


def c10r(t, n, parts, place, cost=1):
    return J("h_c10_read", (t, n, parts, place), split=True, cost=cost, covers=[1, 2],
             what=f"{OPT_READS[t]} from documents of up to {n} tokens" + (", read ahead" if place else ""))


CHECKS["C10"] = dict(
    quick=[c10(t, 2, 1, 1, cost=3 if t in (11, 18) else 1) for t in range(20)] + [c10(6, 4, 1, 0), c10(7, 4, 1, 0, cost=3), c10(17, 3, 0, 0), c10(5, 2, 2, 1, cost=2)]
    + [c10r(t, 7, 0, 0, cost=2) for t in (0, 1, 2, 3, 4, 7)] + [c10r(t, 6 if t in (1, 3) else 5, 0, 1, cost=2) for t in (0, 1, 2, 3, 4, 7)] + [c10r(1, 8, 0, 0, cost=5), c10r(2, 8, 0, 0, cost=5)]
    + [c10r(t, 6, 1, 0, cost=3) for t in (5, 6)] + [c10r(6, 5, 1, 1, cost=4)],
    thorough=[c10(t, 3, 2, 1, cost=10) for t in (5, 6, 7, 8, 9, 15, 17)] + [c10(t, 4, 3, 0, cost=20) for t in (5, 6, 7, 17)]
    + [c10r(t, 9, 0, 0, cost=20) for t in (0, 1, 2, 3, 4, 7)] + [c10r(2, 9, 0, 1, cost=80), c10r(1, 9, 0, 1, cost=80)] + [c10r(t, 8, 1, 1, cost=80) for t in (5, 6)],
    bounds=[
        "every value of 20 optional types (up to five times nested; of unit, tuples, arrays, lists, structs, enums, text) with lists of up to "
        "2..4 items and texts of up to 1..2 arbitrary characters, read back in place, ahead, indented and through a second format with and without nulls",
        "every document of up to 6..8 of the tokens { } [ ] , true false null \"has_value\": \"value\": read as 6 optional types; up to "
        "6..7 tokens read as a struct with optional fields, in place and ahead",
    ],
    outside=["objects with a repeated key", "floating-point contents (C18)", "a missing field of a nested optional type (it may be an error)"],
)


def c11(*p, cost=1, covers=(1, 2)):
    n, length, exact, wide, how, own = p
    if own:
        covers = (1,)
    elif n == 0:
        covers = (2,)
    return J("h_c11_table", p, what=f"{n} symbolic names of {'exactly' if exact else 'up to'} {length} characters" + (", some of two bytes" if wide else "") +
             f", looked up {('whole', 'by characters', 'in arbitrary pieces')[how]}" + (", every name itself and the listing" if own else ""), cost=cost, covers=list(covers))


def c11b(*p, cost=1):
    s, n, how, wide = p
    return J("h_c11_big", p, what=f"{('eleven words', 'nine names which are prefixes of each other', 'eight names with wide characters')[s]} in many orders, every query of up to {n} "
             f"{'characters' if wide else 'ASCII characters'}, looked up {('whole', 'by characters', 'in arbitrary pieces')[how]}", cost=cost, covers=[1, 2])


CHECKS["C11"] = dict(
    quick=[c11(0, 1, 0, 0, 2, 0), c11(1, 3, 0, 0, 2, 0), c11(1, 2, 0, 1, 2, 0), c11(1, 2, 0, 1, 1, 0), c11(2, 3, 0, 0, 0, 0), c11(2, 3, 0, 0, 2, 0, cost=3), c11(2, 1, 0, 1, 2, 0), c11(2, 1, 0, 1, 0, 0), c11(3, 2, 0, 0, 0, 0, cost=5),
           c11(3, 1, 0, 1, 1, 0, cost=5), c11(3, 2, 0, 0, 2, 1), c11(4, 1, 1, 0, 0, 0), c11(5, 1, 1, 0, 0, 0, cost=5), c11(5, 1, 1, 0, 2, 1), c11(4, 2, 1, 0, 0, 1), c11(6, 1, 1, 0, 0, 1, cost=9),
           c11b(0, 4, 0, 0, cost=8), c11b(1, 4, 0, 0), c11b(2, 2, 1, 1, cost=8), c11b(1, 3, 2, 0, cost=6), c11b(0, 2, 2, 0, cost=2), c11b(2, 2, 2, 0, cost=4), c11b(2, 3, 0, 0)],
    thorough=[c11(2, 2, 0, 1, 2, 0, cost=17), c11(3, 2, 0, 1, 0, 0, cost=100), c11(3, 2, 0, 0, 2, 0, cost=60), c11(3, 3, 0, 0, 0, 0, cost=60), c11(4, 2, 0, 0, 0, 0, cost=200), c11(4, 2, 1, 0, 0, 0, cost=60),
              c11(6, 1, 1, 0, 0, 0, cost=60), c11(5, 1, 1, 1, 1, 1, cost=100), c11(7, 1, 1, 0, 0, 1, cost=100), c11(3, 2, 1, 1, 1, 1, cost=32), c11(1, 4, 0, 1, 2, 0, cost=80),
              c11b(0, 3, 2, 0, cost=40), c11b(0, 4, 2, 0, cost=90), c11b(1, 3, 1, 1, cost=90), c11b(2, 2, 2, 1, cost=90), c11b(0, 5, 0, 0, cost=300)],
    bounds=[
        "tables of 0..6 distinct names with every character symbolic (one to three characters per name, one or two bytes each), in any order, and every query up to one character longer, "
        "given whole, by characters, or in every split into pieces (empty ones included)",
        "three fixed tables (eleven words; nine names which are prefixes of each other, the empty one included; eight names with characters of one to four bytes) in N^3 orders (rotations and swaps), "
        "every query of up to 4 ASCII or 2 arbitrary characters",
    ],
    outside=["tables of more than 11 names", "queries which are not UTF-8 (documented as indeterminate)", "repeated names in a table"],
)
PRE12 = ("", "E2 82", "F0 9F 98", "ED", "F4", "C3 A9", "E0", "F0")


def c12d(*p, cost=1, covers=(2, 3)):
    n, pre, short, ints, fails = p
    return J("h_c12_decode", p, what=f"up to {n} arbitrary bytes" + (f" behind {PRE12[pre]}" if pre else "") + (", delivered in pieces" if short else "") +
             (f", {ints} interruptions" if ints else "") + (", a failure anywhere" if fails else ""), cost=cost, covers=list(covers) + ([4] if fails else []) + ([7] if ints else []), split=True)


def c12r(*p, cost=1, covers=(3,)):
    n, pre, short, ints, fails, wrap = p
    return J("h_c12_reader", p, what=f"Utf8Reader over up to {n} arbitrary bytes" + (f" behind {PRE12[pre]}" if pre else "") + (" through a BufReader of 1..5 bytes" if wrap else "") +
             (", delivered in pieces" if short else "") + (f", {ints} interruptions" if ints else "") + (", a failure anywhere" if fails else ""), cost=cost, covers=list(covers) + ([7] if ints else []), split=True)


def c12u(*p, cost=1):
    n, small, stream = p
    return J("h_c12_until", p, what=f"literals, delimiters and single characters of a text of up to {n} {'characters from a b TAB LF CR' if small else 'arbitrary characters'} in {'a stream' if stream else 'memory'}",
             cost=cost, covers=[1, 2, 3, 4], split=True)


CHECKS["C12"] = dict(
    quick=[c12d(8, 0, 0, 0, 0, covers=(1, 2, 3)), c12d(5, 0, 1, 2, 1)] + [c12d(4, k, 1, 1, 1) for k in range(1, 8)]
    + [c12r(5, 0, 1, 1, 1, 0, covers=(2, 3), cost=3), c12r(6, 0, 0, 0, 0, 0, covers=(1, 2, 3), cost=3), c12r(4, 0, 1, 1, 0, 1, covers=(1, 2, 3), cost=5), c12r(3, 5, 1, 1, 1, 1, cost=4)] + [c12r(3, k, 1, 1, 1, 1) for k in (1, 2, 3, 4, 6, 7)]
    + [c12u(2, 0, 0, cost=12), c12u(2, 0, 1, cost=15), c12u(3, 1, 0), c12u(3, 1, 1, cost=5), J("h_c12_doc", (2, 2), what="strings of up to 2 arbitrary characters, in pieces, 2 interruptions", covers=[1, 2], split=True)],
    thorough=[c12d(11, 0, 0, 0, 0, covers=(1, 2, 3), cost=60), c12d(7, 0, 1, 2, 1, cost=60), c12d(5, 0, 1, 4, 1, cost=60), c12r(6, 0, 1, 1, 1, 0, covers=(2, 3), cost=100), c12r(8, 0, 0, 0, 0, 0, covers=(1, 2, 3), cost=60),
              c12r(5, 0, 1, 1, 0, 1, covers=(1, 2, 3), cost=90), c12u(4, 1, 1, cost=30), c12u(4, 1, 0, cost=30), J("h_c12_doc", (3, 1), what="strings of up to 3 arbitrary characters, in pieces, an interruption", cost=20, covers=[1, 2], split=True)],
    bounds=[
        "every sequence of up to 5..8 arbitrary bytes, and of up to 3..4 behind seven beginnings of a character, each delivered in every split into reads, with up to two interruptions anywhere and a failure of the source at any byte",
        "the position after every character, for the reader on its own and through a BufReader of 1 to 5 bytes",
        "read_exact, read_until, next and peek in every order of two on texts of up to 3 characters, in memory and from a stream",
    ],
    outside=["the position behind a failed read_exact (documented as undefined)", "sources which deliver more than they were asked for or say they did (broken implementations of io::Read)"],
)
SINKS13 = ("a byte stream", "a sink with single characters only", "borrowed sinks", "a byte stream behind a BufWriter")


def c13w(*p, cost=1):
    nodes, rich, chars, wrap, sink, odd, few = p
    return J("h_c13_writes", p, what=f"every sequence of writes of up to {nodes} values ({('basic', 'more', 'all')[rich]} kinds, texts of up to {chars} {'of four' if few else 'arbitrary'} characters"
             f"{', through the wrappers' if wrap else ''}) into {SINKS13[sink]}" + (f", {odd} odd writes" if odd else ""), cost=cost, covers=[1] + ([4, 5] if sink in (0, 3) and odd else []), split=True)


def c13v(*p, cost=1):
    sink, odd, val, chars, few = p
    return J("h_c13_values", p, what=f"value {val} written by to_writer and to_str into sink {sink}", cost=cost, covers=[1] + ([4] if sink < 2 and odd else []), split=True)


CHECKS["C13"] = dict(
    quick=[c13w(2, 0, 1, 0, 0, 1, 0, cost=13), c13w(2, 0, 1, 0, 3, 1, 1, cost=17), c13w(1, 1, 1, 1, 0, 1, 0), c13w(2, 1, 0, 1, 1, 0, 1), c13w(2, 1, 0, 1, 2, 0, 1), c13w(2, 1, 0, 1, 0, 1, 1, cost=3), c13w(1, 2, 1, 1, 0, 0, 1), c13w(1, 2, 1, 1, 1, 0, 1)]
    + [c13v(s, 1, v, 1, 0) for s in range(4) for v in (0, 1, 2, 3, 5)] + [c13v(0, 1, 4, 1, 1, cost=13), c13v(2, 1, 4, 1, 0, cost=2), c13v(3, 1, 4, 1, 0)]
    + [J("h_c13_direct", (s, 2, 2), what=f"write_char and write_str on sink {s}, every text of up to 2 arbitrary characters", covers=[1], split=True) for s in range(3)],
    thorough=[c13w(2, 1, 1, 0, 0, 1, 1, cost=120), c13w(2, 0, 1, 0, 0, 2, 1, cost=40), c13w(1, 1, 1, 0, 0, 1, 0, cost=70), c13w(3, 0, 0, 0, 0, 1, 1, cost=60), c13w(2, 1, 1, 1, 1, 0, 0, cost=100), c13w(2, 1, 1, 1, 2, 0, 0, cost=120),
              c13v(0, 2, 4, 1, 1, cost=40), c13v(1, 1, 4, 1, 0, cost=80), J("h_c13_direct", (0, 4, 3), what="write_char and write_str on a byte stream, every text of up to 3 characters, 4 odd writes", covers=[1], split=True, cost=60)],
    bounds=[
        "every sequence of writes of up to 2 values with texts of one arbitrary character (three layouts), and seven typed values through to_writer and to_str, into a String, references to it, a trait object, "
        "a sink with single characters only and a byte stream",
        "a byte stream which takes at most 1, 2, 3 or all bytes at once, with one or two arbitrary shorter writes or interruptions at any write, also behind a BufWriter of 1, 4 or 7 bytes",
    ],
    outside=["sinks which fail (C21)", "sinks which take more than they were given (broken implementations of io::Write)"],
)


def c21w(*p, cost=1):
    nodes, rich, chars, wrap, sink, few = p
    return J("h_c21_writes", p, what=f"every sequence of writes of up to {nodes} values ({('basic', 'more', 'all')[rich]} kinds, texts of up to {chars} {'of four' if few else 'arbitrary'} characters"
             f"{', through the wrappers' if wrap else ''}), two layouts, into {('a sink of strings', 'a sink of single characters', 'a byte stream')[sink]} which fails at any write", cost=cost, covers=[1, 2], split=True)


CHECKS["C21"] = dict(
    quick=[c21w(2, 0, 1, 0, 0, 1), c21w(2, 0, 1, 0, 1, 1, cost=2), c21w(2, 0, 1, 0, 2, 1, cost=5), c21w(1, 1, 1, 0, 0, 0, cost=9), c21w(1, 2, 1, 0, 0, 1), c21w(1, 2, 1, 1, 0, 1), c21w(2, 1, 1, 1, 0, 1, cost=5), c21w(2, 1, 1, 1, 1, 1, cost=8), c21w(2, 1, 0, 0, 0, 1, cost=5)]
    + [J("h_c21_values", (v, s, int(v in (3, 4))), what=f"value {v} written by to_writer into a sink which fails at any write" + (", with any kind of error" if v in (3, 4) and s == 2 else ""), cost={0: 8}.get(v, 1), covers=[1, 2], split=True) for v in range(5) for s in (0, 1, 2) if (v, s) != (0, 2)],
    thorough=[c21w(3, 0, 1, 0, 0, 1, cost=100), c21w(2, 1, 1, 0, 0, 1, cost=22), c21w(2, 1, 1, 0, 1, 1, cost=32), c21w(2, 1, 1, 0, 2, 1, cost=80), c21w(2, 1, 1, 1, 2, 1, cost=40), c21w(2, 2, 1, 1, 0, 1, cost=100), c21w(2, 2, 0, 0, 0, 1, cost=100),
              J("h_c21_values", (1, 2, 1), what="strings of up to two characters into a byte stream which fails at any byte with any kind of error", covers=[1, 2], split=True, cost=20),
              J("h_c21_values", (0, 2, 0), what="a derived struct written by to_writer into a byte stream which fails at any byte", cost=31, covers=[1, 2], split=True)],
    bounds=[
        "every sequence of writes of up to 2 values (raw and through the wrappers, compact and indented) and five typed values (derived ones included), with a failure (of an arbitrary code) at any single write "
        "of a sink of strings or characters, or at any byte of a byte stream (an error of twelve kinds, any operating system error, or no progress)",
    ],
    outside=["sinks which fail more than once (they must not be written to again)", "io::ErrorKind::Interrupted (C13)"],
)
def c14(*p, cost=1, covers=(1, 2)):
    t, toks, n, place, gaps, com, wide, strict, start, valid = p
    return J("h_c14_insert", p, what=f"every {'well-formed ' if valid else ''}document of up to {n} tokens of set {toks} (start {start}) read as {TYPES[t]}, {('in place', 'ahead', 'ahead, among others')[place]}, "
             f"{'strict' if strict else 'permissive'}, with whitespace" + (f" or comments of up to {com - 1} {'arbitrary' if wide else 'ASCII'} characters" if com else "") + f" inserted in any {gaps} places",
             cost=cost, covers=list(covers) + ([3 if strict else 4] if com else []), split=True)


def c14t(*p, cost=1, covers=(1, 2)):
    t, kind, n, start, place = p
    return J("h_c14_text", p, what=f"every document of up to {n} {KINDS[kind]} after {STARTS[start] if start else 'nothing'}, permissive, read as {TYPES[t]} {('in place', 'ahead')[place]}, against the reference reader",
             cost=cost, covers=list(covers), split=True)


CHECKS["C14"] = dict(
    quick=[c14(1, 0, 5, 0, 1, 2, 0, 0, 0, 1), c14(1, 0, 5, 1, 1, 2, 0, 0, 0, 1, cost=6), c14(1, 0, 4, 0, 1, 2, 0, 0, 0, 0, cost=5), c14(1, 0, 4, 0, 2, 0, 0, 1, 0, 1, cost=2), c14(1, 0, 4, 2, 1, 2, 1, 0, 0, 1, cost=5),
           c14(0, 1, 4, 0, 2, 1, 0, 0, 1, 1, cost=10), c14(0, 1, 3, 1, 1, 1, 0, 0, 1, 1, cost=4), c14(1, 1, 4, 0, 1, 2, 0, 1, 1, 1), c14(1, 1, 4, 2, 1, 2, 0, 1, 1, 1, cost=6), c14(1, 1, 2, 2, 1, 1, 0, 1, 1, 0, cost=2), c14(10, 2, 7, 0, 1, 2, 0, 0, 2, 1), c14(10, 2, 7, 1, 1, 2, 0, 0, 2, 1), c14(23, 3, 6, 0, 1, 2, 0, 0, 4, 1),
           c14(23, 3, 6, 1, 1, 2, 0, 0, 4, 1), c14(7, 4, 6, 0, 1, 2, 0, 0, 0, 1), c14(7, 4, 6, 1, 1, 2, 0, 0, 0, 1), c14(1, 0, 0, 0, 1, 3, 0, 0, 6, 1, covers=(1,)), c14(1, 0, 0, 1, 1, 3, 0, 0, 6, 1, covers=(1,)), c14(0, 0, 0, 1, 1, 1, 0, 1, 6, 1, covers=(1,)),
           c14t(1, 11, 5, 0, 0), c14t(1, 11, 5, 0, 1, cost=2), c14t(1, 11, 6, 15, 0), c14t(1, 11, 6, 15, 1), c14t(0, 11, 6, 0, 0, cost=2), c14t(0, 11, 6, 0, 1, cost=6), c14t(7, 11, 6, 4, 0)],
    thorough=[c14(1, 0, 7, 0, 1, 2, 0, 0, 0, 1, cost=10), c14(1, 0, 6, 1, 1, 2, 0, 0, 0, 1, cost=13), c14(1, 0, 5, 0, 1, 2, 0, 0, 0, 0, cost=30), c14(1, 0, 4, 1, 1, 2, 0, 0, 0, 0, cost=90), c14(1, 0, 5, 0, 2, 2, 0, 0, 0, 1, cost=60), c14(1, 0, 5, 0, 2, 0, 0, 1, 0, 1, cost=20),
              c14(0, 1, 4, 1, 2, 1, 0, 0, 1, 1, cost=100), c14(10, 2, 9, 0, 1, 3, 0, 0, 2, 1, cost=30), c14(10, 2, 9, 1, 1, 3, 0, 0, 2, 1, cost=30), c14(23, 3, 9, 0, 1, 3, 1, 0, 4, 1, cost=30), c14(7, 4, 7, 1, 2, 2, 0, 0, 0, 1, cost=60), c14(1, 0, 0, 0, 2, 2, 0, 0, 6, 1, cost=60, covers=(1,)),
              c14(1, 0, 0, 1, 2, 1, 0, 0, 6, 1, cost=60, covers=(1,)), c14t(1, 11, 7, 0, 0, cost=20), c14t(1, 11, 7, 0, 1, cost=60), c14t(1, 0, 5, 15, 0, cost=20), c14t(7, 11, 8, 4, 0, cost=20)],
    bounds=[
        "every document of up to 3..7 tokens (five sets; among them strings which look like comments) and a document of 27 tokens, read as seven types in place and ahead, with one or two insertions, at every place, of one or two "
        "arbitrary whitespace characters, a line comment or a block comment of up to 1..2 arbitrary characters; strict and permissive; the same tokens with and without the insertions give the same result",
        "every text of up to 5..6 characters of / * newline space 1 [ ] , \" against the reference reader with comments",
    ],
    outside=["whitespace which JSON does not have", "objects with a repeated key"],
)
def c15(*p, cost=1, covers=(1, 2, 4)):
    read, steps, depth, kinds, js = p
    return J("h_c15_histories", p, what=f"every history of {'reading' if read else 'writing'} through the wrappers: up to {steps} steps within containers nested up to {depth} deep"
             + (", every kind of scalar" if kinds else "") + (", JSON's own wrappers included" if js else "") + ", any call may fail, any value may be left unfinished", cost=cost, covers=list(covers) + ([3] if read and js else []), split=True)


CHECKS["C15"] = dict(
    quick=[c15(1, 2, 2, 0, 0, cost=10), c15(0, 3, 2, 0, 0, cost=10), c15(0, 2, 2, 0, 1, cost=6), c15(1, 4, 1, 0, 0, cost=5), c15(1, 3, 1, 0, 1, cost=5), c15(0, 5, 1, 0, 0, cost=5), c15(0, 4, 1, 0, 1, cost=4), c15(1, 1, 1, 1, 1), c15(0, 2, 1, 1, 1, cost=20), c15(1, 1, 2, 1, 1, cost=5), c15(1, 3, 0, 1, 0, covers=(1, 4))],
    thorough=[c15(1, 2, 1, 1, 1, cost=60), c15(1, 2, 2, 0, 1, cost=60), c15(0, 3, 2, 0, 1, cost=40), c15(1, 4, 1, 0, 1, cost=30), c15(1, 3, 2, 0, 1, cost=600), c15(0, 4, 2, 0, 1, cost=300), c15(1, 5, 1, 0, 1, cost=60), c15(0, 6, 1, 0, 1, cost=40), c15(1, 3, 2, 0, 0, cost=45), c15(1, 2, 2, 1, 1, cost=300), c15(0, 2, 2, 1, 1, cost=60), c15(1, 3, 1, 1, 1, cost=60)],
    bounds=[
        "every history of up to 2..5 steps (a step gets a field, element, item or entry, or inlines a struct) within values, structs, tuples, lists of length 0..2 or unknown, objects, entries and collections nested up to 2 deep; "
        "any call to the format underneath may fail with an arbitrary code, any value may be abandoned at any point, and any further call may follow",
        "every scalar, tag and string method, and get/put of every scalar type, with arbitrary contents",
    ],
    outside=["what happens after the raw access which into_raw gives"],
)
SHAPES = ["{0{0N1N}1N}", "{1N0{1N0N}}", "{0{}1N2[N{}]}", "{0[{0N2N}]1S}", "{1{0{1N}}0N}", "[{0N}{0N1N}]", "{0[NN]1S2[]}", "{0{0{0N}}}", "{0N1{0{}1[{0N}]}2N}", "{0{1N}1{0N}}"]


def c16s(*p, cost=1):
    shape, words, steps, how, varies = p
    return J("h_c16_shapes", p, what=f"document {SHAPES[shape]}, every history of up to {steps} accesses to its objects" + (", through the wrappers" if how & 1 else "") + (", from a byte stream" if how & 2 else "")
             + (", values skipped" if varies & 2 else "") + (", keys read in every way" if varies & 4 else "") + (", every way to end an object" if varies & 8 else "") + (", every kind of request" if varies & 16 else ""), cost=cost, covers=[1, 2, 3, 4, 5, 6], split=True)


def c16h(*p, cost=1):
    most, least, kinds, depth, words, steps, how, varies = p
    return J("h_c16_histories", p, what=f"every object of {least}..{most} entries with {words} possible keys (values of set {kinds}, {depth} deep), every history of up to {steps} accesses" + (", through the wrappers" if how & 1 else "")
             + (", keys in any order" if varies & 1 else "") + (", values skipped" if varies & 2 else "") + (", keys read in every way" if varies & 4 else "") + (", every way to end an object" if varies & 8 else "") + (", every kind of request" if varies & 16 else ""), cost=cost, covers=[1, 2, 3, 4, 5, 6], split=True)


CHECKS["C16"] = dict(
    quick=[c16s(i, 3 if i in (2, 3, 6, 8) else 2, 3, i % 4, 0, cost=2) for i in range(10) if i != 8] + [c16s(8, 3, 2, 0, 0, cost=6), c16s(1, 2, 4, 3, 0, cost=4), c16s(0, 2, 2, 0, 30, cost=12), c16s(1, 2, 2, 1, 26, cost=8), c16s(2, 3, 2, 0, 24, cost=7), c16s(7, 2, 3, 0, 24, cost=12), c16s(5, 2, 2, 1, 24, cost=6),
              c16h(3, 0, 0, 1, 3, 4, 0, 0, cost=3), c16h(2, 2, 0, 1, 7, 2, 0, 1, cost=7), c16h(2, 0, 1, 1, 2, 2, 1, 2, cost=10)],
    thorough=[c16s(i, 3 if i in (2, 3, 6, 8) else 2, 4, i % 4, 0, cost=20) for i in range(10) if i != 8] + [c16s(8, 3, 3, 0, 0, cost=20), c16s(1, 2, 5, 3, 0, cost=20), c16s(1, 2, 3, 0, 30, cost=200), c16s(4, 2, 3, 0, 24, cost=40), c16s(9, 2, 3, 1, 24, cost=50), c16s(5, 2, 3, 0, 24, cost=40),
              c16h(3, 0, 0, 1, 3, 5, 0, 0, cost=15), c16h(2, 0, 1, 1, 2, 2, 1, 31, cost=70), c16h(2, 0, 1, 1, 2, 3, 0, 31, cost=500), c16h(3, 3, 0, 1, 7, 2, 0, 1, cost=60), c16h(3, 0, 1, 2, 3, 2, 1, 0, cost=200), c16h(4, 4, 0, 1, 4, 4, 3, 0, cost=60)],
    bounds=[
        "ten documents with nested objects and arrays, and every object of up to 3 entries of numbers (2 entries of numbers, strings and arrays), keys from 2..7 (empty, prefix-related, escaped, non-ASCII), digits and letters arbitrary",
        "every history of up to 2..4 accesses (by name: try_entry, entry, struct field; iteration with the key read as a whole, by characters or skipped; values read or skipped, nested objects used in the same way) "
        "on the wrappers or the deserializer itself, then the rest by iteration, close, close_struct or skip_object; from a string or a byte stream",
    ],
    outside=["keys of more than two characters and objects of more than 4 entries", "objects with a repeated key"],
)
OFFENDS = ["a value of another type, read in each of 22 ways", "a number out of range, a string which is no character or an unknown tag", "a container which lacks or exceeds an item, entry or field", "a value rejected by validate_with"]


def c17(*p, cost=1):
    p = (*p, 0)[:6]
    mode, depth, gaps, rich, streamed, far = p
    return J("h_c17_positions", p, what=f"{OFFENDS[mode]}, at every path of {depth} steps (items, elements, entries by name, iteration, read ahead, struct fields), whitespace in up to {gaps} places, {1 + rich} kinds of values before it" + (", from a byte stream as well" if streamed else "") + (f", behind {far} spaces or line breaks" if far else ""), cost=cost, covers=[1])


CHECKS["C17"] = dict(
    quick=[c17(0, 1, 1, 0, 0, cost=18), c17(1, 1, 1, 0, 0, cost=9), c17(2, 1, 1, 0, 0, cost=5), c17(3, 1, 1, 0, 0, cost=3), c17(2, 2, 0, 0, 0, cost=13), c17(3, 2, 0, 0, 0, cost=7), c17(1, 2, 0, 0, 0, cost=22),
           c17(0, 1, 0, 3, 0, cost=12), c17(1, 1, 0, 3, 0, cost=5), c17(2, 1, 0, 3, 0, cost=3), c17(3, 1, 0, 3, 0, cost=2)] + [c17(m, 1, 0, 1, 1, cost=2) for m in range(4)] + [c17(m, 0, 2, 0, 1) for m in range(4)],
    thorough=[c17(m, 1, 1, 0, 1, cost=90) for m in range(4)] + [c17(m, 2, 0, 0, 0, cost=60) for m in range(4)] + [c17(2, 1, 2, 1, 0, cost=70), c17(3, 2, 1, 0, 0, cost=140), c17(2, 2, 1, 0, 0, cost=250), c17(3, 1, 2, 2, 0, cost=80), c17(0, 1, 1, 3, 0, cost=80), c17(1, 1, 1, 3, 0, cost=40), c17(2, 3, 0, 0, 0, cost=300), c17(3, 3, 0, 0, 0, cost=200)] + [c17(m, 0, 4, 0, 1, cost=20) for m in range(4)],
    bounds=[
        "offending values: each of ten values against each of 22 ways to read a value of another type; nine numbers against every integer, non-zero and tag type; strings against char and tags; 30 containers lacking or exceeding something; 22 values rejected by validation",
        "placed at the top, or at any path of 1 (quick) or 2..3 (thorough) steps through arrays and objects, after other values (numbers, nested values with line breaks, strings with any character), with up to 1..4 whitespace characters at any place; from a string (position compared with that of the offset) and a byte stream (line and column)",
    ],
    outside=["positions of syntax errors (C22)", "documents read with comments allowed", "which of two offending values is reported first"],
)
WAYS = ["as a document", "in an array", "read ahead", "as a document from a byte stream", "in an array from a byte stream", "read ahead from a byte stream"]


def c18r(*p, cost=1, real=False):
    t, a, b, c, d, e, m, way = p
    return J("h_c18_real" if real else "h_c18_read", p, what=f"f{32 << t} literals of {a}..{b} digits before the point, {c}..{d} after it and {e} exponent digits" + (", at most one run of zeros" if m else "") + f", {WAYS[way]}" + (" (the real std conversion)" if real else ""), cost=cost, covers=[1])


def c18e(t, way, cost=2):
    return J("h_c18_exp", (t, way), what=f"f{32 << t} literals with exponents from 37 to far out of range, {WAYS[way]}", cost=cost, covers=[1])


def c18l(t, a, b, way, cost=2):
    return J("h_c18_long", (t, a, b, way), what=f"f{32 << t} literals of {a}..{b} digits, two of them arbitrary, the point anywhere, {WAYS[way]}", cost=cost, covers=[1])


def c18b(t, n, a, b, way, cost=2):
    return J("h_c18_back", (t, n, a, b, way), what=f"f{32 << t} numbers which have {n} digits when written in the shortest way, from 1e{a - 401} up to 1e{b - 400}, are read back, {WAYS[way]}", cost=cost, covers=[1])


def c18x(t, bits, way, cost=4):
    return J("h_c18_bits", (t, bits, way), what=f"f{32 << t} numbers around hard ones, {bits} bits arbitrary, written by the real ryu and read by the real std conversion, {WAYS[way]}", cost=cost, covers=[1])


CHECKS["C18"] = dict(
    quick=[c18r(w % 2, 1, 5, 0, 5, 0, 0, w, cost=3) for w in range(6)] + [c18r(1 - w % 2, 1, 2, 0, 2, 2, 0, w, cost=5) for w in range(6)] + [c18r(0, 1, 15, 0, 0, 0, 1, 2), c18r(1, 1, 1, 12, 18, 0, 1, 0), c18r(1, 9, 9, 8, 9, 0, 1, 2, cost=3), c18r(1, 1, 1, 0, 1, 3, 0, 3, cost=8), c18r(0, 1, 1, 0, 1, 3, 0, 2, cost=10)]
    + [c18e(0, 0), c18e(1, 2), c18e(0, 5), c18e(1, 4)] + [c18l(1, 30, 36, 0), c18l(0, 31, 38, 2), c18l(1, 20, 33, 5)]
    + [c18b(0, n, 368, 437, n % 6) for n in range(1, 8)] + [c18b(1, n, 376, 424, n % 6) for n in (1, 2, 3, 5, 7, 9)] + [c18b(1, 13, 394, 418, 2), c18b(1, 17, 399, 417, 0), c18b(1, 3, 110, 150, 2), c18b(1, 3, 670, 707, 0)]
    + [c18x(0, 6, 0, cost=6), c18x(0, 5, 2, cost=4), c18x(1, 6, 2, cost=4), c18x(1, 5, 3, cost=2)] + [c18r(0, 1, 2, 0, 1, 0, 0, 0, cost=2, real=True), c18r(1, 1, 2, 0, 1, 0, 0, 2, cost=2, real=True)],
    thorough=[c18r(t, 1, 7, 0, 6, 0, 0, w, cost=20) for t in (0, 1) for w in range(6)] + [c18r(t, 1, 3, 0, 3, 2, 0, w, cost=20) for t in (0, 1) for w in range(6)] + [c18r(t, 1, 2, 0, 2, 3, 0, w, cost=60) for t in (0, 1) for w in (0, 2)]
    + [c18e(t, w) for t in (0, 1) for w in range(6)] + [c18l(t, 10, 38, w, cost=15) for t in (0, 1) for w in range(6)] + [c18l(1, 39, 39, 2, cost=100)]
    + [c18b(0, n, 368, 437, w, cost=6) for n in range(1, 10) for w in (0, 2)] + [c18b(1, n, 110, 707, w, cost=20) for n in (1, 2, 4, 6) for w in (0, 2)] + [c18b(1, n, 380, 420, w, cost=20) for n in (8, 10, 12, 15, 16, 17) for w in (0, 5)]
    + [c18x(t, 8, w, cost=15) for t in (0, 1) for w in (0, 2, 3, 5)] + [c18r(1, 1, 1, 0, 2, 1, 0, 0, cost=60, real=True)],
    bounds=[
        "literals: up to 5 digits before and 5 after the point (7 and 6 in thorough), exponents of up to 3 digits, up to 19 digits with one run of zeros, up to 38 digits with two of them arbitrary, exponents up to 10^26; as a document, in an array and read ahead, from a string and a byte stream",
        "numbers written: every f32 of 1..9 and f64 of 1..17 shortest digits (more than ten: with one run of zeros) with a decimal exponent from -33 to 37 and -24..24 (up to -290..307 for few digits), either sign; and numbers around 26 hard ones with up to 6 (8) bits arbitrary, with the real conversions",
    ],
    outside=["the decimal-to-binary and binary-to-decimal conversions of std and ryu, apart from the jobs which say so", "not-a-number and infinities (C08)"],
    stubs=[
        "<f32/f64 as FromStr>::from_str is executed as an uninterpreted function of the decimal value (digits without leading and trailing zeros, exponent) with its bounds, evaluated by the real one on counterexamples",
        "ryu's format32/format64 return the shortest digits (in ryu's layout) of a number which is given by these digits",
    ],
)
SEQS = ["[u8; 0]", "[u16; 1]", "[u8; 3]", "(u8, i8)", "(u8, i64, u32)", "Vec<u8>", "[[u8; 2]; 2]", "((u8, u8), [u8; 1], Vec<u8>)", "Vec<(u8, u8)>", "Vec<Vec<u8>>", "[Vec<u8>; 2]", "Option<[u8; 2]>", "Vec<[String; 1]>", "(Option<u8>, Option<Vec<u8>>)",
        "Vec<Option<(u8, u8)>>", "[u8; 6]", "[(); 2]", "Vec<()>", "(bool, String, Vec<bool>)", "Vec<Vec<Vec<u8>>>", "[[[i16; 1]; 2]; 1]"]
SPOTS = ["", ", read ahead", ", from a byte stream", ", read ahead from a byte stream"]


def c19(t, depth, most, odd, where, cost=1):
    return J("h_c19_read", (t, depth, most, odd, where), what=f"every array of up to {most} items (arrays nested {depth} deep, any digits, {odd} values which are no digits) read as {SEQS[t]}{SPOTS[where]}", cost=cost, covers=[2])


def c19w(t, items, chars, rich, cost=1):
    return J("h_c19_rt", (t, items, chars, rich), what=f"{SEQS[t]}: up to {items} items, texts of up to {chars} characters, " + ("any" if rich else "simple") + " contents, written and read back in every way", cost=cost, covers=[1])


CHECKS["C19"] = dict(
    quick=[c19(t, 1, 3, 0, t % 4) for t in range(21)] + [c19(t, 1, 2, 1, (t + 1) % 4) for t in range(21)] + [c19(t, 2, 2, 0, (t + 2) % 4, cost=3) for t in (6, 7, 9, 10, 14, 19, 20)] + [c19(t, 0, 4, 1, (t + 3) % 4) for t in (0, 1, 2, 3, 4, 5, 11, 13)] + [c19(15, 0, 8, 0, w) for w in (0, 1)]
    + [c19w(t, 2, 1, 0 if t in (7, 15, 19) else 1, cost=6 if t in (6, 8, 9, 10, 14) else 1) for t in range(21)] + [c19w(5, 5, 0, 0), J("h_c19_long", (150, 0), what="arrays of up to 150 digits read as a list and an array of 24 items, and written", covers=[1, 2]), J("h_c19_long", (80, 1), what="arrays of up to 80 digits, read ahead", covers=[1, 2])],
    thorough=[c19(t, 1, 3, 1, w, cost=60) for t in range(21) for w in (0, 3)] + [c19(t, 1, 4, 0, w, cost=20) for t in range(21) for w in (1, 2)] + [c19(t, 2, 2, 1, 0, cost=60) for t in (6, 7, 9, 10, 14, 19, 20)] + [c19(t, 0, 6, 2, w, cost=20) for t in (0, 1, 2, 3, 4, 5, 11, 13, 15) for w in range(4)]
    + [c19w(t, 3, 2, 0, cost=40) for t in range(21)] + [c19w(t, 2, 2, 1, cost=60) for t in (2, 3, 4, 5, 11, 12, 13, 18)] + [J("h_c19_long", (600, 0), what="arrays of up to 600 digits read as a list and an array of 24 items, and written", covers=[1, 2], cost=20), J("h_c19_long", (400, 1), what="arrays of up to 400 digits, read ahead", covers=[1, 2], cost=20)],
    bounds=[
        "21 types of tuples, arrays and lists (nested up to three deep, with optional, unit and text items): every array of up to 3 items nested up to 2 deep (4 items flat, 8 for the longest array), digits arbitrary, up to one item which is no digit; in place, ahead, from a string and a byte stream",
        "every value of these types with up to 2 items and texts of one arbitrary character, written and read back in every way and through a second format",
        "lists of up to 150 items of one digit each, arrays of 24 items",
    ],
    outside=["tuples of more than three elements (not supported by the library)", "element types other than integers, booleans, text, options and units"],
)
DECLARED = ["renamed fields (swapped names, names which need escapes, an empty one)", "structs flattened three deep", "defaulted fields (of non-zero default)", "an enum of tags (renamed, reindexed, discriminants)", "tags under a custom name", "an enum of variants of every sort (unit, struct, transparent, flattened, reindexed, renamed)", "transparent variants of enums and structs", "an enum flattened into a struct", "a declaration with type, bounded and const parameters", "proxied fields (renamed, defaulted, flattened)", "a unit struct", "a struct flattened into another", "a list of enums", "an optional enum", "a tuple of enums", "an array of doubly optional structs", "a struct whose names are also used by the derived code, or are keywords", "an enum of such names", "a list of tags which are keywords"]
EVENTS = ["", ", one of them missing, null or of another type", ", with another entry", ", one of them missing, null or of another type, with another entry"]


def c20r(t, items, chars, rich, cost=1, **k):
    return J("h_c20_rt", (t, items, chars, rich), what=f"{DECLARED[t]}: up to {items} items, texts of up to {chars} characters{', extreme numbers' if rich else ''}: written and read back in every way", covers=[1], cost=cost, **k)


def c20o(t, items, chars, ev, place, cost=1, **k):
    return J("h_c20_order", (t, items, chars, ev, place), what=f"{DECLARED[t]}: what was written, its entries in any order{EVENTS[ev]}, {['read from a string', 'read from a byte stream', 'read ahead', 'read within a tuple'][place]}", covers=([1, 2] if ev & 1 and t != 10 else [1]), cost=cost, **k)


def c20d(t, n, start, place, cost=1, **k):
    return J("h_c20_read", (t, n, start, place), what=f"{DECLARED[t]}: documents of up to {n} of its parts after '{['', '{', '['][start]}'{', read ahead' if place else ''}", covers=[2], cost=cost, **k)


ORDERED = (0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11)
CHECKS["C20"] = dict(
    declares="derive",
    quick=[c20r(t, 1, 1, 0 if t in (2, 15) else 1, cost=10 if t in (0, 1, 2, 15) else 1) for t in range(16)]
    + [c20o(0, 1, 0, 0, 2, cost=2), c20o(1, 0, 0, 0, 2, cost=10), c20o(2, 1, 0, 0, 3, cost=3), c20o(4, 1, 1, 3, 0), c20o(5, 1, 1, 0, 2, cost=4), c20o(6, 0, 0, 0, 2, cost=20), c20o(7, 1, 1, 0, 2), c20o(8, 1, 1, 0, 2, cost=2), c20o(9, 1, 1, 0, 1, cost=5), c20o(10, 0, 0, 2, 1), c20o(11, 1, 1, 0, 2), c20o(5, 1, 1, 1, 1, cost=25), c20o(7, 1, 1, 1, 3, cost=2), c20o(8, 1, 1, 1, 1, cost=20), c20o(11, 1, 1, 1, 0), c20o(7, 1, 1, 2, 3, cost=12), c20o(11, 1, 1, 2, 1, cost=6)]
    + [c20d(t, 5, 1, 0) for t in ORDERED] + [c20d(t, 4, 1, 1) for t in ORDERED] + [c20d(t, 5, 2, 0, cost=2) for t in ORDERED],
    thorough=[c20r(t, 2, 2, 0, cost=30) for t in range(16)] + [c20r(t, 1, 1, 1, cost=40) for t in (2, 15)] + [c20o(t, 1, 1, ev, place, cost=60, split=True) for t in ORDERED for ev in (0, 1, 2) for place in (1, 2)] + [c20o(t, 1, 0, 3, 3, cost=60, split=True) for t in (4, 5, 7, 8, 11)]
    + [c20d(t, 7, 1, 0, cost=60) for t in ORDERED] + [c20d(t, 6, 1, 1, cost=20) for t in ORDERED] + [c20d(t, 6, 2, 0, cost=10) for t in ORDERED] + [c20d(t, 5, 0, 0) for t in ORDERED],
    bounds=[
        "15 declarations: renamed, flattened (three deep, enums and units included), defaulted and proxied fields, custom and nested tags, unit, struct, transparent, renamed and reindexed variants, discriminants, type and const parameters; and lists, options, tuples and arrays of them",
        "every value of these with up to 1 item and texts of one arbitrary character, extreme numbers included: written to JSON (the fields' names and order compared with the declaration) and through a second format, and read back in every way",
        "the entries written in every order (tags by name and by index), one of them missing, null or of another type, one unknown entry added; from a string, a byte stream, ahead, within a tuple; against a specification of each declaration",
        "documents of up to 5 parts (the declaration's keys and values, punctuation), named and positional",
    ],
    outside=["what the macros do not support (tuple structs, writing proxied fields, unions, enums without variants)", "tags written as indices", "objects with repeated keys"],
)
def scale(prop, quick, thorough=(), bounds="", **more):
    c = CHECKS[prop]
    c["quick"] = c["quick"] + list(quick)
    c["thorough"] = c["thorough"] + list(thorough)
    c["bounds"] = c["bounds"] + [bounds]


BIG = {30: "a string of {n} characters", 31: "an integer of {n} digits with an exponent", 32: "a fraction of {n} digits", 33: "an array of {n} numbers", 34: "an object of {n} entries", 35: "arrays nested {n} deep", 36: "objects and arrays nested {n} deep", 37: "runs of {n} whitespace characters", 38: "comments of {n} characters"}


def big(entry, params, kind, n, more="", cost=2, covers=(1, 2)):
    return J(entry, params, what=f"{BIG[kind].format(n=n)}, one part arbitrary at one of five places{more}", cost=cost, covers=list(covers))


def b04(t, k, n, covers=(1, 2)):
    return big("h_c04_stream", (t, k, n, 0), k, n, f", read as {TYPES[t]}, against the reference reader", covers=covers)


def b05(t, k, n, mode=0, covers=(1, 2)):
    return big("h_c05_bytes", (t, k, n, 0, mode), k, n, f", read as {TYPES[t]}", covers=covers)


def b07(t, k, n, way):
    return big("h_c07_type", (t, k, n, way, 0), k, n, f", read as {TYPES[t]} in two ways")


def b14(t, n, place):
    return big("h_c14_text", (t, 38, n, 0, place), 38, n, f", read as {TYPES[t]} {('in place', 'ahead')[place]}")


scale("C01", [J("h_c01_scale", (n, 4, k), what=f"a text of {n} characters" + (", as a key too" if k else "") + ", one at one of three places arbitrary", covers=[1], cost=2) for n in (12, 60, 254, 300) for k in (0, 1)],
      [J("h_c01_scale", (n, 4, k), what=f"a text of {n} characters" + (", as a key too" if k else ""), covers=[1], cost=9) for n in (255, 256, 257, 2000) for k in (0, 1)],
      "texts and keys of up to 300 characters, one of them (first, middle or last) arbitrary, in place and read ahead")
scale("C04", [b04(t, 30, 300) for t in (0, 1, 4)] + [b04(t, 31, 300) for t in (0, 1, 11)] + [b04(t, 32, 300) for t in (0, 1, 11)] + [b04(t, 33, 300, (1, 2)) for t in (0, 1, 7)] + [b04(t, 34, 40) for t in (0, 1)] + [b04(t, 35, 100) for t in (0, 1)] + [b04(t, 36, 40) for t in (0, 1)] + [b04(t, 37, 100) for t in (0, 1)],
      bounds="eight kinds of long documents (texts and numbers of 300 characters, arrays of 300 items, objects of 40 entries, nesting 100 deep, runs of whitespace), with one arbitrary part at one of five places and an arbitrary last character")
scale("C04", [J("h_c04_ahead", (t, 0, n, 0), what=f"up to {n} ASCII characters as {TYPES[t]}, read ahead, against the reference reader", split=True, cost=4, covers=[2] if t in (8, 10, 13, 18) else [1, 2]) for t, n in ((0, 4), (2, 4), (3, 3), (4, 4), (6, 4), (7, 4), (9, 4), (11, 4), (12, 4), (18, 4), (23, 4))]
      + [J("h_c04_ahead", (t, k, n, p), what=f"{STARTS[p]} + up to {n} {KINDS[k]} as {TYPES[t]}, read ahead, against the reference reader", split=True, cost=4) for t, k, n, p in ((0, 4, 6, 0), (1, 7, 5, 0), (0, 8, 6, 0), (0, 3, 4, 0), (4, 1, 2, 1))]
      + [c04(t, 12, n, p, both=b) for t, n, p, b in ((0, 7, 6, 1), (1, 7, 6, 1), (10, 7, 6, 0), (1, 8, 7, 1), (10, 8, 7, 0))] + [c04(1, 11, 6, 4, cost=5), c04(7, 11, 6, 13, cost=5)],
      [J("h_c04_ahead", (t, 0, 5, 0), what=f"up to 5 ASCII characters as {TYPES[t]}, read ahead, against the reference reader", split=True, cost=60) for t in (0, 2, 4, 6, 7, 9, 11, 12, 23)] + [c04(1, 11, 8, p, cost=90) for p in (4, 13)],
      bounds="values of up to 4 characters (6 of the literals' letters or tokens) read ahead; comments (7 characters of / * : 1 } and newline behind a key) in the strict configuration")
scale("C05", [b05(1, 30, 300), b05(0, 31, 300), b05(3, 31, 300), b05(17, 31, 300), *[b05(t, 32, n) for t in (11, 17) for n in (26, 27, 28, 29, 30, 31, 62, 63, 64)], *[b05(11, 31, n) for n in (15, 16, 17, 28, 29, 30, 31)], b05(10, 34, 40, covers=(2,)), b05(0, 35, 1000), b05(1, 37, 100, 1), b05(1, 38, 40, 0, covers=(2,)), b05(1, 38, 40, 1), b05(7, 38, 20, 1)],
      bounds="long documents (texts and numbers of 300 characters, objects of 40 entries, nesting 1000 deep, runs of whitespace, comments), with one arbitrary part and an arbitrary last character")
scale("C06", [J("h_c06_wide", (p,), what="a struct of forty fields (each sixth optional): its entries in rotated orders either way, one missing, others added" + (", in an array" if p else ""), covers=[1, 2], cost=12) for p in (0, 1)],
      bounds="a struct of 7 fields whose names are alike or need to be escaped, keys spelled in three ways, with an unknown key which is a beginning of a name and one arbitrary character")
scale("C06", [J("h_c06_names", (w, n, 0), what=f"seven names which are alike, spelled in way {w}, with an unknown key of a beginning of one and {n} arbitrary characters", covers=[1], cost=8 if n else 1, split=True) for w in (0, 1, 2) for n in (0, 1)],
      [J("h_c06_names", (w, n, s), what=f"seven names which are alike, spelled in way {w}, with an unknown key of a beginning of one and {n} arbitrary {('ASCII ', '')[s]}characters", covers=[1], cost=80, split=True) for w in (0, 1, 2) for n, s in ((1, 1), (2, 0))],
      bounds="a struct of 40 fields: ten orders of its entries, each of five missing, with other entries among them")
scale("C07", [b07(0, 30, 100, 0), b07(1, 30, 100, 0), b07(4, 30, 300, 1), b07(0, 31, 300, 0), b07(1, 31, 300, 0), b07(11, 31, 300, 0), b07(16, 31, 16, 0), b07(26, 31, 300, 0), b07(1, 32, 300, 1), b07(1, 33, 300, 0), b07(7, 33, 300, 0), b07(1, 34, 40, 2), b07(1, 34, 300, 0), b07(1, 35, 100, 3), b07(1, 36, 60, 4), b07(1, 37, 60, 0)],
      bounds="eight kinds of long values (texts and numbers of 300 characters, arrays and objects of 300 parts, nesting 100 deep, runs of whitespace), with one arbitrary part and an arbitrary last character")
scale("C07", [J("h_c07_shape", (4, 2, 0, w), what="any value of up to 4 nodes nested to depth 2, with three keys, each part read or skipped", covers=[1], split=True, cost=4) for w in (0, 3)]
      + [J("h_c07_shape", (3, 2, 1, 1), what="any value of up to 3 nodes, entries taken by name or in turn, read or skipped", covers=[1], split=True, cost=3)],
      [J("h_c07_shape", (5, 3, 0, w), what="any value of up to 5 nodes nested to depth 3, each part read or skipped", covers=[1], split=True, cost=50) for w in (0, 1, 2, 3, 4)]
      + [J("h_c07_shape", (4, 3, 1, w), what="any value of up to 4 nodes, entries taken by name or in turn, read or skipped", covers=[1], split=True, cost=50) for w in (0, 2)],
      bounds="any value of up to 4 nodes nested to depth 2 (numbers, arrays, objects with three keys, one of them empty), each part read or skipped, in turn or by name")
scale("C07", [J("h_c07_text", p, what=f"a string of {p[0]} arbitrary characters" + (" and escapes" if p[2] > 1 else "") + f", consumed in every way in {p[1]} steps, in place and read ahead", covers=[1, 2], split=True, cost=c) for p, c in (((1, 2, 5, 0), 1), ((2, 3, 5, 1), 5), ((2, 2, 1, 2), 1), ((2, 2, 1, 3), 2), ((2, 2, 1, 4), 1), ((3, 3, 1, 0), 8))],
      [J("h_c07_text", (3, 4, 5, w), what="strings of three characters or escapes, consumed in every way in 4 steps", covers=[1, 2], split=True, cost=60) for w in range(5)],
      bounds="strings of up to 3 arbitrary characters (2 with escapes), consumed by characters, closed, skipped and flushed after up to 3 of them")
scale("C08", [J("h_c08_wide", (n, i), what=f"lists, tuples and objects of {n} parts" + (", indented" if i else ""), covers=[1], cost=c) for n, i, c in ((40, 1, 2), (40, 2, 2), (300, 0, 8))],
      bounds="lists, tuples and objects of 300 parts, one of them an arbitrary character")
scale("C09", [J("h_c09_many", (s, n, p), what=f"an enum of 300 variants: names and indices which start with one of eight texts, {n} more arbitrary characters" + (", read ahead" if p else ""), covers=[2] if (s, n) == (6, 1) else [1, 2]) for s in range(8) for n in (1, 2) for p in (0, 1)],
      [J("h_c09_many", (s, 3, p), what="an enum of 300 variants: names and indices, 3 arbitrary characters", covers=[1, 2], cost=10) for s in (0, 2, 6) for p in (0, 1)],
      bounds="an enum of 300 variants: every name and index of up to 4 characters which starts in one of eight ways with up to two arbitrary characters")
def c11l(n, k, how, m, cost=1):
    return J("h_c11_long", (n, k, how, m), what=f"{m} names of {n} characters with arbitrary ones at the start and at {k}, and queries of about that length, " + ("as a whole", "by characters", "in two pieces")[how], covers=[1, 2], cost=cost)


scale("C11", [c11l(n, k, h, 3) for n, k in ((9, 8), (17, 8), (17, 16), (33, 31), (70, 64), (300, 299), (300, 256), (600, 511)) for h in (0, 1, 2)] + [c11l(9, 8, 0, 4, 3), c11l(65, 64, 2, 4, 3)],
      [c11l(n, k, h, 4, 10) for n, k in ((2000, 1999), (1000, 512), (300, 255)) for h in (0, 2)] + [c11l(70000, 65536, 0, 2, 30)],
      bounds="three names of up to 600 characters which differ at the start and in one more place, and queries of about those lengths")
scale("C11", [J("h_c11_many", (s, n, h), what=f"a table of {s} names in five orders, every query which starts in one of four ways, {n} more arbitrary characters", covers=[1, 2]) for s, n, h in ((40, 2, 0), (40, 2, 1), (300, 1, 0), (300, 2, 0))],
      [J("h_c11_many", (300, 3, h), what="a table of 300 names, three more arbitrary characters", covers=[1, 2], cost=20) for h in (0, 1)],
      bounds="tables of 40 and 300 names, queries with up to two arbitrary characters at the end")
scale("C12", [J("h_c12_scale", (n, k), what=f"a text of {n} {('lines', 'characters of one byte', 'characters of three bytes')[k]}, the first or last one arbitrary", covers=[1], max_steps=60_000_000) for n, k in ((300, 0), (300, 1), (300, 2), (3000, 2))],
      [J("h_c12_scale", (70000, k), what="a text of 70000 characters", covers=[1], cost=15, max_steps=60_000_000) for k in (0, 1, 2)],
      bounds="texts of up to 3000 (thorough: 70000) characters, the first or last of them arbitrary")
scale("C13", [J("h_c13_scale", (300, s, 0), what=f"75 numbers and a text of 300 characters into sink {s}", covers=[1]) for s in (0, 1, 2)],
      bounds="a list of 75 numbers and a text of 300 characters, one of them arbitrary")
scale("C14", [b14(1, 60, 0), b14(1, 60, 1), b14(0, 100, 0), b14(7, 30, 0)],
      bounds="comments of 60..100 characters, one of them arbitrary")
scale("C15", [J("h_c15_spent", (), what="every use of a value which is already consumed", covers=[1, 2]),
              J("h_c15_with", (), what="temporary wrappers", covers=[3])],
      bounds="every use of a value which was consumed before it is wrapped; temporary wrappers (with) which write 0..2 items, left open or closed")
scale("C15", [J("h_c15_lengths", (r, n), what=f"lists of any announced length, {('written', 'read')[r]}: up to {n} items", covers=[1, 2, 3]) for r in (0, 1) for n in (4, 300)],
      bounds="lists of every announced length (any 64-bit number), with 0..4, 299 or 300 items delivered")
scale("C16", [J("h_c16_wide", p, what=f"an object of {p[0]} entries" + (" within another which is read ahead" if p[1] else "") + f", {p[2]} requests by name for one of five entries or one which is not there", covers=[1, 2, 3], cost=c) for p, c in (((40, 0, 1), 4), ((40, 1, 2), 20), ((150, 0, 1), 12))]
      + [J("h_c16_deep", p, what=f"objects nested {p[0]} deep with {p[1]} other entries each, every entry accessed on one of two ways", covers=[1]) for p in ((20, 3), (100, 1))],
      [J("h_c16_wide", (300, 0, 1), what="an object of 300 entries", covers=[1, 2, 3], cost=30), J("h_c16_wide", (40, 0, 2), what="an object of 40 entries, two requests", covers=[1, 2, 3], cost=20), J("h_c16_deep", (300, 2), what="objects nested 300 deep", covers=[1], cost=5)],
      bounds="an object of 150 entries (40 for two requests) and objects nested 100 deep, one of the numbers arbitrary")
scale("C17", [c17(m, 1, 0, 0, 0, n, cost=3) for m in range(4) for n in (40, 300)],
      bounds="the same behind 300 spaces or line breaks")
scale("C18", [J("h_c18_zeros", (t, n, w), what=f"f{32 << t} literals with {n}..{n + 3} zeros (and an exponent which makes up for them), {WAYS[w]}", cost=6, covers=[1]) for t, n, w in ((0, 126, 0), (1, 126, 2), (1, 254, 0), (0, 254, 2), (0, 96, 0))]
      + [J("h_c18_digits", (t, n, n, w), what=f"f{32 << t} literals of {n} digits (the real std conversion), {WAYS[w]}", cost=6, covers=[1]) for t, n, w in ((0, 65, 0), (1, 65, 2), (1, 120, 0), (0, 120, 2), (1, 300, 0))],
      [J("h_c18_zeros", (t, n, w), what=f"f{32 << t} literals with {n}..{n + 3} zeros, {WAYS[w]}", cost=10, covers=[1]) for t in (0, 1) for n in (20, 60, 126, 254, 510) for w in (0, 2)]
      + [J("h_c18_digits", (t, n, n + 10, w), what=f"f{32 << t} literals of {n}..{n + 10} digits (the real std conversion), {WAYS[w]}", cost=60, covers=[1]) for t in (0, 1) for n in (40, 60, 250, 800) for w in (0, 2)],
      bounds="literals with up to 257 zeros (thorough: 513) and an exponent which makes up for them; literals of up to 300 digits (thorough: 810), one of them arbitrary, with the real std conversion")
scale("C19", [J("h_c19_long", (300, 0), what="arrays of up to 300 digits read as a list and an array of 24 items, and written", covers=[1, 2], cost=12)],
      bounds="arrays of up to 300 digits")
scale("C21", [J("h_c21_values", (5, s, 20), what="20 numbers and a text of 20 characters into a sink which fails at any write", covers=[1, 2], split=True, cost=8) for s in (0, 1, 2)],
      [J("h_c21_values", (5, s, 300), what="300 numbers and a text of 300 characters into a sink which fails at one of 30 writes", covers=[1, 2], split=True, cost=60) for s in (0, 1, 2)],
      bounds="long documents, with a failure at one of 30 places (first, last and in between)")
NOT_APPLICABLE = {}


WAY22 = ["skipped", "read by type", "read ahead", "read by name"]


def c22(how, k, n, p=0, comments=0, covers=(1, 2, 3), string=False, cost=3):
    text = BIG[k].format(n=n) + ", whole, broken or cut short" if k >= 30 else f"{STARTS[p]} + up to {n} {KINDS[k]}"
    return J("h_c22_string" if string else "h_c22_stream", (how, k, n, p, comments), split=True, covers=list(covers), cost=cost,
             what=f"{text}, {WAY22[how]}" + (", comments allowed" if comments else "") + (" (from a string)" if string else ""))


CHECKS["C22"] = dict(
    quick=[c22(h, k, 4) for h in range(3) for k in (0, 2, 6)] + [c22(h, 0, 4, comments=1) for h in range(3)]
    + [c22(h, k, 4, covers=(1, 2) if h == 2 else (1, 2, 3)) for h in range(3) for k in (3, 4)]
    + [c22(h, 5, 4, 2, covers=(1, 2) if h == 2 else (1, 2, 3)) for h in range(4)]
    + [c22(2, 5, 5, p, covers=(1, 2)) for p in (3, 12)] + [c22(h, 11, 6, 0, 1, covers=(1, 2) if h == 2 else (1, 2, 3)) for h in (0, 2, 3)]
    + [c22(2, 11, 5, 4, 1, covers=(1, 2)), c22(3, 7, 6), c22(3, 0, 4, 6), c22(3, 0, 3, 5, covers=(1, 2)), c22(0, 0, 3, string=True)]
    + [c22(h, k, 40, comments=1, covers=(1, 2) if h == 2 and k > 32 else (1, 2, 3)) for h in range(3) for k in range(30, 39)],
    thorough=[c22(h, 0, 5, cost=60) for h in range(3)] + [c22(h, 6, 6, cost=60) for h in range(3)] + [c22(3, 1, 2, 5, covers=(1, 2), cost=60)],
    bounds=[
        "documents which are not JSON, and those which are: every text of up to 4 (thorough 5) ASCII characters, structural characters or tokens, of up to 4 number or literal characters, escapes of up to 5 characters behind 3 starts, comments of up to 6 characters; each skipped, read by type, read ahead and read by name",
        "long documents (40): strings, numbers, fractions, arrays, objects, nesting, whitespace and comments which break or end at any place",
        "the error is judged by a separate scanner for JSON: it lies within the part (character, number, literal, escape, comment) which breaks, and its kind is one which fits: an end which is unexpected if and only if the text is cut short",
    ],
    outside=["which of several fitting kinds of error is reported", "the exact character reported within a broken number, literal or escape", "errors of documents which are not UTF-8 (C12)"],
)


OFF23 = ["values of another type", "numbers out of range and strings which are none of the names", "containers which lack or exceed something", "values found invalid"]


def c23o(m, depth, gaps, rich, how, cost=2, **k):
    return J("h_c23_offends", (m, depth, gaps, rich, how, 0), split=True, covers=[1], cost=cost, **k,
             what=f"{OFF23[m]}, {depth} deep, {gaps} whitespace, {rich} kinds before, " + ["from a string", "streamed", "displayed"][how])


def c23n(t, n, place=0, frac=0, covers=(1, 2), cost=1):
    return J("h_c23_number", (t, n, place, frac), split=True, covers=list(covers), cost=cost,
             what=(f"{INT[t]}" if t < 8 else "a tag by index") + f": {'exactly' if n > 16 else 'up to'} {n} digits, {frac} behind the point, place {place}")


CHECKS["C23"] = dict(
    quick=[c23o(m, 1, 0, 0, h) for m in range(4) for h in (0, 2)] + [c23o(m, 0, 0, 0, 2) for m in range(4)]
    + [c23o(m, 1, 1, 0, 1, cost=40) for m in (2, 3)] + [c23o(m, 2, 0, 0, 0, cost=20) for m in (2, 3)]
    + [c23n(t, 4, 0, 1) for t in range(8)] + [c23n(6, 10, 3)] + [c23n(t, 3, 0, 1, covers=(1, 2, 3)) for t in (8, 9)]
    + [c23n(8, 19, p, covers=(1, 3), cost=4) for p in (0, 3)] + [c23n(8, 20, 0, covers=(1, 3), cost=40), c23n(8, 21, 0, covers=(3,), cost=20)]
    + [c23n(9, 10, p, covers=(1, 2, 3)) for p in (0, 1, 2, 3)]
    + [J("h_c23_name", (n, p, h), split=True, what=f"names of up to {n} characters: " + ["a tag", "an enum", "an enum with data"][h], covers=[1] if n < 3 and h else [1, 2])
       for h in range(3) for n, p in ((3, 0), (2, 3))] + [J("h_c23_name", (2, p, 0), what="a tag within a container", covers=[1, 2]) for p in (1, 2)]
    + [J("h_c23_missing", p, split=True, what="missing entries", covers=[1], cost=c)
       for p, c in (((2, 1, 0, 0, 1), 1), ((1, 1, 2, 1, 1), 1), ((2, 1, 2, 1, 1), 1), ((2, 2, 0, 2, 0), 12), ((2, 2, 2, 2, 0), 10))]
    + [J("h_c23_extra", (2, 2, seen, how, 0), split=True, what=f"objects of 2 entries, {seen} read", covers=[2 if seen == 2 else 1], cost=3) for seen in range(3) for how in range(3)]
    + [J("h_c23_extra", (1, 1, 0, how, 1), split=True, what="one entry with any key, not read", covers=[1]) for how in range(2)]
    + [J("h_c23_display", (k, 2), what="how errors are displayed, at any line and column below 100", covers=[1]) for k in range(6)],
    thorough=[c23o(m, 1, 1, 0, 1, cost=60) for m in (0, 1)] + [c23o(m, 2, 0, 0, 0, cost=40) for m in (0, 1)] + [c23n(7, 20, cost=70), c23n(8, 20, 3, covers=(1, 3), cost=40)]
    + [J("h_c23_display", (k, 4), what="how errors are displayed, at any line and column below 10000", covers=[1], cost=16) for k in range(2)]
    + [J("h_c23_extra", (1, 1, 0, 2, 1), split=True, what="one entry with any key, read ahead, not read", covers=[1], cost=100)],
    bounds=[
        "each of ten values against each of 22 ways to read a value of another type; nine numbers against every integer, non-zero and tag type; 30 containers lacking or exceeding something; 22 values rejected by validation; at the top and at any path of 1 (2) steps through arrays and objects, streamed, read ahead, from a string",
        "numbers of up to 4 digits, with a point, as every integer type; indices of tags of up to 21 digits (with at most one run of zeros beyond those of the largest 64-bit number); tags of up to 3 characters in any spelling",
        "missing and extra entries: keys of up to 2 characters, arbitrary or of five spellings, objects of 0..2 entries, unread, read by iteration, by name, and read ahead",
        "displayed: every kind of error, ten sets of types, lines and columns below 100 (thorough 10000)",
    ],
    outside=["which of several offending values is reported", "which of several extra entries is named", "the wording of errors which have no parts (single characters, non-zero numbers)",
             "keys in displayed errors which need escaping"],
)

scale(
    "C20",
    [c20r(16, 1, 1, 1, cost=5), c20r(17, 1, 1, 1, cost=2), c20r(18, 2, 1, 1), c20o(16, 1, 1, 0, 0, cost=6), c20o(17, 1, 1, 0, 2, cost=12), c20d(17, 5, 1, 0, cost=2), c20d(17, 4, 1, 1)],
    [c20r(t, 2, 2, 0, cost=30) for t in (16, 17, 18)] + [c20o(17, 1, 1, 1, 0, cost=100, split=True), c20o(17, 1, 1, 2, 1, cost=300, split=True), c20o(16, 0, 0, 2, 2, cost=300, split=True), c20d(17, 7, 1, 0, cost=20), c20d(17, 6, 1, 1, cost=20)],
    "fields, variants and type parameters whose names are also used by the derived code (`st`, `ctx`, `value`, `tag`, `index`, `D`, `S`, `Ctx`), and raw identifiers",
)

scale("C10", [J("h_c10_content", (a, b), what=f"types {a}..{b} of 35 content types (numbers, NonZero, tuples, arrays, lists, unit, derived): present, absent, twice optional and missing", covers=[1], cost=3) for a, b in ((0, 5), (6, 11), (12, 16), (17, 20), (21, 34))],
      bounds="35 content types - every primitive, NonZero types, tuples, arrays (also of no elements), lists, unit, and derived ones - each present, absent, twice optional, and as a field which may be missing; with and without nulls")
scale("C13", [J("h_c13_lengths", (n, s, odd), what=f"texts of 0..{n} characters in one piece after none, one or several others, one of them arbitrary, sink {s}" + (f", {odd} odd writes" if odd else ""), covers=[1], cost=c) for n, s, odd, c in ((140, 0, 0, 8), (20, 0, 1, 8), (140, 1, 0, 2), (140, 2, 0, 1), (100, 3, 0, 4))],
      [J("h_c13_lengths", (n, s, odd), what=f"texts of 0..{n} characters in one piece, sink {s}", covers=[1], cost=60) for n, s, odd in ((520, 0, 0), (70, 0, 1), (300, 3, 0), (40, 3, 1))],
      bounds="texts of every length up to 140 written at once")


LAYOUTS = ["compact", "tabs", "two spaces", "an empty indentation", "mixed blanks", "by default"]


def c24(nodes, rich, chars, wrap, i, cost=1):
    return J("h_c24_writes", (nodes, rich, chars, wrap, i), split=cost > 2, cost=cost, covers=[1],
             what=f"every sequence of writes of up to {nodes} values ({('basic', 'more', 'all')[rich]} kinds, texts of up to {chars} characters{', through the wrappers' if wrap else ''}), {LAYOUTS[i]}")


CHECKS["C24"] = dict(
    quick=[c24(1, 2, 1, w, i) for w in (0, 1) for i in (0, 1, 3)] + [c24(1, 0, 2, 0, 2, cost=4)] + [c24(2, 2, 0, w, i, cost=4) for w, i in ((0, 1), (1, 2), (1, 0))] + [c24(4, 0, 0, 1, 2, cost=2), c24(4, 0, 0, 0, 1, cost=10), c24(3, 0, 0, 0, 0), c24(3, 0, 0, 1, 3), c24(3, 0, 0, 1, 4), c24(2, 0, 1, 0, 4, cost=4)]
    + [J("h_c24_deep", (n, i), what=f"{n} levels of lists, objects and tuples, {LAYOUTS[i]}", covers=[1], cost=c, max_steps=200000000) for n, i, c in ((5, 4, 1), (40, 2, 1), (300, 1, 10))]
    + [J("h_c24_wide", (n, i), what=f"lists and objects of {n} entries, {LAYOUTS[i]}", covers=[1], cost=c) for n, i, c in ((8, 1, 1), (40, 2, 5), (40, 0, 5))]
    + [J("h_c24_derived", (1, i), what=f"derived values, {LAYOUTS[i]}", covers=[1]) for i in range(6)],
    thorough=[c24(5, 0, 0, 1, 2, cost=60), c24(5, 0, 0, 0, 1, cost=200), c24(3, 1, 0, 1, 1, cost=150), c24(2, 1, 1, 1, 2, cost=150), c24(3, 0, 1, 0, 1, cost=100)]
    + [J("h_c24_deep", (600, 1), what="600 levels", covers=[1], cost=60, max_steps=1000000000), J("h_c24_wide", (300, 1), what="lists and objects of 300 entries", covers=[1], cost=200), J("h_c24_derived", (3, 1), what="derived values of up to 3 items", covers=[1], cost=60)],
    bounds=[
        "every sequence of writes of up to 4 (basic kinds), 2 (all kinds) values, of texts of up to 2 arbitrary characters, raw and through the wrappers; five indentations (tabs, spaces, empty, mixed) and the compact layout; derived values with up to 1 (thorough 3) items",
        "lists, objects and tuples nested 300 deep (thorough 600), and of 40 (thorough 300) entries",
    ],
    outside=["indentations which are not whitespace (they make no JSON)", "spaces within lines of the compact layout"],
)
