#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FX, MATH, NUM = "include/eirin/fixed.hpp", "include/eirin/math.hpp", "include/eirin/numbers.hpp"
RND, DIST, FMT, PARSE = "include/eirin/random.hpp", "include/eirin/detail/distribution.hpp", "include/eirin/io/format.hpp", "include/eirin/io/parse.hpp"
CORDIC, SIMD, UTIL, I128, MACRO, ERR = "include/eirin/ext/cordic.hpp", "include/eirin/ext/simd_math.hpp", "include/eirin/detail/util.hpp", "include/eirin/detail/int128.hpp", "include/eirin/macro.hpp", "include/eirin/error.hpp"
TYPES = ("fixed32 (16 fractional bits of 32), fixed64 (32 of 64), and the user-declared formats 20 of 32 and 8 of 16 bits")
MORE = ", the 64-bit formats with 16 and 48 fractional bits and a 4-of-8 format"
ALL = TYPES + ", an unsigned 16-of-32 format, the rounding variants of fixed32 and fixed64" + MORE
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), technique=None, note=None, level="proof", observe=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over), technique=technique, note=note, level=level, observe=observe))
ABS = "abstract interpretation of the LLVM IR (intervals, exact linear and floor-division relations, trace partitioning)"
ERRF = "abstract interpretation of the LLVM IR with polynomial error forms against a mathematical reference, complete input partition"
EFF = "interprocedural effect analysis of the LLVM IR (globals, externals, floating point, volatility)"
WIT = "type-level witnesses: programs that must, or must not, compile"
NOTE = ("Every admissible input is covered: the obligation is shown on each abstract path of each input cell, on the IR of the current headers. "
        "Trusted: clang 18's front end and its inlining/SROA passes, the abstract interpreter in engine/, the obligation text in harness/. A result that depends on an overflowing signed operation of at most 64 bits is undefined and counts as wrong. An obligation that a change makes undecidable is reported in the evidence and does not raise an alarm.")

prop("C01", "Addition, subtraction, negation and ++/-- are exact",
     "For all operands whose mathematical result is representable in the type, adding, subtracting and negating fixed point numbers (including +=, -= and aliased operands such as x += x) gives exactly that result, and ++/-- (prefix and postfix) step by exactly one, postfix returning the old value, without relying on an intermediate value that overflows. Operands that are not the target are never changed, compound operators return the object they modified, and a + b - b is a again.",
     "all pairs and triples of values of " + ALL, "the tests add a handful of literals; exactness is claimed for 2^128 pairs of fixed64 values",
     [FX], [("operator+/-/+=/-=, unary -, ++/--", FX)])
prop("C02", "Multiplication is the correctly scaled product",
     "For all operands whose product is representable, multiplying two fixed point numbers (with * or *=, aliased or not) gives the exact product taken to the type's resolution: towards minus infinity, or to the nearest value with ties away from zero for a rounding type. Multiplication commutes, 1 is neutral, 0 absorbs and the operands stay unchanged.",
     "all pairs of values of " + ALL, "tests multiply small positive numbers; sign, rounding boundary and full-width intermediate products are not sampled",
     [FX], [("operator* and operator*= with the wider intermediate type", FX)])
prop("C03", "Division and remainder are exact to the stated rounding",
     "For all operands with a non-zero divisor and a representable quotient, dividing two fixed point numbers (/ and /=, aliased or not) gives the exact quotient rounded towards zero, or to the nearest value with ties away from zero for a rounding type. For every non-zero divisor, % and %= give the exact remainder with the sign of the dividend and smaller in magnitude than the divisor.",
     "all pairs of values of " + ALL + " with a non-zero divisor", "tests divide a few literals; negative operands, ties and the extreme values are not reached",
     [FX], [("operator/, /=, %, %=", FX)])
prop("C04", "Checked division throws exactly for a zero divisor",
     "The checked division operations (by a fixed point number or by a built-in integer, in-place or not) throw the library's divide-by-zero error - which is also a std::domain_error - if and only if the divisor is zero, and then leave the dividend unchanged. For every other divisor with a representable quotient they give the same result as exact division: truncated (nearest with ties away from zero for fixed point divisors of rounding types), in-place variants returning the modified object.",
     "all values of " + ALL + " and all built-in integer divisor types from 8 to 64 bits, signed and unsigned", "tests check one zero divisor of one type",
     [FX, ERR], [("divide/divide_by", FX), ("divide_by_zero", ERR)])
prop("C05", "Mixed arithmetic with built-in integers is exact",
     "For every built-in integer type and value, fixed + int, fixed - int, fixed * int, fixed % int, the mirrored forms and the compound assignments behave as the exact operation on the mathematical values whenever the integer (converted to the fixed type, except in multiplication and in division by it) and the result are representable. fixed / int truncates the exact quotient towards zero and int / fixed equals converting the integer and dividing.",
     "all values of nine formats and all values of eight integer types, signed and unsigned from 8 to 64 bits", "tests use int literals of small magnitude only; unsigned, 64-bit and negative operands are not covered",
     [FX], [("integral operator overloads", FX), ("divide_value", FX)])
prop("C06", "Ordering, equality and hashing follow the numeric value",
     "For all pairs of values ==, !=, <, <=, >, >= and <=> agree with the order of the numbers they represent, so the order is total. Equal values hash equally, and the hash is that of the underlying stored integer.",
     "all pairs of values of " + ALL, "tests compare a few constants",
     [FX], [("operator== / <=>", FX), ("fixed_hash", FX)])
prop("C07", "Tolerant comparisons use one symmetric tolerance",
     "The nearly-equal family compares the exact difference of the operands with one fixed tolerance of 5*2^-16 (taken down to the type's resolution): nearly_eq holds when |a-b| is at most the tolerance, nearly_gt and nearly_lt when one exceeds the other by more, and the *_eq variants are their complements. For all pairs, also at opposite ends of the range where the difference does not fit the type, exactly one of nearly_eq, nearly_gt, nearly_lt holds, and nearly_eq is symmetric.",
     "all pairs of values of " + ALL, "tests compare values that are close together",
     [FX], [("nearly_* members and their epsilon", FX)])
prop("C08", "Integer conversions are exact and monotone",
     "Constructing from any built-in integer whose value is representable is exact, and converting back gives the same integer. Converting a fixed point value to a built-in integer type that can hold the result gives the largest integer not above the value; both directions preserve order.",
     "all values of the formats and of eight built-in integer types", "tests convert a handful of small integers; negative fractions and mixed widths are not reached",
     [FX], [("integral constructor and conversion operator", FX)])
prop("C09", "Floating point conversions are exact up to the resolution",
     "Constructing from a float, double or long double whose value is in range (and not within one resolution step of either end of it) gives exactly that value when it is a multiple of the type's resolution, and otherwise the value truncated towards zero, or the nearest with ties away from zero for a rounding type. Converting to float, double or long double is exact whenever the stored significand fits the floating type, and converting back then gives the same number; other significands of 64-bit formats convert to the nearest double. Numeric literals with the suffixes _f32 and _f64 give the value written, truncated to the resolution.",
     "all significands that the floating type represents exactly, at binary scales 0, 5, 16, 19, 24 and 40, for " + TYPES + " and rounding variants; all stored values whose significand fits (24, 53 or 64 bits), and all 64-bit ones for double", "tests convert single values such as 3.14; truncation direction and large significands are not reached",
     [FX], [("floating point constructor and conversion operator", FX)],
     note=NOTE + " Floating point operations are modelled exactly where exact and otherwise as top.")
prop("C10", "Conversions between fixed point types keep the value",
     "Converting between two fixed point types keeps the exact value when the target has at least as many fractional bits (and converting back restores the original), and otherwise truncates towards zero, or rounds to nearest with ties away from zero for a rounding target, whenever the result is representable. Building a number from a raw value of another precision follows the same rule, and the source is unchanged.",
     "all values of eleven formats in all pairings; raw 32- and 64-bit values of six precisions", "tests convert between fixed32 and fixed64 for few positive values",
     [FX], [("converting constructor", FX), ("from_fixed_num_value", FX)])
prop("C11", "floor, ceil, trunc, round and modf are exact",
     "For every value floor, trunc and ceil give exactly the integer below, towards zero and above (ceil saturating at the largest value where that integer is not representable), and round gives the nearest integer with ties away from zero where that integer is representable. modf splits every value into its floor and a fraction in [0, 1) that add up to the value.",
     "all values of " + ALL, "tests round a few values; boundaries, exact integers and negatives are not exhaustively sampled",
     [MATH], [("ceil/floor/trunc/round/modf", MATH)])
prop("C12", "Sign, integral and fractional parts reconstruct the value",
     "For every value the sign test is true exactly for negative numbers, the integral part is the magnitude's whole part, and the fractional part is the signed remainder, so that sign, integral and fractional part together determine the value. The raw integral part is the bit pattern above the binary point with the sign bit cleared, and storing, copying and reading back the internal representation is the identity.",
     "all values of " + ALL, "tests look at 1 and -1",
     [FX], [("signbit, integral_part, fractional_part, raw_integral_part, internal_value", FX)])
prop("C13", "abs, min, max and the numeric limits are exact",
     "abs is exact for every value whose magnitude is representable, and min and max return the smaller and the larger operand. The advertised limits (numeric_limits, the named minimum and maximum constants) bound every value of the type and are attained, and the signedness, exactness, radix, digits and rounding constants describe the type.",
     "all values and pairs of values of " + ALL, "tests compare two constants with the limits",
     [MATH, FX], [("abs/min/max", MATH), ("numeric_limits specialisation", FX)])
prop("C14", "Square root and hypotenuse are accurate over the range",
     "sqrt is within 2^-14 + 2^-8 relative of the true root for every non-negative fixed32 value, within 2^-7 + 2^-12 relative for fixed64 values from 2^-16 to 1 and within 2^-12 + 2^-14 relative for all fixed64 values from 1 upwards; it is exact on squares of integers and exact to the last place next to squares of multiples of 1/64 in fixed32, and negative arguments give -1. Close above j/16*16^k for j = 16..31 and k = 0..6 the fixed64 root is within 2^-(14+2k) + 2^-30. hypot of two or three operands on fixed rays, of any signs and on the axes included, is within 2^-6 + 2^-7 relative in fixed32 (for (3t, -4t) at every t from 9/64 to 36) and 2^-12 + 2^-14 relative in fixed64.",
     "all values of the stated ranges, likewise for the 20-of-32 and 8-of-16 formats", "tests take a few roots of small integers",
     [MATH, FX], [("sqrt: initial estimate table and Newton iteration, integer fast path", MATH), ("sqrt_lookup_table", FX), ("hypot", MATH)], technique=ERRF)
prop("C15", "Sine, cosine and tangent are accurate and bounded",
     "For every argument in [-7, 7] sin and cos are within 2^-13 of the true value in fixed32 and within 2^-17 in fixed64, and within 2^-11 (fixed32) and 2^-15 (fixed64) up to |x| = 100. tan is within 2^-11 (fixed32) and 2^-13 (fixed64) on [-1, 1], sin(0) is exactly 0, and sin stays within [-1, 1] up to 2^-11 at every argument of the 8-of-16 and 20-of-32 formats and at the most negative argument of every format.",
     "all values of the stated ranges of " + TYPES, "tests evaluate a few multiples of pi",
     [MATH], [("sin: argument reduction and polynomial", MATH), ("cos, tan", MATH)], technique=ERRF)
prop("C16", "Inverse trigonometric functions are accurate",
     "atan is within 1.25*2^-12 of the true value for every fixed32 argument and within 2^-12 for every fixed64 argument, and is odd. asin and acos are within 2^-9 over the whole of [-1, 1] in fixed32 and over |x| <= 15/16 in fixed64, with exact values 0, +-pi/2 and pi at -1, 0 and 1.",
     "all values of " + TYPES + " in the stated domains", "tests evaluate a handful of points",
     [MATH], [("atan, asin, acos", MATH)], technique=ERRF)
prop("C17", "Logarithms are accurate over the whole domain",
     "For every positive argument log2 is within 2^-8 (fixed32) and 2^-4 (fixed64) of the true value, log within 2^-7 and log10 within 2^-8 (fixed32), and log2 is exact at every representable power of two. On [1, 2] log2 is within 2^-12 (fixed32) and 2^-10 (fixed64), and just above every sixteenth of that interval log2, log and log10 of fixed64 are within 2^-17. At j/16*2^k for j = 17..31 (k = -24..29 in fixed64, -10..14 in fixed32) log2, log and log10 are within 2^-27 in fixed64 and 2^-11 in fixed32.",
     "all positive values of " + TYPES, "tests evaluate a handful of points",
     [MATH], [("log2 bit-by-bit iteration; log and log10 by scaling", MATH)], technique=ERRF)
prop("C18", "Exponentials and powers are accurate",
     "exp is within 2^-12 absolute plus 2^-12 relative of the true value on [-20, 10] in fixed32 and within 2^-18 plus 2^-18 relative on [-20, 20] in fixed64, vanishes for arguments far below zero, and exp(0) is exactly 1. Integer powers are the repeated product: x^0 = 1 and x^1 = x for all x, x^2 = x*x, integer bases up to 12 in magnitude and all representable powers of +-2 (with their reciprocals where both are representable) are exact whether the exponent is an integer or a whole fixed point number, and x^-1 is within 2^-15 of 1/x for |x| >= 1/16 in fixed32. Powers of 2, 3, 10 and 1/2 with fractional exponents in [-3, 3] are within 2^-10 absolute plus relative in fixed32 (2 and 10: 2^-17 in fixed64), a zero base gives 0, or 1 for exponent 0, and this holds for exponents of every integer type up to its limits (powers of 0, +-1, 1/2 and 2).",
     "all values in the stated ranges of " + TYPES, "tests evaluate a few points with positive exponents",
     [MATH], [("exp, pow", MATH)], technique=ERRF)
prop("C19", "Cube roots of cubes, and of all 16-bit numbers",
     "The cube root of the cube of an integer is that integer to within one resolution step for every |k| <= 31 in fixed32 (and 2^-16 for |k| <= 1000 in fixed64), negative arguments included, and values below the type's smallest step have root 0. For every value of the 8-of-16 format except the lowest the root is within 1.125 resolution steps of the true one, and the root of the lowest value of each format is minus that of the largest.",
     "all integers in the stated ranges and all 16-bit values", "tests take the root of 8 and 27",
     [MATH], [("cbrt", MATH)], technique=ERRF)
prop("C20", "Degrees, radians and fmod are accurate",
     "Conversion between degrees and radians is within a few resolution steps plus a relative error of the order of the resolution: 2^-8 + 2^-15 relative for degrees and 2^-13 + 2^-16 relative for radians in fixed32, 2^-24 + 2^-28 and 2^-29 + 2^-32 relative in fixed64, wherever the result is representable; pi is exactly 180 degrees and back, and 0 is 0. fmod of operands with the same sign is the exact remainder whenever their quotient is representable, and with different signs (multiples of 1/4 up to 12) the remainder that has the sign of the divisor.",
     "all arguments with representable result (up to 10^7 radians in fixed64) of fixed32, fixed64 and the 20-of-32 format; all pairs for fmod", "tests convert 180 degrees only",
     [MATH], [("degrees, radians, fmod", MATH)], technique=ERRF)
prop("C21", "The named constants are correct to the last place",
     "Every named mathematical constant of every format (pi, e, the logarithm and square root constants, phi, Euler's gamma, the fractions and multiples of pi) is within one resolution step of the true value, and is the truncated true value for the non-rounding formats. The fixed32 and fixed64 shorthand constants equal the generic ones.",
     "all constants for every format used here (4 to 48 fractional bits)", "tests compare two of the constants after formatting",
     [NUM, FX], [("constants stored with 61 fractional bits", NUM), ("member constants", FX)], over=("configurations",))
prop("C22", "Domain errors are reported exactly outside the domain",
     "log, log2 and log10 throw std::domain_error exactly for arguments that are not positive, and asin and acos exactly for arguments outside [-1, 1]; inside the domain they never throw and on error the argument is unchanged. pow with a negative base throws std::domain_error for every non-whole exponent (|exponent| < 8) and never for whole ones, and tan throws it exactly where the computed cosine is within one resolution step of zero (checked for |x| < 7.8 in the 8-of-16 format and next to nine poles in the others), never for |x| <= 3/2.",
     "all arguments of " + TYPES, "tests check one point on either side",
     [MATH, ERR], [("domain guards in log/log2/log10/asin/acos/pow/tan", MATH)])
prop("C23", "Arithmetic and math never trap, hang or read out of bounds",
     "For every argument - including zero, the extremes of the range and results that are not representable - sin, cos, atan, sqrt, exp, degrees, radians, floor, ceil, trunc, round, abs, multiplication, and division, remainder and fmod by non-zero divisors return a value: no trap, no unbounded loop, no table access out of bounds. The same holds for hypot in fixed32 and tan in the 8-of-16 format, and cbrt returns for 128 arguments spread over the range of every format, whether or not a cube comes close. sin, cos, atan, sqrt, ceil, trunc and radians, whose results are always representable, do not depend on a signed overflow either.",
     "all values (and pairs) of " + TYPES, "tests never pass extreme values",
     [MATH, FX], [("loop bounds, table index clamping and guards", MATH), ("sqrt start value table", FX)],
     note=NOTE + " Except where stated, signed overflow is treated as wrapping here (the result is not representable); shifts by too much, division traps, out-of-bounds accesses and exhausted loop budgets are violations.")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None
NA = globals().get("NA", [])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
na = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or ABS, "level": p["level"], "level_note": p["note"] or NOTE} for p in P if p["id"] not in na],
     "not_applicable": NA,
     "notes": "No hooks in /repo. tools/props.py generates this file and properties.jsonl. Known findings and repaired defects: known-findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
