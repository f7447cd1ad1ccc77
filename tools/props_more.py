prop("C25", "Reading decimal text gives the number the text denotes",
     "Every decimal text - optional minus, digits, optional point and digits - whose value is representable is accepted by the text readers (C-string and string-view parsing, stream extraction and the text literals) and gives the exact value truncated towards zero, for as many decimals as the format distinguishes (the smallest k with 10^k >= 2^fraction); with more decimals the result is never farther from zero and less than two resolution steps off. A text whose value is not representable is rejected - failure result, std::invalid_argument from a literal, failbit on a stream - and leaves the number as it was; leading zeros and surplus decimals never change this, and extraction consumes exactly the characters of the number.",
     "all texts of up to 7 integer and 8 fractional digits (12 and 13 for fixed64, 6 and 17 with 48 fractional bits) with all digit values, and padded with up to 30 leading zeros and 18 surplus decimals, for " + ALL, "tests read four short positive texts; carries, limits of the range and long fractions are not sampled",
     [FX, PARSE], [("fixed_from_cstring, f32_from_cstring, text literals, operator>>", FX), ("io::parse", PARSE)],
     note=NOTE + " Text length is bounded as stated. Streams are represented by a mock of the stream class with the same template interface.")
prop("C26", "Malformed text is rejected without touching memory or the output",
     "For every byte sequence (or, from a stream, sequence of wide characters) the text readers access only what they are given (no terminator needed where a length or view is passed) and accept it exactly when it is a decimal number in range, with the strict readers (string view, range, literal, fixed32 C string) rejecting any foreign byte and the lenient ones (generic C string, stream) ending the number at it. On rejection the output keeps its value and the position returned is the start; an exhausted stream leaves the number unchanged, and characters after the number stay in the stream.",
     "all byte sequences of up to 8 bytes (5 and a terminator for ranges), for fixed32, fixed64, the 8-of-16 and an unsigned format; all sequences of up to 6 wide characters from streams of fixed32 and fixed64", "tests only read well-formed text",
     [FX, PARSE], [("detail::parse and the readers built on it", FX), ("io::parse", PARSE)],
     note=NOTE + " Text length is bounded as stated (10 bytes in the thorough tier). Streams are represented by a mock of the stream class with the same template interface.")
prop("C27", "Stream output is the exact value in the stream's base",
     "Inserting a number into a stream writes its exact value: a minus exactly for negative values, the integer digits without superfluous leading zeros, and only when the value has a fraction a point and exactly the digits needed, in the base the stream flags select (decimal, hexadecimal, octal, or binary when none is set) and with upper-case digits exactly when requested. This includes zero and the most negative value, and the stream itself is returned.",
     "all values of every format used here (16, 20, 30, 32 and 48 fractional bits, rounding, unsigned and narrow ones) in octal; all values of fixed32, its rounding variant, the 20-of-32, 8-of-16, 4-of-8 and unsigned 16-of-32 formats in decimal and hexadecimal, of the 64-bit formats with 16, 32 and 48 fractional bits in decimal, and of the 8-of-16 format in binary; 80 values with the longest fractions of every format in decimal and hexadecimal", "tests print a few values in decimal",
     [FX], [("operator<<, digit generation", FX)],
     note=NOTE + " The stream is represented by an object with libstdc++'s layout whose character output is recorded.")
prop("C28", "std::format writes the value's digits, truncated to the precision",
     "Formatting a number with std::format writes a minus exactly for negative values, the exact integer part, and the fraction truncated to the requested number of decimals (six if none is given; up to 36 checked): f and F write exactly that many, the default, g and G stop early only when the digits written are already exact, and precision 0 writes no point. The types d, x, X, o, b and B write the integer part of the magnitude in the respective base and digit case, and ? writes the stored integer's magnitude in hexadecimal, with leading 0x in the alternative form.",
     "all values of " + ALL + " and precisions up to 12; binary and ? for formats of at most 32 bits", "tests format a handful of values with one precision",
     [FMT, FX], [("fixed_num_formatter::format_to", FMT), ("integral_part, fractional_part", FX)])
prop("C29", "std::format specifications are parsed and laid out as written",
     "A specification of optional fill and alignment, sign, #, zero padding, width, precision and type is honoured as in the standard: the text is padded to exactly the width with the fill (spaces by default) on the side the alignment implies (right-aligned by default, the extra fill of centring on the right), + and space mark non-negative numbers, # adds 0x, 0X, 0b, 0B or 0 after the sign, and zero padding without alignment goes between prefix and digits. Parsing ends exactly at the closing brace, reads nothing after it whatever follows, and throws std::format_error for an unknown type or a width or precision above 2147483647; no character sequence makes it read out of bounds. Formatting in wide characters gives the same text.",
     "all ASCII fill characters, alignments, signs, flags and widths up to 12 (24 in the thorough tier, and selected widths and precisions up to three digits) on numbers up to 32 in magnitude; all specification byte strings of up to 5 bytes; the same with wchar_t and any code point as fill (specifications of up to 4), and all values of fixed32 and fixed64 in both character types", "tests use two or three specifications",
     [FMT], [("std::formatter::parse", FMT), ("output_padded, output_aligned, append_sign, append_alt_prefix", FMT)])
prop("C30", "Distributions stay within, and use exactly, the bounds given",
     "For all bounds a <= b a fixed point distribution asks its underlying integer distribution (whose result type is at least as wide as the stored integer) for exactly the range of stored values of [a, b] and returns exactly the value drawn, so every result lies in [a, b]; without bounds the range is that of numeric_limits min and max. Bounds passed to a single call apply to that call only; setting the parameters replaces them; a, b, min, max and the parameter set report the current bounds and parameter sets compare equal exactly when both bounds are equal.",
     "all bounds and all values drawn, for both adapters over fixed32, fixed64, the 20-of-32, 8-of-16, unsigned 16-of-32 and rounding formats; for std::uniform_int_distribution<int> over fixed32 all generator words (up to three rejections) and five ranges", "tests draw a few numbers and print them",
     [DIST, RND], [("fixed_int_distribution_adapter", DIST), ("fixed_distribution_adapter", DIST)])
prop("C31", "Random engines are reproducible and stay in their range",
     "Every number a PCG engine produces lies in [min, max] and depends only on the seed and the position, following the documented generator with its published constants; equal engines produce equal sequences, and seeding again restarts the same sequence whatever happened before. A seed sequence supplies seed and position, discard(n) equals n calls, discards add up, copies are independent, engines compare equal exactly when seed and position agree, and the fixed point engine adapter delivers the engine's output as the stored integer.",
     "all 32- and 64-bit seeds and positions, discards of any amount (compared call by call up to 5)", "tests draw a few numbers from one seed",
     [RND], [("permuted_congruential_engine", RND), ("fixed_random_engine_adapter", RND)],
     note=NOTE + " Words are represented as linear forms modulo 2^n with shifts, masks and exclusive-or uninterpreted.")
prop("C32", "CORDIC sine is accurate over several turns",
     "cordic_sine is within 2^-11 of the true sine for every fixed32 argument in [-7, 7] and odd for every |x| <= 3; in fixed64 it is within 2^-26 of the true sine at all arguments within 64 resolution steps of every multiple of 1/8 in [-7, 7]. At both ends of the range the result stays within [-1, 1] up to 64 resolution steps.",
     "all fixed32 values of the stated range; the stated fixed64 neighbourhoods", "tests evaluate one point",
     [CORDIC, FX], [("cordic: rotation loop, angle table and gain", CORDIC), ("cordic_optimize_angel", CORDIC)], technique=ERRF)
prop("C33", "Vectorised angle reduction is exact in every lane",
     "For all fixed64 arguments each lane of the four- and two-lane angle reductions gives the argument minus a whole multiple of 2 pi (twice the library's pi), with the argument's sign or zero and never larger in magnitude than 2 pi plus |x|*2^-29, arguments within one turn being unchanged. Lanes do not influence one another, and both widths agree.",
     "all fixed64 values in every lane position", "tests reduce one vector of four values",
     [SIMD], [("simd_reduce_angle, simd_reduce_angle_2", SIMD), ("lane-wise multiplication", SIMD)],
     note=NOTE + " Analysed for the AVX2 build (-mavx2).")

prop("C24", "Results depend on the arguments only, in integer arithmetic",
     "Arithmetic, comparison, conversion, rounding, mathematical functions, constants, text parsing and formatting, random engines and distributions are pure: they read and write nothing but their arguments (for engines and distributions, the object), with no static or thread-local cache, clock, environment, locale or input/output, and compute in integers only - floating point occurs solely in the explicit conversions from and to it. Equal arguments therefore give equal results on every platform, in every thread and in every order of calls.",
     "all inputs, call histories and thread schedules, for " + ALL, "a test runs one history on one platform; state carried between calls or platform arithmetic shows only in others",
     [FX, MATH, NUM, FMT, PARSE, RND, DIST, CORDIC], [("all operations of the number class", FX), ("mathematical functions", MATH), ("parsing and formatting", FMT), ("random engines", RND)], over=("inputs", "schedules", "histories"), technique=EFF,
     note="The analysis follows every direct call; an unknown external function or an indirect call leaves the root undecided and is named. Trusted: clang 18's front end and inliner, effects/effects.cpp with its list of external functions. Stream insertion and extraction are excluded: they use the stream's own state by definition.")
prop("C34", "The type system rejects lossy or meaningless combinations",
     "A format needs an integer storage type, at least one fractional bit, room for the sign, and a strictly wider intermediate type of the same signedness; numbers never convert implicitly to or from built-in numbers or other formats, and formats do not mix with each other or with floating point in arithmetic, assignment or comparison, while with integers the result has the fixed point type. Engine adapters need a generator at least as wide as the number, distribution adapters an integer distribution, and an invalid literal or checked division by zero is no constant expression; everything else does not compile. Numbers are trivially copyable, of the size of their storage and totally ordered.",
     "all programs of the stated kinds, represented by one witness for each kind, format and operand type", "a test suite that compiles cannot show what does not compile",
     [FX, RND, DIST, NUM], [("fixed_num_check", FX), ("explicit constructors and conversions", FX), ("fixed_random_engine_type_check", RND), ("distribution adapter constraints", DIST)], over=("programs",), technique=WIT,
     note="Decided by the compiler on the current headers: concept and static_assert witnesses and programs that must be rejected; a control program next to each rejected one shows that it is rejected for the stated reason. Nothing is executed.")
prop("C35", "Everything declared constexpr works in constant expressions",
     "Arithmetic, compound assignment, comparison, checked division, conversions (integer, floating point, other formats, text), limits and constants, rounding, roots, trigonometric, inverse trigonometric, logarithmic, exponential and power functions, hypot, degrees and radians, literals and the CORDIC sine can be evaluated by the compiler, in every branch of their argument range, without undefined behaviour.",
     "all public constexpr functions for " + ALL + ", with arguments in each branch of the function", "tests call the functions at run time, where a non-constant construct in a branch goes unnoticed",
     [FX, MATH, NUM, CORDIC], [("constexpr members and operators", FX), ("constexpr functions", MATH), ("cordic_sine", CORDIC)], over=("programs",), technique=WIT,
     note="Decided by the compiler's constant evaluator on the current headers; only constness is judged, not the value. Nothing is executed.")
P.sort(key=lambda p: p["id"])

prop("C36", "Engines write seed and position to a stream in decimal",
     "Inserting a PCG engine, or a fixed point engine adapter over one, into a stream writes its seed and its position as decimal numbers separated by one space, whatever base, case, adjustment or prefix the stream's flags select, so that equal engines, and only equal ones, write the same text. The stream's flags, fill, width and precision and the engine itself are as before afterwards, and the stream itself is returned.",
     "all combinations of base, showbase/uppercase, adjustment and other flags with eight seeds and eight positions of both widths, from 0 to the largest", "no test writes an engine to a stream",
     [RND], [("operator<< of permuted_congruential_engine and fixed_random_engine_adapter", RND)])
prop("C37", "The headers work alone, together and with exceptions disabled",
     "Every public header compiles on its own, included twice, and together with all others in either order, with GCC and Clang, as C++20 and C++23, with and without AVX2, RTTI and exceptions; where the compiler has no 128-bit integer type (32-bit targets), only fixed64 and the headers devoted to it are missing. A unit that includes all headers defines nothing that a second unit would define again and keeps no mutable variable of its own. With exceptions disabled a call ends the program (std::terminate) exactly where it would have thrown - a zero divisor in checked division, an argument outside the domain of log, log2, log10, asin, acos and pow, an invalid text literal - and returns its result everywhere else.",
     "all headers below include/ in six compiler configurations, and three without 128-bit integers; all arguments of the throwing functions in the four formats", "the tests are built in one configuration, with exceptions",
     [MACRO, ERR, FX, MATH], [("EIRIN_NO_EXCEPTIONS, throw_exception", ERR), ("exception detection", MACRO)], over=("configurations", "inputs"),
     technique="compilation of every header in every configuration, linkage analysis of the LLVM IR, abstract interpretation of the LLVM IR without exceptions")
prop("C38", "Constant, table and measuring tools compute what they state",
     "The tools for new formats and comparisons are exact to their stated approximation: evaluating a constant bit by bit gives a non-negative value truncated to the requested number of fraction bits, and the built-in list holds the true constants under their names. The Bailey-Borwein-Plouffe evaluation of pi over N terms is within N truncations of its terms plus the series' remainder (16^-N) of pi for every integer width. The angle and function tables are sampled evenly on [0, pi], the table sine interpolates within 2^-16 for 512 entries at every |x| <= 100 of either sign (2^-11 for 64, 2^-7 for 16 entries on [-7, 7]) without ever leaving its table, and the error measurement calls both functions exactly once at start, start + step, ... up to end and reports the largest and smallest deviation with the first arguments attaining them.",
     "all multiples of 1/64 and 1/256 in [0, 4) and the listed constants at widths of 16 to 64 bits; all fixed64 arguments in the stated ranges; all starts, steps, ends and function values (deviations up to 200) over up to three arguments", "no test calls these tools",
     [UTIL, "include/eirin/detail/perf.hpp"], [("eval_value, bbp_calc_pi, angels_lut, func_ptr_lut, lut_calc_sin", UTIL), ("measure_esp", "include/eirin/detail/perf.hpp")], technique=ERRF)
prop("C39", "Processor feature queries report what the processor states",
     "Each of the six feature queries of the SIMD extension (SSE2, SSE4.2, AVX, AVX2, AVX-512F, AVX-512DQ) returns exactly the bit the processor reports for that feature (cpuid leaf 1: EDX 26, ECX 20, ECX 28; leaf 7, subleaf 0: EBX 5, 16, 17), whichever query comes first, in whatever order and however often they are asked.",
     "all contents of the relevant cpuid words with the other words all zero or all ones, for every pair of queries and for all six in sequence", "no test asks for a feature, and the machine running the tests has one fixed set of them",
     [SIMD], [("platform_support::detect_features and the supports_ queries", SIMD)],
     note=NOTE + " The cpuid macros are replaced by a model of the instruction with arbitrary register contents.")
prop("C40", "The results are the same on other platforms",
     "What the other properties state of arithmetic, comparison, conversion, rounding, generators, text and the mathematical functions also holds when the same program is compiled for another platform: for 64-bit ARM (plain char unsigned, another ABI and long double, no x86 extensions), for a platform whose long, size_t and pointers have 32 bits, and with plain char unsigned on x86-64. Where a property fixes the result exactly, as it does for all of arithmetic, conversion, text and random numbers, every platform therefore computes the same bits.",
     "all inputs of the obligations of C01-C13, C18, C20-C23, C25-C27, C30 and C31, again on each platform", "the tests run on the one platform they are built on",
     [FX, MATH, MACRO, RND], [("every function the listed properties are anchored in", FX), ("EIRIN_ARCH_ARM, EIRIN_ARCH_X86", MACRO)], over=("platforms", "inputs"),
     note=NOTE + " The other platforms are clang's targets aarch64-linux-gnu and i386-linux-gnu (with 128-bit integers enabled) and -funsigned-char, with libstdc++'s headers..")
