import json
P=[]
def p(id,title,statement,over,q,why,files,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
I=["inputs"]
p("C01","Addition and subtraction are correctly rounded",
 "For all finite operands, x + y and x - y are the exact mathematical sum or difference rounded once to 237 bits (round to nearest, ties to even), including gradual underflow into subnormals and overflow to infinity. An exact zero result is +0 unless both addends are negative zero (IEEE 754 sign rule).",
 I,"all pairs of finite f256 values: every exponent gap, every cancellation depth, ties, carries into the next binade, subnormal/normal boundary, overflow boundary",
 "2^512 operand pairs; the tests have a few dozen literals and the upstream random data file is missing, so tie, sticky-bit and boundary paths are essentially unsampled.",
 ["src/binops/add.rs","src/big_uint/mod.rs","src/big_uint/uint128.rs","src/big_uint/uint_generic/mod.rs"],
 [("add/sub of magnitudes with guard/sticky bits","src/binops/add.rs"),("carry-propagating 256-bit arithmetic","src/big_uint/")],
 ["f256: Add, Sub, AddAssign, SubAssign"])
p("C02","Multiplication is correctly rounded",
 "For all finite operands, x * y is the exact mathematical product rounded once to 237 bits (nearest, ties to even), with gradual underflow, overflow to infinity, and the sign always the XOR of the operand signs.",
 I,"all pairs of finite f256 values, in particular products in or near the subnormal range, exact ties, and products whose discarded part differs from a tie only in its last bits",
 "The exact product has 474 bits; tests reach a handful of literals, none constrained to tie/sticky/underflow corner patterns.",
 ["src/binops/mul.rs","src/big_uint/uint128.rs","src/big_uint/uint_generic/mod.rs"],
 [("widening multiplication, rounding with sticky bit","src/binops/mul.rs"),("widening_mul","src/big_uint/uint_generic/mod.rs")],
 ["f256: Mul, MulAssign","f256::square"])
p("C03","Division and reciprocal are correctly rounded",
 "For all finite x and finite non-zero y, x / y is the exact quotient rounded once to 237 bits (nearest, ties to even) with gradual underflow and overflow to infinity, and x.recip() equals 1 / x. The sign is the XOR of the operand signs.",
 I,"all pairs of finite f256 values with non-zero divisor, including subnormal operands, subnormal quotients, quotients within 2^-237 of a rounding boundary",
 "The quotient estimate/correction steps of the multi-word division fail only for rare digit patterns, which a few literals cannot reach.",
 ["src/binops/div.rs","src/big_uint/uint128.rs","src/big_uint/uint_generic/mod.rs"],
 [("long division of significands","src/binops/div.rs"),("div_rem of 128/256-bit digits","src/big_uint/")],
 ["f256: Div, DivAssign","f256::recip"])
p("C04","Remainder is exact",
 "For all finite x and finite non-zero y, x % y is exactly x - y*trunc(x/y): no rounding error, magnitude smaller than |y|, and the sign of x (also when the result is zero). For infinite y and finite x the result is x.",
 I,"all pairs of finite f256 values with non-zero divisor, exponent differences from 0 to over 524000, subnormal operands",
 "The modular reduction loop depends on exponent difference and multi-word modular multiplication; tests use a few literals.",
 ["src/binops/rem.rs","src/big_uint/"],[("modular exponent reduction","src/binops/rem.rs")],["f256: Rem, RemAssign"])
p("C05","Fused multiply-add rounds exactly once",
 "For all finite x, y, a, x.mul_add(y, a) is the exact value x*y + a rounded once to 237 bits (nearest, ties to even) with gradual underflow, overflow to infinity and the IEEE 754 sign of zero.",
 I,"all triples of finite f256 values: every alignment of addend and product, full cancellation, tiny addend acting only as sticky bit, subnormal operands and results",
 "Depends on the relative position of a 474-bit product and a 237-bit addend across half a million exponents; tests sample a few hand-written cases.",
 ["src/fused_ops/fma.rs","src/big_uint/"],[("768-bit accumulator alignment, sticky and rounding","src/fused_ops/fma.rs")],["f256::mul_add"])
p("C06","Squares, square_add and sum_of_squares round exactly once",
 "For all finite operands x.square() is x*x rounded once, x.square_add(a) is x*x + a rounded once, and x.sum_of_squares(y) is x*x + y*y rounded once (nearest even, with gradual underflow and overflow to infinity).",
 I,"all finite f256 operands, including widely different exponents, ties decided by the smaller square, subnormal operands and results",
 "Double rounding or a lost sticky bit shows only for operands whose squares straddle a rounding boundary; existing tests check a few integers.",
 ["src/fused_ops/sos.rs","src/fused_ops/fma.rs","src/lib.rs","src/binops/mul.rs"],
 [("sum of squares accumulator","src/fused_ops/sos.rs"),("square / square_add","src/lib.rs")],["f256::square","f256::square_add","f256::sum_of_squares"])
p("C07","Square root is correctly rounded",
 "For every finite x >= 0, x.sqrt() is the exact square root rounded once to 237 bits (nearest); sqrt(-0) is -0, sqrt(+inf) is +inf, and sqrt of NaN or of any negative number is NaN.",
 I,"all f256 values, including subnormals, odd and even exponents, perfect squares, perfect squares plus or minus one ulp, and squares of midpoints plus or minus one ulp",
 "Upstream's random test data is missing, and wrong last bits occur only for radicands next to squares of midpoints.",
 ["src/math/sqrt.rs","src/big_uint/"],[("integer square root with remainder-based rounding","src/math/sqrt.rs")],["f256::sqrt"])
p("C08","Special operands follow the IEEE 754 rules in every operation",
 "Every arithmetic and mathematical operation given NaN, infinite or signed-zero operands (with any NaN payload or sign) returns the class and sign IEEE 754 (and f64) prescribe: NaN propagates, invalid operations give NaN, infinities, signed zeros and division by zero behave as for f64. Two documented deviations are part of the property: logarithms of zero, infinite, negative and NaN operands are NaN, and atan2 leaves the sign of the angle open when y is a zero.",
 I,"every public operation x every combination of operand classes {NaN with arbitrary sign/payload, +-inf, +-0, +-subnormal, +-normal, +-extreme}",
 "Tests check a few combinations with the one canonical NaN; combinations such as NaN with only low payload bits set, or inf-0-NaN triples in fused operations, are not enumerated.",
 ["src/lib.rs","src/binops/","src/fused_ops/","src/math/"],
 [("special-operand dispatch on high words with sticky bit","src/binops/*.rs, src/fused_ops/*.rs"),("early exits of math functions","src/math/")],
 ["all operators, mul_add, square*, sum_of_squares, sqrt, rounding functions, scaling, trigonometric and logarithmic functions, min/max, to_degrees/to_radians"])
p("C09","Scaling by powers of two is exact or correctly rounded",
 "For every x and every u32 n, x.mul_pow2(n) and x.div_pow2(n) are x*2^n and x/2^n rounded once (nearest even): exact whenever representable, gradual underflow with correct rounding, overflow to infinity, sign preserved. mul2 and div2 are the n = 1 cases; zeros, infinities and NaN map to themselves.",
 I,"all f256 values x all u32 shift counts, in particular crossings of the subnormal and overflow boundaries and shift counts up to u32::MAX",
 "Bit-pattern shortcuts on exponent fields fail only at the boundaries; there are few tests for them.",
 ["src/lib.rs"],[("exponent-field arithmetic and subnormal shifting","src/lib.rs mul_pow2/div_pow2")],["f256::mul2, mul_pow2, div2, div_pow2"])
p("C10","Rounding to integral values is exact in every mode",
 "For every finite x, trunc, ceil, floor, round (half away from zero) and round_tie_even return the integer their names define as for f64 (including the sign of a zero result), fract is exactly x - trunc(x), and split returns (trunc, fract). Infinities and NaN behave as for f64.",
 I,"all f256 values: all positions of the radix point within the significand, exact halves, halves plus/minus one ulp, largest non-integers, subnormals, both signs",
 "The mask position depends on each of ~237 exponents and on which 128-bit half holds the radix point; tests use a few decimal values.",
 ["src/lib.rs"],[("nearest_integral masks, tie detection","src/lib.rs")],["f256::trunc, fract, split, ceil, floor, round, round_tie_even"])
p("C11","Comparison, ordering, min, max and clamp agree with the numeric order",
 "For all values ==, <, <=, >, >= and partial_cmp reflect the exact numeric order (-0 equals +0, NaN is unordered), and total_cmp is the IEEE 754 totalOrder as documented. max and min return the larger or smaller operand and ignore a single NaN, and clamp returns the nearest value within the bounds.",
 I,"all pairs (triples for clamp and transitivity) of f256 bit patterns, including two negatives, neighbours differing in one bit, NaNs of both signs and payloads, signed zeros",
 "Order laws are universally quantified over pairs and triples of bit patterns; tests compare about a dozen constants.",
 ["src/binops/cmp.rs","src/lib.rs"],[("total_cmp on transformed bits, partial_cmp","src/lib.rs, src/binops/cmp.rs"),("min/max/clamp","src/lib.rs")],["PartialEq, PartialOrd, f256::total_cmp, max, min, clamp"])
p("C12","Classification, sign operations and ulp agree with the encoding",
 "For every bit pattern exactly one of NaN, infinite, zero, subnormal, normal holds, classify and all is_*/eq_zero predicates agree with it, and sign predicates, neg and abs look at or change exactly the sign bit. ulp() is the value of the least significant significand bit of a finite value (NaN for non-finite values).",
 I,"all 2^256 bit patterns, including non-canonical NaNs and patterns whose only set bits lie in the low 128 bits",
 "Tests look at the named constants and a few literals only.",
 ["src/lib.rs"],[("bit-mask predicates","src/lib.rs")],["f256::classify, is_nan, is_infinite, is_finite, is_subnormal, is_normal, eq_zero, is_special, is_sign_positive, is_sign_negative, ulp, abs, Neg"])
p("C13","Encodings and decompositions round-trip",
 "from_bits/to_bits and from/to_{be,le,ne}_bytes are mutually inverse bijections with the documented byte order. Decomposing any finite value with as_sign_exp_signif and rebuilding it with from_sign_exp_signif gives back the same value, and rebuilding from any (sign, exponent, significand) whose value is representable gives that value. The Debug text of a value names exactly its sign, exponent and significand (or the special value it is).",
 I,"all 256-bit patterns; all (sign, exponent, significand) triples with representable value, including unnormalised significands, subnormals and zero",
 "Bijection over 2^256 patterns, tests check a few.",
 ["src/lib.rs"],[("bits/bytes transmutation","src/lib.rs"),("encode/decode normalisation","src/lib.rs")],["f256::to_bits, from_bits, *_bytes, from_sign_exp_signif, as_sign_exp_signif"])
p("C14","Conversion from every integer type is exact",
 "For every value of every supported integer type (8 to 128 bits, signed and unsigned), f256::from(i) has exactly the value i, and the mapping preserves order and sign.",
 I,"all values of i8..i128, u8..u128: every bit length, type minimum and maximum, values with set bits at both ends",
 "2^128 inputs; tests check type limits and a few constants.",
 ["src/conv/from_int.rs"],[("normalisation shifts","src/conv/from_int.rs")],["From<iN>, From<uN> for f256"])
p("C15","Conversion from f32 and f64 is exact",
 "For every f32 and f64, f256::from(f) has exactly the same value, sign and class: subnormal inputs become the equal normal value, signed zeros and infinities are kept, NaN becomes NaN.",
 I,"all 2^32 f32 values and 2^64 f64 values",
 "Tests check a few dozen values; subnormal normalisation depends on the position of the leading bit.",
 ["src/conv/from_float.rs"],[("field extraction and subnormal normalisation","src/conv/from_float.rs")],["From<f32>, From<f64> for f256"])
p("C16","Parsing a decimal literal yields the correctly rounded value",
 "For every syntactically valid decimal literal of any length and exponent, parsing returns the f256 nearest to the literal's exact value (ties to even), with gradual underflow, underflow to zero, overflow to infinity and the literal's sign, including the sign of zero.",
 I,"all valid literals: short and very long digit strings, leading/trailing zeros, any position of the radix point, exponents over the whole i32 range and beyond, exact halfway points and their closest neighbours, subnormal range",
 "Three algorithms (exact, approximate with error check, slow) must agree with exact rounding for unboundedly many strings; most upstream data files are missing and hard halfway cases cannot be hit by chance.",
 ["src/conv/from_str/","src/conv/big_decimal.rs"],[("fast_exact, fast_approx, slow_exact and the choice between them","src/conv/from_str/"),("literal scanner","src/conv/from_str/float_repr.rs")],["FromStr, TryFrom<&str>, Num::from_str_radix"])
p("C17","The parser accepts exactly the grammar f64 accepts and never panics",
 "For every string, f256 parsing terminates without panic and succeeds exactly when f64 parsing of the same string succeeds (sign, digits with optional point, exponent, inf/infinity/nan case-insensitively), yielding the same class (NaN, infinite, finite) and sign up to the larger range (the sign of a NaN is not significant), and otherwise an error with the same kind and message as f64's. FromStr, TryFrom<&str> and Num::from_str_radix(_, 10) agree.",
 I,"all UTF-8 strings, including empty, only signs/points/exponent markers, embedded non-digits at every offset of the 8-byte scanning windows, non-ASCII and very long strings",
 "The language is infinite, and the scanner reads 8 and more bytes at a time with unchecked accesses; tests list a few dozen literals.",
 ["src/conv/from_str/float_repr.rs","src/conv/from_str/common.rs","src/conv/from_str/mod.rs","src/num_traits.rs"],
 [("chunked digit scanner","src/conv/from_str/common.rs"),("special-value and exponent parser","src/conv/from_str/float_repr.rs")],["FromStr, TryFrom<&str>, Num::from_str_radix"])
p("C18","Formatting with an explicit precision is correctly rounded",
 "For every finite value and every precision N up to 75 (the documented limit), {:.N}, {:.Ne} and {:.NE} print the exact decimal expansion of the value correctly rounded (half to even) to N fractional digits, with exactly N digits after the point, the right sign and the right exponent.",
 I,"all finite values x precisions from 0 to 75, exact ties, runs of nines that carry into a new digit, values far below the precision",
 "Carry and tie propagation over digit chunks depends on value and precision jointly; the tables needed are absent from the checkout, so upstream's tests for it cannot even run.",
 ["src/conv/to_str/to_fixed_prec.rs","src/conv/to_str/dec_repr.rs","src/conv/to_str/mod.rs","src/conv/to_str/common.rs"],
 [("chunked exact decimal generation and round-up","src/conv/to_str/to_fixed_prec.rs")],["Display, LowerExp, UpperExp with precision"])
p("C19","Shortest formatting round-trips and is minimal",
 "For every finite value, {} , {:e} and {:E} without precision print a literal that parses back to exactly the same bits. No shorter digit string inside the rounding interval would do, and among the shortest ones it is the closest to the value (ties between equally close ones are open).",
 I,"all finite f256 values, including binade boundaries (asymmetric interval), subnormals, integers, powers of ten and two",
 "Ryu-style table-driven digit generation is right or wrong per value; the lookup tables are absent from the checkout so the upstream tests cannot run at all.",
 ["src/conv/to_str/dec_repr.rs","src/conv/to_str/powers_of_five.rs","src/conv/to_str/mod.rs"],
 [("shortest-interval digit search","src/conv/to_str/dec_repr.rs")],["Display, LowerExp, UpperExp"])
p("C20","Width, fill, alignment and sign flags lay out numbers as for f64",
 "For every value and every combination of width, fill, alignment, + and 0 flags, the output of Display, LowerExp and UpperExp is laid out by the same rules f64 formatting follows: minimum width in characters, numbers right-aligned by default, sign-aware zero padding for all values but NaN, + before non-negative non-NaN values; NaN prints without sign, and fill characters are honoured for it as well.",
 I,"all values x all combinations of format flags, including multi-byte fill characters, widths below and above the natural length, and special values",
 "The flag space times value classes is a product tests do not enumerate.",
 ["src/conv/to_str/formatted.rs","src/conv/to_str/mod.rs"],[("pad_parts, sign handling","src/conv/to_str/")],["fmt::Formatter output"])
p("C21","Sine, cosine and tangent are accurate for every finite argument",
 "For every finite x, sin and cos return the exact value to within 0.51 ulp (1 ulp where the result's magnitude is near 2^-118) and tan to within 2 ulp, whatever the magnitude of x. sin_cos(x) equals (sin(x), cos(x)); sin and tan are odd and cos is even, bit for bit; results of sin and cos never exceed 1 in magnitude.",
 I,"all finite f256 arguments from the smallest subnormal to MAX, in particular those extremely close to multiples of pi/2 and at the boundaries between the reduction methods",
 "Argument reduction fails only for arguments near multiples of pi/2 or in particular exponent ranges; all upstream random data files for these functions are missing.",
 ["src/math/circular_fns/","src/math/fp509.rs","src/math/big_float.rs"],
 [("range reduction (fixed point, FMA, Payne-Hanek)","src/math/circular_fns/reduce.rs"),("Taylor evaluation","src/math/circular_fns/approx_*.rs")],["f256::sin, cos, tan, sin_cos"])
p("C22","Inverse trigonometric functions are accurate on their whole domain",
 "asin, acos and atan return the exact value to within 0.51 ulp (1 ulp near arguments of magnitude 2^-118) for every argument in their domain and NaN outside of it; atan2(y, x) returns the angle of the point (x, y) in the right quadrant to within 1 ulp for all operand classes f64::atan2 accepts. asin and atan are odd bit for bit and results stay in the documented ranges.",
 I,"all f256 arguments (pairs for atan2): tiny, near 1 from below, exactly 1, subnormal and huge arguments, all quadrants and axis directions",
 "Cancellation near 1 and table segment switches affect narrow argument regions; the upstream data files are missing and atan2 has a handful of tests.",
 ["src/math/circular_fns/asin_acos.rs","src/math/circular_fns/atan.rs","src/math/circular_fns/approx_atan.rs","src/math/big_float.rs"],
 [("table + series atan","src/math/circular_fns/approx_atan.rs"),("quadrant mapping","src/math/circular_fns/atan.rs")],["f256::asin, acos, atan, atan2"])
p("C23","Logarithms are accurate for every positive argument",
 "For every positive finite x, ln returns the exact value to within 0.51 ulp and log2 and log10 to within 1 ulp. log2 is exact for powers of two, log10 is exact for powers of ten that are representable, ln(1) is +0.",
 I,"all positive finite f256 values including subnormals, values next to 1 on both sides, powers of two and ten and their neighbours",
 "Cancellation next to 1 and table-driven digit-by-digit evaluation need inputs no test has; the data file for ln is missing and log2/log10 have a few spot checks.",
 ["src/math/log.rs","src/math/feynman.rs","src/math/fp509.rs"],[("Feynman's algorithm with 492-entry table","src/math/feynman.rs"),("scaling by ln 2 and base conversion","src/math/log.rs")],["f256::ln, log2, log10"])
p("C24","Degree/radian conversion is accurate over the whole range",
 "For every finite x, to_radians returns x*pi/180 (with the exact pi) to within 0.501 ulp and to_degrees x*180/pi to within 1.1 ulp, keeping the sign of x, with gradual underflow and overflow to infinity.",
 I,"all finite f256 values from subnormal to MAX",
 "Tests check five constants.",
 ["src/lib.rs","src/math/big_float.rs"],[("extended-precision multiplication","src/lib.rs to_degrees/to_radians, src/math/big_float.rs")],["f256::to_degrees, to_radians"])
p("C25","All operator forms and trait views agree with the by-value operator",
 "For all operands, including special values, every reference and assignment form of + - * / % and unary minus gives bit-identical results (NaN for NaN) to the by-value form, x - y equals x + (-y), and the num-traits Zero/One/Num views agree with the inherent constants, comparisons and parser.",
 I,"all operand pairs x all operator forms",
 "The forms are generated by macros; tests try each form on one pair of operands.",
 ["src/binops/mod.rs","src/num_traits.rs","src/lib.rs"],[("operator forwarding macros","src/binops/mod.rs"),("num-traits impls","src/num_traits.rs")],["operator traits, num_traits::{Zero, One, Num}"])
p("C26","No public operation panics, overflows internally or has undefined behaviour",
 "On every input, every implemented public operation terminates normally: no panic, no failed internal assertion, no arithmetic overflow, no out-of-bounds or uninitialised access and no other undefined behaviour, both in release builds and in builds with debug assertions and overflow checks. The only documented panics are clamp with min > max or a NaN bound and formatting with a precision above 75.",
 ["inputs","configurations"],"all public operations x all inputs x {release, debug-assertions + overflow-checks, address sanitizer, Miri}",
 "The project's test run uses the release profile, where internal assertions and overflow checks are off, and no run uses a sanitizer or Miri although the parser and formatter use unsafe code.",
 ["src/"],[("internal debug assertions","src/**"),("unsafe blocks","src/conv/from_str/common.rs, src/conv/to_str/dec_repr.rs, src/conv/to_str/to_fixed_prec.rs, src/lib.rs")],["process exit, panic payloads, sanitizer and Miri reports"])
p("C27","Results do not depend on build profile, features or threads",
 "The same sequence of operations on the same inputs gives bit-identical results (and identical text) in every supported configuration: with and without optimisation, debug assertions, the std and num-traits features, on the interpreter of Rust's abstract machine, when repeated, and when run concurrently from several threads.",
 ["inputs","configurations","schedules"],"all operation/input sequences x build configurations x thread schedules",
 "Each test runs in one configuration and one thread; nothing compares configurations.",
 ["src/","Cargo.toml"],[("cfg/feature gates, wrapping vs checked arithmetic","src/**")],["recorded (operation, operands, result) logs compared across configurations"])
p("C28","Numeric limits and mathematical constants have the documented values",
 "MAX, MIN, MIN_POSITIVE, MIN_GT_ZERO, EPSILON and the exponent and digit limits equal the values implied by the binary256 format, and every constant in consts is the correctly rounded value of the number its name denotes.",
 I,"every public constant of the crate",
 "No test compares the mathematical constants with an independent computation.",
 ["src/lib.rs","src/consts.rs"],[("hard-coded bit patterns","src/consts.rs, src/lib.rs")],["f256 associated constants, f256::consts"])
p("C29","Algebraic laws hold along chains of operations",
 "Along every sequence of operations whose operands are earlier results, the exact laws of correctly rounded arithmetic hold: commutativity, sign symmetry, monotonicity, Sterbenz exactness, exact error-free splits (two-sum and two-product residuals are representable and exact), x % y consistent with division, print-then-parse identity, and scaling invariance under powers of two.",
 ["histories","inputs"],"all operation histories over f256 registers seeded with arbitrary values",
 "Operands produced by earlier operations (rounded, cancelled, subnormal, denormalised by underflow) form patterns that hand-picked literals do not contain.",
 ["src/"],[("all arithmetic paths in composition","src/**")],["register traces of random straight-line programs"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
