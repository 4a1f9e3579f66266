#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
I="include/ieme/"
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=list(observe),hook_needed=None)))

TYPES="every supported integer representation (signed and unsigned)"
p("C01","Addition and subtraction are exact",
 "Adding or subtracting two fractions, or a fraction and an integer in either order, yields a fraction whose value is exactly the rational sum or difference of the operands, whatever the signs and common factors of numerators and denominators. This holds under every operation policy, whenever the rescaled operands and the result fit the integer representation.",
 "all operand pairs with non-zero denominators whose policy-natural intermediates fit, x all operation policies x all operand forms x "+TYPES,
 "Tests sample a handful of small operands for two reps; they cannot reach all operand pairs, all sign patterns of denominators, large magnitudes or every policy/form combination.",
 ["ops.hpp","fraction.hpp"],[("safe/fast plus and minus","include/ieme/ops.hpp"),("reduced_input / reduced_output wrappers","include/ieme/ops.hpp"),("operator+ and operator-","include/ieme/fraction.hpp")],observe=["numerator()/denominator() of the returned fraction"])
p("C02","Multiplication, division and negation are exact",
 "Multiplying or dividing two fractions, or a fraction and an integer in either order, and negating a fraction, yields exactly the rational product, quotient or opposite of the operands' values. This holds under every operation policy whenever the products that the policy needs fit the integer representation.",
 "all operand pairs (non-zero denominators, non-zero divisor) whose products fit x all policies x all forms x "+TYPES,
 "Same as C01: an unbounded operand space times eight policies times three forms; tests sample a few points.",
 ["ops.hpp","fraction.hpp"],[("multiplies, divides, negate of each policy","include/ieme/ops.hpp"),("operator* and operator/","include/ieme/fraction.hpp")],observe=["numerator()/denominator() of the returned fraction"])
p("C03","Remainder is the exact truncated-division remainder",
 "The remainder of two fractions, or of a fraction and an integer in either order, equals exactly left - q*right where q is the rational quotient left/right truncated toward zero. This holds under every operation policy whenever the rescaled operands fit the integer representation.",
 "all operand pairs (non-zero denominators, non-zero divisor) x all policies x all forms",
 "The tests use a few positive operands; sign combinations, unreduced operands and large values are unbounded.",
 ["ops.hpp","fraction.hpp"],[("modulus of each policy","include/ieme/ops.hpp"),("operator%","include/ieme/fraction.hpp")])
p("C04","Comparisons agree with rational order",
 "For defined operands each of ==, !=, <, <=, > and >= between two fractions, or a fraction and an integer in either order, holds exactly when the corresponding relation holds between the rational values, including for negative or unreduced denominators. This holds under every operation policy whenever the policy's rescaled operands fit the integer representation.",
 "all operand pairs x six relations x three forms x all policies",
 "Order laws quantify over all pairs; tests compare a few fixed pairs, nearly all with positive denominators.",
 ["ops.hpp","fraction.hpp"],[("equal_to .. greater_equal of each policy","include/ieme/ops.hpp"),("comparison operators","include/ieme/fraction.hpp")])
p("C05","Reduction yields the canonical lowest-terms form",
 "Reducing a defined fraction preserves its value and yields coprime numerator and denominator, with a positive denominator when signs are normalised and with the signs of both components kept when signs are ignored; two equal values therefore reduce to identical components and reducing twice changes nothing. Reducing an undefined fraction yields 0/0.",
 "all numerators and denominators of representable magnitude, both sign modes, raw and wrapped fractions",
 "Needs gcd reasoning over all component pairs; tests check a few pairs.",
 ["raw_fraction_math.hpp","fraction_math.hpp"],[("reduce, reduce_ignore_signs, reduce_normalize_signs, normalize_signs","include/ieme/raw_fraction_math.hpp")])
p("C06","Reducing policies always return canonical results",
 "Under a policy that reduces its outputs, every sum, difference, product, quotient, remainder and negation of fractions and integers comes back in lowest terms with a positive denominator (or, for the sign-ignoring mode, in lowest terms), and an undefined result comes back as 0/0. The default policy is such a policy.",
 "all operands whose intermediates fit x all output-reducing policies x all operations and forms",
 "An invariant on every result of every operation; tests look at individual results.",
 ["ops.hpp"],[("reduced_output","include/ieme/ops.hpp")])
p("C07","Undefined fractions propagate and never crash",
 "An arithmetic operation with an undefined (zero-denominator) operand, a division by zero and a remainder by zero all complete normally and yield an undefined fraction under every policy. Every comparison with an undefined operand is false except !=, which is true.",
 "all operand pairs with at least one zero denominator or a zero divisor, whose rescaled operands or products fit, x all policies, operations and forms",
 "Tests exercise undefined operands only for a few comparisons; a single unchecked division by the least common multiple traps the process.",
 ["ops.hpp","raw_fraction_math.hpp","raw_fraction_queries.hpp"],[("undefined handling in each policy","include/ieme/ops.hpp"),("is_undefined guard in reduction","include/ieme/raw_fraction_math.hpp")])
p("C08","Rounding to whole numbers is exact",
 "Truncation yields the integer part toward zero, ceiling the least integer not below the value, floor the greatest integer not above it, and rounding the floor of the value plus one half, for every defined fraction including those between -1 and 1 and with negative denominators; the mode-selected conversion agrees with the four functions.",
 "all defined fractions whose rounding intermediates fit x four modes x policies",
 "Tests sample a few values; the interval between -1 and 0, exact integers, ties and negative denominators are classes the samples miss.",
 ["fraction_math.hpp"],[("trunc, ceil, floor, round, to_whole","include/ieme/fraction_math.hpp")])
p("C09","Redenomination lands on the correct neighbouring multiple",
 "Re-expressing a fraction over a requested non-zero denominator yields exactly that denominator and, per mode, the multiple of its reciprocal that is nearest toward zero, not below, not above, or nearest (within half a step) to the value, also for negative denominators; values that are already such multiples are preserved exactly.",
 "all defined fractions x all non-zero new denominators whose product fits x four modes",
 "Two unbounded integers and four modes; tests sample a few.",
 ["fraction_math.hpp"],[("redenominate and the four *_redenominate functions","include/ieme/fraction_math.hpp")])
p("C10","Integer powers are exact",
 "Raising an integer base, or two, to a positive, zero or negative integer exponent yields exactly the rational power (the reciprocal power for a negative exponent, an undefined fraction for zero to a negative exponent) whenever the power of the base fits the representation. No intermediate overflows in that case and the computation terminates.",
 "all bases and exponents (of representable magnitude) whose power fits",
 "Induction over the exponent; tests use a few exponents.",
 ["math_utilities.hpp","fraction_math.hpp"],[("pow2, pow recursion","include/ieme/math_utilities.hpp"),("pow2, pow","include/ieme/fraction_math.hpp")])
p("C11","Mixed numbers keep a canonical whole and fractional part",
 "A mixed number built from a whole and a fractional part, or from a fraction, has exactly the value given, a fractional part of magnitude below one, and a fractional part whose sign does not oppose the sign of the whole part. This holds for every defined input whose sum fits the representations.",
 "all whole parts and fractions (defined, any signs, proper or improper) of representable size",
 "A representation invariant over all inputs; tests check a few sign combinations.",
 ["mixed_number.hpp"],[("constructors and sign fix-up","include/ieme/mixed_number.hpp")],state=[("whole part and fractional part","sum is the value, |fraction|<1, signs agree","include/ieme/mixed_number.hpp")])
p("C12","Mixed number arithmetic and conversion are exact",
 "Sums of mixed numbers with mixed numbers, fractions and integers in either order, and unary plus and minus, have exactly the rational value of the operation and are again canonical mixed numbers. Converting a fraction to a mixed number and back yields a fraction of equal value.",
 "all canonical mixed-number operands and fractions/integers whose whole and fractional sums fit under the policy",
 "Sign-crossing carries between whole and fractional parts depend on all operand combinations.",
 ["mixed_number.hpp"],[("operator+ overloads, unary operators, as_fraction","include/ieme/mixed_number.hpp")])
p("C13","Classification queries agree with the rational value",
 "The queries for defined, undefined, positive, non-negative, zero, non-positive, negative, integer, unit fraction, proper, improper and reduced answer exactly according to the rational value (for reduced: lowest terms and positive denominator) whatever the signs of numerator and denominator; value-sign queries are false for undefined fractions.",
 "all numerators and denominators whose magnitude is representable (a signed minimum is excluded)",
 "All sign/zero combinations with arbitrary magnitudes and gcds; tests sample.",
 ["raw_fraction_queries.hpp","fraction_queries.hpp"],[("is_* queries","include/ieme/raw_fraction_queries.hpp")])
p("C14","Absolute value, reciprocal and sign normalisation are exact",
 "Absolute value yields the non-negative fraction of equal magnitude, reciprocal exchanges numerator and denominator (so that applying it twice is the identity), and sign normalisation preserves the value while making the denominator non-negative. Component-wise identity comparison is true exactly when both components are equal, and difference is its negation.",
 "all representable fractions, policies",
 "Quantifies over all components and sign patterns.",
 ["fraction_math.hpp","raw_fraction_math.hpp","raw_fraction_queries.hpp"],[("abs, reciprocal, normalize_signs, are_identical, are_different","include/ieme/fraction_math.hpp")])
p("C15","Equal fractions have equal hashes",
 "Two fractions that compare equal have the same hash value, even when their components differ, and two mixed numbers with equal whole part and equal fractional value have the same hash. Hashing any fraction completes without failure, including undefined ones.",
 "all pairs of equal-valued fractions",
 "A relational property over pairs of inputs; tests hash single values.",
 ["hash.hpp"],[("hash, std::hash specialisations","include/ieme/hash.hpp")])
p("C16","Floating-point values convert to fractions exactly",
 "Converting a finite float or double yields a fraction whose value is exactly that of the floating-point number whenever that value is representable over the integer type with a power-of-two denominator and numerator magnitude, including zeros, negatives and large integers. NaN and infinities yield an undefined fraction, and no conversion of a representable value invokes undefined behaviour.",
 "all 2^32 float and 2^64 double bit patterns whose value is representable",
 "The whole bit-pattern space by exponent; tests convert a few constants.",
 ["floating_point.hpp"],[("sign/exponent/mantissa decomposition and scaling","include/ieme/floating_point.hpp")])
p("C17","Fractions convert to correctly rounded floating-point values",
 "Converting a defined fraction to float, double or long double yields the correctly rounded quotient of its lowest-terms components converted to that type, so equal fractions give identical results regardless of representation. Undefined fractions give NaN.",
 "all representable fractions x three floating types",
 "All component pairs; tests compare a few quotients.",
 ["floating_point.hpp"],[("reduce then divide in the target type","include/ieme/floating_point.hpp")])
p("C18","The literal parser accepts exactly the documented grammar, safely",
 "For every character sequence the floating-point string parser terminates, reads only inside the sequence, and accepts it exactly when it is a C++ decimal or hexadecimal floating-point literal body (optional digit separators, radix point and/or exponent, hexadecimal requiring an exponent). Every other sequence is reported as invalid and yields an undefined fraction.",
 "all strings of any length",
 "Unbounded strings; tests list a few dozen literals.",
 ["parse_utilities.hpp","floating_point.hpp"],[("scan_floating_point_string, is_valid_digit_sequence","include/ieme/parse_utilities.hpp")])
p("C19","Parsed floating-point strings have their exact rational value",
 "For every valid floating-point string whose whole part, fractional part in lowest terms, exponent, exponent power and their products in lowest terms fit the representation, the resulting fraction equals exactly the rational number the literal denotes: digit values in base ten or sixteen with separators ignored, scaled by ten or two to the written exponent. Leading zeros, trailing zeros and separator placement do not change the value.",
 "all valid strings whose components fit",
 "Unbounded digit sequences; tests sample a few.",
 ["parse_utilities.hpp","floating_point.hpp"],[("digit_sequence_to_int","include/ieme/parse_utilities.hpp"),("floating_point_string_to_fraction","include/ieme/floating_point.hpp")])
p("C20","Mixed-type operands and compound assignment match the plain operators",
 "An operation on operands of different integer representations behaves as if both were first converted to their common representation, so its value is exact whenever it fits there. Compound assignment stores into the left operand the same value as the corresponding binary operator after converting the right operand to the left's representation, returns the left operand, leaves the right operand unchanged, and works when both operands are the same object.",
 "all operand values x pairs of representations x operators",
 "Tests cover same-type operands almost exclusively, and never aliased operands over the input space.",
 ["fraction.hpp"],[("operator definition macros","include/ieme/fraction.hpp")])
p("C21","Fraction literals denote the written fraction",
 "Dividing an integer or a fraction by a denominator literal yields the fraction with that denominator (respectively the exact quotient), with unary plus and minus on the literal acting on the denominator's sign. A decimal literal yields exactly the written rational value and an invalid one raises an error instead of producing a value.",
 "all numerators and literal values that fit; all literal strings",
 "Tests try a few literals.",
 ["fraction_literals.hpp"],[("denominator_literal, operator/, operator\"\"_fr, operator\"\"_dec","include/ieme/fraction_literals.hpp")])
p("C22","Limits bound every representable fraction",
 "The reported maximum and minimum are the largest and smallest values any defined fraction of the representation can have (a signed minimum over minus one, whose value no component can hold, apart), the reported smallest value is the least positive value any defined fraction can have, and the reported undefined value is undefined. The standard numeric-limits queries agree with them.",
 "all fractions of the representation, every representation",
 "An extremality claim over all fractions; tests compare single constants.",
 ["limits.hpp"],[("limits, numeric_limits specialisations","include/ieme/limits.hpp")])
p("C23","Fractional durations and time points convert exactly",
 "Converting a standard duration or time point to its fractional counterpart keeps the tick count and period exactly, and converting fractional durations to another period scales the count by the exact ratio of the periods. No precision is lost as long as the scaled numerator and denominator of the count (reduced first under an input-reducing policy) fit.",
 "all tick counts x period pairs",
 "All counts; tests use a few constants.",
 ["chrono.hpp","fraction.hpp"],[("to_fractional, treat_as_floating_point, duration aliases","include/ieme/chrono.hpp")])
p("C24","Stream output and input round-trip components",
 "Writing a fraction emits its numerator, a slash and its denominator in that order to the stream given and returns that stream; reading consumes a numerator, skips up to and including the next slash, and consumes a denominator, storing both into the target. Hence a written fraction reads back with identical components.",
 "all component values",
 "All values of the components; tests use a few.",
 ["raw_fraction.hpp","fraction.hpp"],[("operator<<, operator>>","include/ieme/raw_fraction.hpp")])
p("C25","Construction and conversion preserve numerator and denominator",
 "Constructing a fraction from components, an integer, a raw fraction or a compile-time ratio, and converting between policies or to another representation that can hold both components, keeps numerator and denominator exactly (an integer gets denominator one, a default fraction is 0/1). Accessors read and write the corresponding component only.",
 "all component values x type and policy pairs",
 "All component values and type pairs; tests check a few.",
 ["fraction.hpp","raw_fraction.hpp"],[("constructors and accessors","include/ieme/fraction.hpp")])
p("C26","Safe and input-reducing policies avoid avoidable overflow",
 "Under the safe policy, addition, subtraction, remainder and comparison never overflow an intermediate as long as both operands rescaled to their least common denominator (and the result) fit the representation. Under input-reducing policies the outcome depends only on the operands' lowest terms, so large unreduced operands are handled exactly whenever their reduced forms are.",
 "all operand pairs at the edge of the representation x policies",
 "Overflow depends on exact magnitudes of intermediates over the whole range; tests use small numbers.",
 ["ops.hpp"],[("lcm-based rescaling in the safe policy","include/ieme/ops.hpp"),("reduction of operands before the operation","include/ieme/ops.hpp")])
if __name__=="__main__":
    d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d,"properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
