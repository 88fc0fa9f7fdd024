import json
P=[]
def p(id,title,st,over,text,why,files,funcs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=f,where=files[min(i,0)]) for i,f in enumerate(funcs)],observe_at=['public API result of '+f for f in funcs][:4],hook_needed=None)))
I=["inputs"]
V="every pair of valid decimals: any split of up to nine 9-digit groups into integral and (at most four) fractional groups, any sign, any group contents, leading zero groups included"
V1="every valid decimal: any split of up to nine 9-digit groups into integral and (at most four) fractional groups, any sign, any group contents"
A="src/arith.rs";D="src/decimal.rs";S="src/serde.rs";R="src/round.rs";C="src/cmp.rs";U="src/utils.rs"
p("C01","Addition is exact","Adding two decimals yields exactly their mathematical sum, with the larger of the two scales (when one operand is zero, the other operand with its own scale). It fails only with the overflow error, and only when the aligned operands need more than nine 9-digit groups (larger integral group count plus larger fractional group count) or the exact sum carries out of the ninth group.",I,V,"A handful of literal pairs is tested; carries, group alignment and the nine-group limit depend on every combination of group counts and contents.",[A,U],["FixedDecimal::add_to","FixedDecimal::sub_to"])
p("C02","Subtraction is exact","Subtracting two decimals yields exactly their mathematical difference, with the larger of the two scales (when one operand is zero: the other operand, negated if it is the subtrahend, with its own scale). It fails only with the overflow error, and only when the aligned operands need more than nine 9-digit groups or the exact difference carries out of the ninth group.",I,V,"A handful of literal pairs is tested; borrow chains, sign flips and group alignment depend on every combination of group counts and contents.",[A,U],["FixedDecimal::sub_to","FixedDecimal::add_to"])
p("C03","Multiplication is exact, or truncated toward zero at the group limit","Multiplying two decimals yields exactly their product with scale equal to the sum of scales whenever the product's fractional groups all fit (at most four fractional groups and nine groups in total). Otherwise fractional groups that do not fit are dropped: the result then never exceeds the exact product in magnitude, has the right sign, and is short of it by less than sixteen units of its last kept digit. It fails only with the overflow error, and only when the operands' integral digit counts add up to more than 81.",I,V,"Tests multiply a few literals; exactness is a bilinear identity over all group contents and truncation depends on every split of groups.",[A,U],["FixedDecimal::mul_to"])
p("C04","Division returns the truncated quotient","Dividing by a non-zero decimal yields the exact quotient truncated toward zero at the result's own scale, with the sign of the quotient (a zero result has no sign). The result's scale is a whole number of 9-digit groups: the operands' scales rounded up to groups, plus what is still needed of the requested extra digits, at most four groups and at most what the integral part leaves of nine groups. A zero dividend gives zero with scale 0.",I,V+", and every requested scale increment","Tests divide a few dozen literals; quotient-digit estimation and correction fail only for rare combinations of leading groups.",[A,U],["FixedDecimal::div_to"])
p("C05","Remainder is exact and has the sign of the dividend","The remainder of two decimals (non-zero divisor) equals dividend minus divisor times the quotient truncated to an integer, exactly: it has the dividend's sign, is smaller in magnitude than the divisor, and a non-zero remainder has the larger of the two scales.",I,V,"Tests use a few dozen literals; the long-division correction steps are reached only for rare combinations of groups.",[A,U,C],["FixedDecimal::rem_to"])
p("C06","Rounding is half away from zero, in place and into a destination alike","Rounding a decimal to n fractional digits (n may be negative, to round integral digits) yields exactly the multiple of 10^-n nearest to it, ties going away from zero, with scale n (0 when n is negative); for n at least the current scale the value is unchanged and the scale becomes n, limited to the fractional digits that fit (at most four groups, and at most what the integral groups leave of nine). Rounding in place and rounding into a destination give the same result, for every n however large or small.",I,V1+" x every requested scale","Tests round short literals at small scales; group boundaries, carry chains and integral rounding depend on every combination of scale, position and contents.",[R,U],["FixedDecimal::round","FixedDecimal::round_to"])
p("C07","Comparison and equality follow numeric value","Comparing two decimals gives the order of their numeric values, whatever their scales, group counts or leading and trailing zero groups; equality holds exactly for equal values, and partial comparison, equality and the comparison operators agree with the total order.",I,V,"Tests compare a few literals; the order must be right for every first differing group and every pair of group splits.",[C],["FixedDecimal::cmp","FixedDecimal::eq","FixedDecimal::partial_cmp"])
p("C08","Equal decimals hash equally","Two decimals that compare equal feed identical data to any hasher, whatever their scales, digit counts and leading or trailing zero groups.",I,V,"The test hashes two pairs of literals; the contract quantifies over all pairs of equal values with different representations.",[D,C],["FixedDecimal::hash"])
p("C09","Rendering is exact","Rendering a decimal gives an optional minus sign (negative values only), its integral digits without leading zeros (at least one digit), and, for a non-negative requested scale n>0, a point and exactly n fractional digits truncated or zero-extended; with a negative request all digits of its own scale, and no point when that is zero.",I,V1+" x every requested scale","Tests print a few literals; digit-table lookups and leading-zero suppression depend on each digit position.",[S,U],["FixedDecimal::to_string","FixedDecimal::append_str_buf"])
p("C10","Parsing a well-formed literal is exact","Parsing [+-]digits[.digits][(e|E)[+-]digits] of at most 65 digits (after applying the exponent), at most 30 fractional digits and an exponent between -30 and 65 yields exactly the literal's value, with scale equal to the fractional digits left after applying the exponent (at least 0) and integral digit count as written.",I,"every literal of that form: every digit count, point position, sign, exponent and digit contents","Tests parse a list of literals; group splitting depends on every combination of digit counts, point position and exponent.",[S,U],["FixedDecimal::from_bytes_str","FixedDecimal::from_ascii_str","FixedDecimal::from_str"])
p("C11","Malformed or oversized text is rejected with a syntax error","Parsing any byte sequence that is not a well-formed literal, or whose digits, scale or exponent exceed the limits (65 digits, 30 fractional digits, exponent -30..65), fails with the conversion syntax error, never panics, and leaves the destination zero when it was asked to reset and untouched otherwise.",I,"every byte sequence of any length and content","Tests try a few malformed strings; lengths, byte values and positions are unbounded.",[S],["FixedDecimal::from_bytes_str","FixedDecimal::from_ascii_str","FixedDecimal::from_str"])
p("C12","Conversion from 64-bit integers is exact","Converting any signed or unsigned 64-bit integer gives a decimal of scale 0 with exactly that value, including the extreme values.",I,"every i64 and every u64","Tests convert a few integers; group splitting and the extreme values quantify over all 2^64 inputs.",[D],["FixedDecimal::from"])
p("C13","Conversion to 64-bit integers is exact or a range error","Converting to a signed or unsigned 64-bit integer gives the value rounded half away from zero, and fails with the range error exactly when the unrounded value lies outside the target type's range (for unsigned: any negative value).",I,V1,"Tests convert a few literals near the limits; the boundary lies in a specific combination of groups and fraction digits.",[D,R,C],["FixedDecimal::as_i64","FixedDecimal::as_u64"])
p("C14","No operation panics on valid decimals","Parsing, rendering, comparing, hashing, converting, rounding and the fallible arithmetic never panic, overflow an integer or read outside their storage for any input; the only exception is rounding a value whose rounded result does not fit nine 9-digit groups at the requested scale.",I,V+"; every byte sequence; every scale argument","Panics come from index arithmetic and narrowing at particular group counts that the tested literals never reach.",[A,C,D,R,S,U],["FixedDecimal::add_to","FixedDecimal::sub_to","FixedDecimal::mul_to","FixedDecimal::div_to","FixedDecimal::rem_to","FixedDecimal::round","FixedDecimal::round_to","FixedDecimal::from_bytes_str","FixedDecimal::append_str_buf"])
p("C15","Every operation produces a valid decimal","Every decimal produced by parsing, conversion, rounding or successful arithmetic from valid decimals is valid: groups within 0..999999999, at most nine groups of which at most four fractional, all groups beyond its digit counts zero, all digits below its scale zero, no integral digit beyond its integral digit count, and never a negative zero.",["inputs","histories"],V+"; every sequence of operations (by induction over single operations)","An invalid intermediate only surfaces in a later operation; tests check printed results of single operations.",[A,D,R,S],["FixedDecimal::add_to","FixedDecimal::sub_to","FixedDecimal::mul_to","FixedDecimal::div_to","FixedDecimal::rem_to","FixedDecimal::round","FixedDecimal::round_to","FixedDecimal::from_bytes_str","FixedDecimal::from","FixedDecimal::set_neg"])
p("C16","Operators agree with the fallible operations","The operators + - * / % give exactly the result the corresponding fallible operation gives (division with four extra fractional digits requested), and panic exactly when that operation returns an error.",I,V,"Tests compare them on the same few literals; delegation must hold on every input including every error case.",[A],["FixedDecimal::add","FixedDecimal::sub","FixedDecimal::mul","FixedDecimal::div","FixedDecimal::rem"])
p("C17","Results do not depend on the destination's previous content","Arithmetic, rounding into a destination and parsing with reset produce the same decimal whatever the destination held before.",["inputs","histories"],V+"; every previous content of the destination","Tests reuse one destination for a fixed list of literals; leftovers matter only for particular sequences of group counts.",[A,R,S,D],["FixedDecimal::add_to","FixedDecimal::sub_to","FixedDecimal::mul_to","FixedDecimal::div_to","FixedDecimal::rem_to","FixedDecimal::round_to","FixedDecimal::from_bytes_str"])
p("C18","Operations are pure and thread-safe","No operation reads or writes global, thread-local or interior-mutable state, performs input or output, or modifies an operand it takes by shared reference; decimals can be sent to and shared between threads, and are plain fixed-size values without heap storage.",["schedules","inputs","programs"],"every operation, every interleaving of operations on any threads","No test runs operations concurrently, and absence of shared state cannot be sampled.",[A,C,D,R,S,U],["FixedDecimal"])
p("C19","Rendered text is always valid ASCII and only appended","Everything rendering appends to a buffer is an ASCII digit, a minus sign or a decimal point, so the unchecked conversion to a string is sound; bytes already in the buffer are preserved.",I,V1+" x every requested scale x every previous buffer content","An invalid byte would come from a digit-table lookup outside its range at particular group contents.",[S,U],["FixedDecimal::to_string","FixedDecimal::append_str_buf"])
p("C20","Rendering then parsing returns the same decimal","Parsing the full rendering of any decimal with at most 65 digits and scale at most 30 succeeds and gives back a decimal with the same value, sign and scale.",I,"every decimal with up to 65 integral plus fractional digits, scale up to 30, any sign and contents","Tests round-trip a few literals; agreement of printer and parser quantifies over all digit layouts.",[S,U],["FixedDecimal::to_string","FixedDecimal::from_str"])
p("C21","Constants, accessors and sign changes are faithful","Zero and one have exactly those values with scale 0; setting zero or one overwrites any content; sign changes alter only the sign (never producing a negative zero); the zero test, sign test and digit/group count accessors report the stored value's properties.",I,V1,"These are used by every other operation with arbitrary contents; tests check only freshly built values.",[D,U],["FixedDecimal::zero","FixedDecimal::one","FixedDecimal::set_zero","FixedDecimal::set_one","FixedDecimal::set_neg","FixedDecimal::set_pos","FixedDecimal::is_zero","FixedDecimal::is_neg","FixedDecimal::intg","FixedDecimal::frac"])
p("C22","Arithmetic errors are the right ones and leave the destination zero","Division and remainder fail with the division-by-zero error exactly when the divisor is zero; remainder has no other error; addition, subtraction, multiplication and division otherwise fail only with the overflow error, division only when the quotient needs more than nine integral groups. Whenever a fallible arithmetic operation fails, its destination is zero.",I,V,"Tests check a few zero divisors; the overflow paths and the destination after an error are not examined.",[A],["FixedDecimal::add_to","FixedDecimal::sub_to","FixedDecimal::mul_to","FixedDecimal::div_to","FixedDecimal::rem_to"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
