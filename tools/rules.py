# the rule each property's obligations are decided by (evidence "rule")
RULE = {
 'C01': 'on every abstract path of add_to from operands of each group shape and sign: Ok implies sum(res groups) - lhs - rhs reduces to the zero polynomial (carry definitions expanded), Err only if the exact sum needs more groups than fit',
 'C02': 'as C01 for sub_to with lhs - rhs',
 'C03': 'mul_to: lhs*rhs - res is the zero polynomial when nothing is truncated, and bounded by the contract (< 16 units of the last kept digit, towards zero) when it is; Err(Overflow) exactly by the digit-count rule',
 'C04': 'div_to: quotient = floor(lhs*10^k/rhs) at the contracted scale, shown through the chain of digit equations u = q*d + r, 0 <= r < d of the loop',
 'C05': 'rem_to: lhs - rem is an integer multiple of rhs, |rem| < |rhs|, sign of the dividend, scale max of the operands',
 'C06': 'round/round_to: |res - d| <= half a unit of the target place, ties away from zero, decided with the group split at the dropped digit',
 'C07': 'cmp/eq/partial_cmp and the operators return the sign of lhs - rhs on every path (total order and consistency follow)',
 'C08': 'the words fed to the hasher by a decimal and by any zero-padded equal decimal are equal, word by word and in number',
 'C09': 'every output byte equals the digit at its position of the exactly scaled value; length, sign and point as contracted',
 'C10': 'from_bytes_str: Ok and value of the result equals digits * 10^exp as a polynomial in the digit bytes',
 'C11': 'a text with an offending byte, or outside the supported size, leads to Err on every path',
 'C12': 'From<i64>/From<u64>: value of the result equals the source integer as a polynomial in its base-10^9 digits',
 'C13': 'as_i64/as_u64: Ok(v) iff in range, v equals the rounded value',
 'C14': 'no abstract path from valid operands reaches a panic, an arithmetic overflow check, an out-of-bounds access or an unsafe precondition violation',
 'C15': 'every Ok result is a valid decimal: groups 0..999999999, unused groups zero, digits below the scale zero, no negative zero, digit counts within bounds',
 'C16': 'the operator reaches the same function as the fallible operation with the same arguments and returns its result or panics with it',
 'C17': 'no branch depends on, and no result group or count contains, a variable standing for the destination\'s previous content',
 'C18': 'no construct reachable on a returning path from any crate function is a mutable, interior-mutable, thread-local or foreign static, a volatile or atomic access, inline assembly or a foreign call other than the allocator; the type is plain data; no write reaches an object passed by shared reference',
 'C19': 'the bytes already in the buffer are unchanged and the appended ones do not depend on them',
 'C20': 'parsing the rendered text gives back value, scale and sign',
 'C21': 'constructors, setters and accessors give exactly the contracted fields',
 'C22': 'Err is returned exactly in the contracted cases and of the contracted kind, and leaves the destination zero',
}
