T='abstract interpretation of the compiler MIR (polynomial/interval domain, trace partitioning)'
S='Sound over all operands up to the trusted base: every group shape and sign, group contents symbolic.'
L=' Division and remainder are covered for all shapes of divisors whose significant part is a single 9-digit group (and for zero operands); longer divisors for a fixed list of shape pairs.'
L1=' Division and remainder are covered for divisors whose significant part is a single 9-digit group (and for zero operands); longer divisors are not.'
CLAIM={
'C01':(T,S),
'C02':(T,S),
'C03':(T,S),
'C06':(T,S+' The rounding unit is decomposed at the dropped digit.'),
'C07':(T,S),
'C08':(T,'Canonical and zero-padded records of every value are shown to feed the hasher identically.'),
'C09':(T,S+' Requested digit counts from the smallest to 40 symbolic, samples up to 300 and above 400 followed to the first 400 characters.'),
'C10':(T,'Well-formed literals partitioned by digit counts and exponent; digits symbolic.'),
'C11':(T,'Malformed and oversized literals partitioned by the position and kind of the offending byte; bytes and the rest of the text symbolic.'),
'C12':(T,'All integers of each type, split into boxes by magnitude and sign.'),
'C13':(T,S),
'C14':(T,S+' '+L1),
'C15':(T,S+' Induction over single operations.'+L1),
'C16':('relational analysis of the compiler MIR: the common in-crate callee is an uninterpreted function','Operator and fallible operation are shown to reach the same in-crate function with the same arguments and to deliver its result.'),
'C17':(T,'The destination holds unconstrained bytes; the result may not depend on them.'+L1),
'C19':(T,S+' Same requested digit counts as C09; the buffer has unknown earlier contents.'),
'C20':(T,S),
'C21':(T,S),
'C22':(T,S+L1),
'C18':('effect analysis over the call graph of the compiler MIR; structural type rule; abstract interpretation for operand writes','Every crate function and everything it can reach on a path to a normal return is examined for global, thread-local, interior-mutable or foreign state; the decimal type is decomposed to its fields; operands taken by shared reference are read-only objects in the interpretation.'+L1),
'C04':(T,S+L),
'C05':(T,S+L),
}
NA={}
