CONSTANT Vers = {4, 5}
SPECIFICATION Spec
INVARIANTS Universe RoundTrip Sizes PrefixesAsk Limits NeverMisread Rewritable
POSTCONDITION Export
CHECK_DEADLOCK FALSE
