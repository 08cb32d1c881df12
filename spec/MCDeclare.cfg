SPECIFICATION Spec
INVARIANTS Order Dual Alternation
