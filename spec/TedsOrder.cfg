SPECIFICATION Spec
INVARIANTS Antisymmetric Transitive Equivalence Compatible CodeAgrees
CHECK_DEADLOCK FALSE
