SPECIFICATION Spec
INVARIANTS Emit NoDuplicates Balanced
PROPERTIES OrderKept
