SPECIFICATION Spec
INVARIANTS Emit Monotone
