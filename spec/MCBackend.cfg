SPECIFICATION Spec
INVARIANTS Emit Always
