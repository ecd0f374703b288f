SPECIFICATION Spec
INVARIANTS Emit Once Framed
PROPERTIES Frozen
