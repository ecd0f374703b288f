SPECIFICATION Spec
INVARIANTS Emit Total
PROPERTIES NeverGrow
