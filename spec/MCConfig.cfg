SPECIFICATION Spec
INVARIANTS Emit Monotone DefaultsValid
