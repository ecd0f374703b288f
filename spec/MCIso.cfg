SPECIFICATION Spec
INVARIANTS Emit ResultsStable Functional InputsKept
