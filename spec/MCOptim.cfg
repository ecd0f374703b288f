SPECIFICATION Spec
INVARIANTS Stays Converges Descends ClosedForm
