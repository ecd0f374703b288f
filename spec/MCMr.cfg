SPECIFICATION Spec
INVARIANTS Emit CleanUp InputThere
