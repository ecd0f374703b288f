SPECIFICATION Spec
INVARIANTS Emit NeverWithoutInterval CountRight OnlyAtWindowEnds WindowShort ConstantConverges
