---------------------------- MODULE MCTransform ----------------------------
(* Laws of the layout transforms, for every shape and layout in the bounds.  *)
EXTENDS Transform
CONSTANT B
VARIABLES sh, L
Init == sh \in {<<h, w>> : h, w \in 1..B} /\ L \in {<<a, b>> : a, b \in 1..B}
Next == UNCHANGED <<sh, L>>
Lab(shape) == Arr(shape, [p \in 1..Size(shape) |-> ToString(p)])
Cube == Lab(<<L[1] * L[2]>> \o sh)
Map == Lab(<<L[1] * sh[1], L[2] * sh[2]>>)
SqMap == Lab(<<L[1] * sh[1], L[2] * sh[1]>>)
RoundTripCube == Map2Cube(Cube2Map(Cube, L), L) = Cube
RoundTripMap == Cube2Map(Map2Cube(Map, L), L) = Map
RoundTripMatrix == Matrix2Cube(Cube2Matrix(Cube), sh) = Cube
RoundTripMapMatrix == Matrix2Map(Map2Matrix(SqMap, L), SqMap.shape) = SqMap
ViaCube == Map2Matrix(SqMap, L) = Cube2Matrix(Map2Cube(SqMap, L))
RotInvolution == Rotate(Rotate(Map)) = Map /\ RotateStack(RotateStack(Cube)) = Cube
TransposeInverse == \A r \in -2..2 : FancyTranspose(FancyTranspose(Cube, r), -r) = Cube
Laws == /\ RoundTripCube /\ RoundTripMap /\ RoundTripMatrix /\ RoundTripMapMatrix /\ ViaCube
        /\ RotInvolution /\ TransposeInverse
============================================================================
