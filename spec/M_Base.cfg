SPECIFICATION Spec
INVARIANTS NatOK HashOK LongHashOK CurveOK VectorsOK
CHECK_DEADLOCK FALSE
