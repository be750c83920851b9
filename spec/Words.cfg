INIT Init
NEXT Next
INVARIANTS Small_ EdgesOk Floats Texts
CHECK_DEADLOCK FALSE
