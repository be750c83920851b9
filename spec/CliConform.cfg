INIT XInit_
NEXT XNext_
VIEW View
CONSTANTS
    Inputs <- Traces
INVARIANTS Explained FailureIsClean SuccessMakes SourcesStay NoObjLeft
PROPERTIES ForwardC
CHECK_DEADLOCK FALSE
