INIT Init
NEXT Next
VIEW View
CONSTANTS
    Inputs <- Traces
PROPERTIES Learned
CHECK_DEADLOCK FALSE
