INIT RInit
NEXT RNext
VIEW View
CONSTANTS
    Inputs <- Traces
    Fuel <- FuelC
INVARIANTS NoSilentFailure LocationsExist
CHECK_DEADLOCK FALSE
