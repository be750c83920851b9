INIT EInit
NEXT ENext
VIEW View
CONSTANTS
    Inputs <- Traces
    Fuel <- FuelC
INVARIANTS NoSilentFailure StoreTyped OnlyAcceptedRun StaysTyped
PROPERTIES ConstStays EventsGrow StackEmpty
CHECK_DEADLOCK FALSE
