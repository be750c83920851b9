INIT CInit
NEXT CNext
VIEW View
CONSTANTS
    Inputs <- Traces
    Fuel <- FuelC
INVARIANTS NoSilentFailure TokensInOrder LocationsExist StoreTyped OnlyAcceptedRun
PROPERTIES ConstStays NamesStable EventsGrow
CHECK_DEADLOCK FALSE
