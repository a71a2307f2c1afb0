SPECIFICATION Spec
INVARIANTS RoundTrip NoLoss Consumed
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS MaxTables = 3
 MaxRows = 2
