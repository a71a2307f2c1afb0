SPECIFICATION Spec
INVARIANTS RoundTrip NoLoss Consumed
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS MaxTables = 4
 MaxRows = 3
