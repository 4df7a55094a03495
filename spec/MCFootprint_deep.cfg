SPECIFICATION Spec
CONSTANTS Cells = 3
 MaxCalls = 3
INVARIANTS GuardsIntact NoWildRead OnlyOutputChanges
PROPERTY KeptStays
CHECK_DEADLOCK FALSE
