SPECIFICATION Spec
CONSTANTS Cells = 2
 MaxCalls = 2
INVARIANTS GuardsIntact NoWildRead OnlyOutputChanges
PROPERTY KeptStays
CHECK_DEADLOCK FALSE
