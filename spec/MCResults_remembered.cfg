SPECIFICATION Spec
CONSTANTS Calls = {1, 2, 3}
 MaxReturned = 4
 Policy = "remembered"
 Junk = Junk
INVARIANTS Kept Same
CHECK_DEADLOCK FALSE
