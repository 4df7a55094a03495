SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2}
 Args = {x, y}
 Pieces = 2
 MaxCalls = 1
 Discipline = "always"
 Scratch = "own"
 None = None
INVARIANTS Alone Complete
PROPERTIES NotRewritten Stays Progress
CHECK_DEADLOCK FALSE
