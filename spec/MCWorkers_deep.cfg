SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2, t3}
 Args = {x, y}
 Pieces = 2
 MaxCalls = 1
 Discipline = "once"
 Scratch = "own"
 None = None
INVARIANTS Alone Complete
PROPERTIES NotRewritten Stays Progress
CHECK_DEADLOCK FALSE
