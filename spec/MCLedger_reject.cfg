SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2}
 Blocks = {1, 2}
 Sizes = {1}
 Total = 4
 Variant = "reject"
INVARIANTS Accounted OnceOnly Bounded
PROPERTIES HeldStays
CHECK_DEADLOCK FALSE
