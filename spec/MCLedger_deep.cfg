SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2, t3}
 Blocks = {1, 2, 3}
 Sizes = {1, 2}
 Total = 7
 Variant = "right"
INVARIANTS Accounted OnceOnly Bounded
PROPERTIES HeldStays GivenBack
CHECK_DEADLOCK FALSE
