SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2}
 Blocks = {1, 2, 3}
 Sizes = {1, 2}
 Total = 6
 Variant = "right"
INVARIANTS Accounted OnceOnly Bounded
PROPERTIES HeldStays GivenBack
CHECK_DEADLOCK FALSE
