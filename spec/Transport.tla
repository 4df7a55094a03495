------------------------------ MODULE Transport ------------------------------
(***************************************************************************)
(* What NNTP and other text transports require of an encoded message,      *)
(* stated over the output alone: a monitor that reads one character at a   *)
(* time.  Knows nothing about how the encoder works.                       *)
(*   n    characters on the current line so far (a column offset counts)   *)
(*   prev previous character                                               *)
(*   esc  prev is the first half of an escape pair                         *)
(*   fresh nothing of the current line precedes n = 0                      *)
(***************************************************************************)
EXTENDS YencBase

Inc(n) == IF n = 2147483647 THEN n ELSE n + 1             \* (TLC has 32 bits; the longest line there is is full here)
MonInit(col0) == [ok |-> TRUE, n |-> col0, prev |-> -1, esc |-> FALSE, cr |-> FALSE, lines |-> 0]
Bad(m) == [m EXCEPT !.ok = FALSE]

MonStep(ls, m, c) ==
    IF ~m.ok THEN m
    ELSE IF m.cr THEN        \* a CR must be followed by LF
        IF c = LF THEN [m EXCEPT !.cr = FALSE, !.n = 0, !.prev = -1, !.lines = @ + 1] ELSE Bad(m)
    ELSE IF m.esc THEN       \* second half of an escape pair: anything harmless
        IF c \in Critical \cup Blank \cup {DOT} THEN Bad(m)
        ELSE [m EXCEPT !.esc = FALSE, !.n = Inc(@), !.prev = c]
    ELSE IF c = CR THEN      \* line end: line must be full, not too long, not end in a blank
        IF (m.n = ls \/ m.n - 1 = ls) /\ m.prev \notin Blank THEN [m EXCEPT !.cr = TRUE] ELSE Bad(m)
    ELSE IF c \in {NUL, LF} THEN Bad(m)
    ELSE IF m.n >= ls THEN Bad(m)                       \* a full line must be ended first
    ELSE IF m.n = 0 /\ c \in Blank \cup {DOT} THEN Bad(m)
    ELSE [m EXCEPT !.esc = (c = EQ), !.n = Inc(@), !.prev = c]

MonEnd(ls, m) == m.ok /\ ~m.cr /\ ~m.esc /\ m.n >= 1 /\ m.n - 1 <= ls /\ m.prev \notin Blank

IsTransportSafe(out, ls, col0) ==
    \/ out = <<>>
    \/ MonEnd(ls, FoldLeft(LAMBDA m, c : MonStep(ls, m, c), MonInit(col0), out))
=============================================================================
