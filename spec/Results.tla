------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* What becomes of results after they are returned.  A caller holds on to  *)
(* them, looks at them again later, alters those it likes (they are its    *)
(* own) and lets go of others, while it makes further calls.               *)
(*                                                                         *)
(* Policy says where the library keeps a result:                           *)
(*   "own"        in a place of its own, which it forgets (what is wanted) *)
(*   "reused"     in the same place each time                              *)
(*   "remembered" in a place found again when the same call is made again  *)
(*   "grown"      in the place of an earlier result while it is held, if   *)
(*                the call continues that one (a running checksum, say)    *)
(* Only "own" satisfies Kept and Same.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Calls, MaxReturned, Policy, Junk
VARIABLES place,      \* what each place holds, in order of their first use
          held,       \* the results held: [of: the call, at: the place, mine: altered by the caller, first: what it was when returned]
          found,      \* "remembered": the place of each call made
          made        \* number of calls so far
vars == <<place, held, found, made>>
F(c) == <<c>>
Init == place = <<>> /\ held = {} /\ found = [c \in Calls |-> 0] /\ made = 0
PutAt(c, p) == IF p > Len(place) THEN Append(place, F(c)) ELSE [place EXCEPT ![p] = F(c)]
Return(c) ==
    /\ made < MaxReturned /\ made' = made + 1
    /\ LET old == Policy = "remembered" /\ found[c] # 0
           p == IF Policy = "reused" /\ Len(place) > 0 THEN 1
                ELSE IF old THEN found[c]
                ELSE IF Policy = "grown" /\ \E h \in held : h.of = c - 1 THEN (CHOOSE h \in held : h.of = c - 1).at
                ELSE Len(place) + 1
       IN  /\ place' = (IF old THEN place ELSE PutAt(c, p))
           /\ found' = [found EXCEPT ![c] = p]
           /\ held' = held \cup {[of |-> c, at |-> p, mine |-> FALSE, no |-> made, first |-> place'[p]]}
Alter(h) == /\ ~h.mine /\ place' = [place EXCEPT ![h.at] = Junk] /\ held' = (held \ {h}) \cup {[h EXCEPT !.mine = TRUE]}
            /\ UNCHANGED <<found, made>>
Drop(h) == held' = held \ {h} /\ UNCHANGED <<place, found, made>>
Next == (\E c \in Calls : Return(c)) \/ \E h \in held : Alter(h) \/ Drop(h)
Spec == Init /\ [][Next]_vars

Kept == \A h \in held : h.mine \/ place[h.at] = h.first                  \* results returned stay as they are
Same == \A h \in held : h.first = F(h.of)                                \* and are those of the call made alone
=============================================================================
