------------------------------- MODULE Digits -------------------------------
(* Natural numbers of any size as sequences of decimal digits (values 0..9, no leading zeros). TLC's integers are 32-bit. *)
EXTENDS Integers, Sequences, SequencesExt
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<n>> ELSE Append(Dec(n \div 10), n % 10)
RECURSIVE Norm(_)
Norm(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Norm(Tail(d)) ELSE d
Lt(a, b) == \/ Len(a) < Len(b)
            \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
Leq(a, b) == a = b \/ Lt(a, b)
Dig(d, k) == IF k < Len(d) THEN d[Len(d) - k] ELSE 0          \* k-th digit from the right, from 0
Add(a, b) == LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
                 r == FoldLeft(LAMBDA acc, k : LET t == Dig(a, k-1) + Dig(b, k-1) + acc.c
                                               IN [d |-> <<t % 10>> \o acc.d, c |-> t \div 10],
                               [d |-> <<>>, c |-> 0], [i \in 1..n |-> i])
             IN  Norm(r.d)
(* digits times a small number (below 10^8), plus a small number *)
MulSmall(a, m) == LET r == FoldRight(LAMBDA x, acc : LET t == x * m + acc.c IN [d |-> <<t % 10>> \o acc.d, c |-> t \div 10], a, [d |-> <<>>, c |-> 0])
                  IN  Norm(IF r.c = 0 THEN r.d ELSE Dec(r.c) \o r.d)
(* quotient by a small number (below 2*10^8) *)
DivSmall(a, m) == LET r == FoldLeft(LAMBDA acc, x : LET t == acc.r * 10 + x IN [q |-> Append(acc.q, t \div m), r |-> t % m], [q |-> <<>>, r |-> 0], a)
                  IN  Norm(r.q)
Text(d) == [i \in 1..Len(d) |-> 48 + d[i]]
ASSUME Add(Dec(999), Dec(1)) = Dec(1000) /\ Add(Dec(0), Dec(0)) = <<0>> /\ Lt(Dec(99), Dec(100)) /\ ~Lt(Dec(7), Dec(7)) /\ MulSmall(Dec(99), 128) = Dec(12672)
       /\ DivSmall(Dec(12672), 128) = Dec(99) /\ DivSmall(Dec(5), 7) = <<0>> /\ MulSmall(Dec(0), 9) = <<0>>
=============================================================================
