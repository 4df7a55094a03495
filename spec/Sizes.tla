-------------------------------- MODULE Sizes --------------------------------
(* Size bounds. Lengths and sizes are digit sequences (they go far beyond TLC's integers); line sizes are integers below 10^8. *)
EXTENDS Digits
Default(ls) == IF ls = 0 THEN 128 ELSE ls
Twice(d) == Add(d, d)
Less1(d) == LET r == FoldRight(LAMBDA x, a : IF a.b = 0 THEN [d |-> <<x>> \o a.d, b |-> 0]
                                            ELSE IF x = 0 THEN [d |-> <<9>> \o a.d, b |-> 1] ELSE [d |-> <<x - 1>> \o a.d, b |-> 0],
                               d, [d |-> <<>>, b |-> 1]) IN Norm(r.d)                  \* d - 1, for d > 0
Mod(d, m) == FoldLeft(LAMBDA r, x : (r * 10 + x) % m, 0, d)
MinSize(n, ls) == IF n = <<0>> THEN <<0>> ELSE Add(n, Twice(DivSmall(Less1(n), Default(ls))))
(* everything escaped: 2n characters; and a line break wherever the line may be full *)
Scaled(n, num, den) == LET t == MulSmall(n, num + den) IN Add(DivSmall(t, den), IF Mod(t, den) = 0 THEN <<0>> ELSE <<1>>)       \* ceil(n * (1 + num/den))
Breaks(n, ls, num, den) == DivSmall(DivSmall(MulSmall(n, num + den), den), Default(ls))          \* floor(floor(n*(1+num/den)) / ls)
MaxSize(n, ls, num, den, pad) == IF n = <<0>> THEN <<0>> ELSE Add(Add(Scaled(n, num, den), Twice(Breaks(n, ls, num, den))), Dec(pad))
(* the most an encoding can take: at column offset c a break can come that much earlier *)
Bound(n, ls) == Add(Add(Twice(n), Twice(DivSmall(Twice(n), Default(ls)))), <<2>>)
ASSUME Less1(Dec(1000)) = Dec(999) /\ Less1(<<1>>) = <<0>> /\ Mod(Dec(1234567), 128) = 1234567 % 128
       /\ MinSize(Dec(128), 128) = Dec(128) /\ MinSize(Dec(129), 128) = Dec(131) /\ MaxSize(Dec(100), 128, 1, 1, 66) = Dec(268) /\ MaxSize(Dec(3), 1, 1, 2, 66) = Dec(79)
=============================================================================
