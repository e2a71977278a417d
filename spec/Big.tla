-------------------------------- MODULE Big ---------------------------------
(* Natural numbers of any size: sequences of limbs in base 10000, the least  *)
(* significant first, without leading zero limbs (zero is <<>>).             *)
EXTENDS Integers, Sequences, SequencesExt

BASE == 10000

RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o FromInt(n \div BASE)

Limb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

Plus(x, y) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET s == Limb(x, i) + Limb(y, i) + acc.c
                      IN [d |-> Append(acc.d, s % BASE), c |-> s \div BASE],
                    [d |-> <<>>, c |-> 0], [i \in 1..(Max2(Len(x), Len(y)) + 1) |-> i])
  IN Trim(r.d)

(* k below 100000 *)
Times(x, k) ==
  LET r == FoldLeft(LAMBDA acc, l :
                      LET s == l * k + acc.c
                      IN [d |-> Append(acc.d, s % BASE), c |-> s \div BASE],
                    [d |-> <<>>, c |-> 0], x \o <<0, 0>>)
  IN Trim(r.d)

(* -1, 0 or 1 *)
Compare(x, y) ==
  IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA acc, i : IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE acc,
                0, [i \in 1..Len(x) |-> i])
Less(x, y) == Compare(x, y) = -1
AtMost(x, y) == Compare(x, y) # 1


Power(u, k) == FoldLeft(LAMBDA a, i : Times(a, u), <<1>>, [i \in 1..k |-> i])

(* From a sequence of decimal digits, the most significant first. *)
FromDigits(ds) == FoldLeft(LAMBDA acc, d : Plus(Times(acc, 10), FromInt(d)), <<>>, ds)

TwoTo64 == Power(2, 64)
TwoTo63 == Power(2, 63)
=============================================================================
