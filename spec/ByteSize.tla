------------------------------ MODULE ByteSize -------------------------------
(***************************************************************************)
(* Size strings: conversion and formatting.                                *)
(***************************************************************************)
EXTENDS Text
B == INSTANCE Big

UnitOf(c) ==
  CASE c \in {"k", "K"} -> 1 [] c \in {"m", "M"} -> 2 [] c \in {"g", "G"} -> 3 [] c \in {"t", "T"} -> 4
    [] c \in {"p", "P"} -> 5 [] c \in {"e", "E"} -> 6 [] c \in {"z", "Z"} -> 7 [] c \in {"y", "Y"} -> 8
    [] OTHER -> 0
UnitLetter == <<"K", "M", "G", "T", "P", "E", "Z", "Y">>

Digits(cs) == [i \in 1..Len(cs) |-> DigitValue(cs[i])]

(* What a size string means:
   [k |-> "exact", v]       exactly v bytes
   [k |-> "range", lo, hi]  at least lo and less than hi bytes
   [k |-> "refuse"]
   [k |-> "open"]           nothing is promised  *)
Meaning(text) ==
  LET cs == Chars(text)
      nd == DigitPrefix(cs)
      r1 == Drop(cs, nd)
      frac == r1 # <<>> /\ r1[1] = "."
      fd == IF frac THEN DigitPrefix(Tail(r1)) ELSE 0
      r2 == IF frac THEN Drop(r1, fd + 1) ELSE r1
      space == r2 # <<>> /\ r2[1] = " "
      r3 == IF space THEN Tail(r2) ELSE r2
      unit == IF r3 # <<>> THEN UnitOf(r3[1]) ELSE 0
      r4 == IF unit > 0 THEN Tail(r3) ELSE r3
      base == IF r4 = <<"B">> THEN 1000 ELSE 1024
      known == r4 = <<"B">> \/ (unit > 0 /\ r4 \in {<<>>, <<"i", "B">>}) \/ (r4 = <<>> /\ ~space)
      N == B!FromDigits(Digits(SubSeq(cs, 1, nd)))
      scale(n) == FoldLeft(LAMBDA x, i : B!Times(x, base), n, [i \in 1..unit |-> i])
      lo == scale(N)
  IN IF nd = 0 \/ (frac /\ fd = 0) THEN [k |-> "open"]
     ELSE IF ~known
     THEN \* something after a complete unit, and blanks, are not promised to be refused
          IF \/ r4 = <<>> \/ (r4[1] = "B") \/ (Len(r4) >= 2 /\ r4[1] = "i" /\ r4[2] = "B")
             \/ r4[1] \in {" ", "\n", "\r", "\t"} /\ unit > 0
          THEN [k |-> "open"]
          ELSE [k |-> "refuse"]
     ELSE IF ~frac
     THEN IF B!Less(lo, B!TwoTo64) THEN [k |-> "exact", v |-> lo] ELSE [k |-> "refuse"]
     ELSE LET hi == scale(B!Plus(N, <<1>>))
          IN IF ~B!Less(lo, B!TwoTo64) THEN [k |-> "refuse"]
             ELSE [k |-> "range", lo |-> lo, hi |-> hi, sure |-> B!AtMost(hi, B!TwoTo64)]

(* ret and value (as limbs) of a conversion; same when it was left untouched *)
ConvertOk(text, ret, v, same) ==
  LET m == Meaning(text)
      refused == ret = -1 /\ same
  IN CASE m.k = "exact"  -> ret = 1 /\ v = m.v
       [] m.k = "refuse" -> refused
       [] m.k = "open"   -> refused \/ (ret = 1 /\ ~same)
       [] m.k = "range"  -> \/ ret = 1 /\ B!AtMost(m.lo, v) /\ B!Less(v, m.hi)
                            \/ ~m.sure /\ refused

(* The text for a size (limbs) in powers of u. *)
UnitPower(size, u) ==   \* largest k with u^k <= size
  LET ks == {k \in 0..8 : B!AtMost(B!Power(u, k), size)}
  IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
Suffix(size, u, k) ==
  (IF k = 0 THEN "" ELSE UnitLetter[k]) \o (IF u = 1000 \/ B!Less(size, <<1024>>) THEN "B" ELSE "iB")

(* Whole part W and, if there is one, decimal D shown for a size. *)
Truthful(size, u, k, w, d) ==
  LET p == B!Power(u, k)
      wp == B!Times(p, w)
  IN /\ B!AtMost(wp, size) /\ B!Less(size, B!Times(p, w + 1))
     /\ d >= 0 => LET shown == B!Times(p, w * 10 + d)
                      true_ == B!Times(size, 10)
                  IN B!AtMost(shown, B!Plus(true_, p)) /\ B!AtMost(true_, B!Plus(shown, p))
FormatOk(size, u, text) ==
  LET k == UnitPower(size, u)
      suf == Chars(" " \o Suffix(size, u, k))
      cs == Chars(text)
      num == SubSeq(cs, 1, Len(cs) - Len(suf))
      nd == DigitPrefix(num)
      rest == Drop(num, nd)
      dec == Len(rest) = 2 /\ rest[1] = "." /\ IsDigit(rest[2])
      w == IF nd = 0 THEN 0 ELSE FoldLeft(LAMBDA a, c : a * 10 + DigitValue(c), 0, SubSeq(num, 1, nd))
  IN /\ Len(cs) > Len(suf)
     /\ Drop(cs, Len(cs) - Len(suf)) = suf
     /\ nd \in 1..4
     /\ nd > 1 => num[1] # "0"
     /\ dec \/ rest = <<>>
     /\ dec <=> (k >= 1 /\ w < 10)
     /\ Truthful(size, u, k, w, IF dec THEN DigitValue(rest[2]) ELSE -1)
=============================================================================
