-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of one-character strings.                            *)
EXTENDS Integers, Sequences, SequencesExt

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Join(cs) == FoldLeft(LAMBDA t, c : t \o c, "", cs)

DigitOrder == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : DigitOrder[i] = c
DigitValue(c) == (CHOOSE i \in 1..10 : DigitOrder[i] = c) - 1

(* The parts between occurrences of a separator. *)
Split(cs, sep) ==
  LET r == FoldLeft(LAMBDA acc, c :
                      IF c = sep THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, c)],
                    [done |-> <<>>, cur |-> <<>>], cs)
  IN Append(r.done, r.cur)

Drop(cs, n) == SubSeq(cs, n + 1, Len(cs))

RECURSIVE DigitPrefix(_)
DigitPrefix(cs) == IF cs # <<>> /\ IsDigit(cs[1]) THEN 1 + DigitPrefix(Tail(cs)) ELSE 0
=============================================================================
