------------------------------- MODULE GetOpt --------------------------------
(***************************************************************************)
(* Option recognition as POSIX getopt() prescribes (without permutation).  *)
(* Parse(opts, argv) gives the sequence of reports and the index (counted  *)
(* from 1, argv[0] excluded) of the first operand.                         *)
(* A report is [r |-> "opt", c, arg] for an option (arg is <<text>> for an *)
(* option with an argument and <<>> otherwise), [r |-> "unknown", c] or    *)
(* [r |-> "missing", c].                                                   *)
(***************************************************************************)
EXTENDS Text

(* The options string: a leading colon only changes how errors are reported. *)
Declared(opts) ==
  LET o == Chars(opts)
  IN {[c |-> o[i], arg |-> i < Len(o) /\ o[i + 1] = ":"] : i \in {j \in DOMAIN o : o[j] # ":"}}
Known(opts, c) == \E d \in Declared(opts) : d.c = c
Takes(opts, c) == \E d \in Declared(opts) : d.c = c /\ d.arg

(* The parser: i is the current argument, p the position of the next option
   character within it (0: the argument has not been looked at). *)
Begin == [i |-> 1, p |-> 0, out |-> <<>>, end |-> FALSE]

Step(opts, argv, s) ==
  IF s.p = 0
  THEN IF s.i > Len(argv) THEN [s EXCEPT !.end = TRUE]
       ELSE LET a == argv[s.i]
            IN IF a = "--" THEN [s EXCEPT !.i = @ + 1, !.end = TRUE]
               ELSE IF Len(a) >= 2 /\ SubSeq(a, 1, 1) = "-" THEN [s EXCEPT !.p = 2]
               ELSE [s EXCEPT !.end = TRUE]
  ELSE LET a == argv[s.i]
           c == SubSeq(a, s.p, s.p)
           last == s.p = Len(a)
           next == IF last THEN [s EXCEPT !.i = @ + 1, !.p = 0] ELSE [s EXCEPT !.p = @ + 1]
       IN IF ~Known(opts, c) THEN [next EXCEPT !.out = Append(@, [r |-> "unknown", c |-> c])]
          ELSE IF ~Takes(opts, c) THEN [next EXCEPT !.out = Append(@, [r |-> "opt", c |-> c, arg |-> <<>>])]
          ELSE IF ~last
          THEN [s EXCEPT !.i = @ + 1, !.p = 0,
                         !.out = Append(@, [r |-> "opt", c |-> c, arg |-> <<SubSeq(a, s.p + 1, Len(a))>>])]
          ELSE IF s.i < Len(argv)
          THEN [s EXCEPT !.i = @ + 2, !.p = 0,
                         !.out = Append(@, [r |-> "opt", c |-> c, arg |-> <<argv[s.i + 1]>>])]
          ELSE [s EXCEPT !.i = @ + 1, !.p = 0, !.out = Append(@, [r |-> "missing", c |-> c])]

RECURSIVE Run(_, _, _)
Run(opts, argv, s) == IF s.end THEN s ELSE Run(opts, argv, Step(opts, argv, s))
Parse(opts, argv) == LET s == Run(opts, argv, Begin) IN [out |-> s.out, operand |-> s.i]
=============================================================================
