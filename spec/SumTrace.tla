------------------------------- MODULE SumTrace -------------------------------
(***************************************************************************)
(* Validates recorded runs of hmacsum against SumTool. The command line is *)
(* read by GetOpt, DigestTypes and ByteSize; digests come from Digest.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

B == INSTANCE Big
D == INSTANCE Digest
T == INSTANCE DigestTypes
G == INSTANCE GetOpt
Z == INSTANCE ByteSize

Trace == ndJsonDeserialize(IOEnv.TRACE)
Header == Trace[1]
Aspects == {Header.aspects[i] : i \in DOMAIN Header.aspects}

VARIABLES l, s, input, memo
vars == <<l, s, input, memo>>

Gen(p, i) == ((i % 65536) * 167 + (i \div 256) * 13 + p * 59 + 7) % 256
Bytes(d) == IF d.k = "gen" THEN [i \in 1..d.n |-> Gen(d.p, i - 1)] ELSE d.b
\* of a recorder run the digest is a constant
Value(a, d) == IF d.k = "rec" THEN D!Hex([i \in 1..D!DigestSize[a] |-> 17]) ELSE D!Hex(D!Hash(a, Bytes(d)))
Known(a) == a \in DOMAIN memo
TheLines(types) ==
  LET o == T!InOrder(types)
  IN [i \in DOMAIN o |-> <<T!Label[o[i]], IF Known(o[i]) THEN memo[o[i]] ELSE Value(o[i], input)>>]

StartOf(v, w) == \E n \in 0..Len(w) : v = SubSeq(w, 1, n)
R == INSTANCE SumTool WITH Plus <- B!Plus, Less <- B!Less, Zero <- <<>>, Lines <- TheLines, Beginning <- StartOf

(* The command line *)
Options == "d:hp:vV"
LastArg(out, c) == LET is == {i \in DOMAIN out : out[i].r = "opt" /\ out[i].c = c}
                IN IF is = {} THEN <<>> ELSE out[CHOOSE i \in is : \A j \in is : j <= i].arg
Ending(out) ==   \* the first report that ends the run
  LET is == {i \in DOMAIN out : out[i].r # "opt" \/ out[i].c \in {"h", "V"}}
  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Buffer(arg) ==
  IF arg = <<>> THEN "ok"
  ELSE LET m == Z!Meaning(arg[1])
       IN CASE m.k = "refuse" -> "refused"
            [] m.k = "exact"  -> IF m.v = <<>> THEN "zero"
                                 ELSE IF B!AtMost(B!TwoTo63, m.v) THEN "over"
                                 ELSE IF B!Less(m.v, B!FromInt(67108864)) THEN "ok" ELSE "huge"
            [] OTHER -> "open"
Default == B!FromInt(32768)
Size(arg) ==
  CASE Buffer(arg) \in {"over"} \/ arg = <<>> -> <<Default>>
    [] Buffer(arg) \in {"ok", "huge"} -> <<Z!Meaning(arg[1]).v>>
    [] OTHER -> <<>>
Plan(argv) ==
  LET p == G!Parse(Options, argv)
      k == Ending(p.out)
      d == LastArg(p.out, "d")
      z == Size(LastArg(p.out, "p"))
      types == {"md5"} \cup (IF d = <<>> THEN {} ELSE T!Selected(d[1]))
      base == [types |-> types, open |-> d # <<>> /\ ~T!Regular(d[1]), buf |-> Buffer(LastArg(p.out, "p")),
               known |-> z # <<>>, bytes |-> IF z = <<>> THEN <<>> ELSE z[1], src |-> ""]
  IN IF k > 0
     THEN [base EXCEPT !.src = "-"] @@ [what |-> IF p.out[k].r # "opt" THEN "invalid" ELSE IF p.out[k].c = "h" THEN "help" ELSE "version"]
     ELSE IF p.operand > Len(argv) THEN base @@ [what |-> "missing"]
     ELSE [base EXCEPT !.src = argv[p.operand]] @@ [what |-> "run"]

Init == l = 2 /\ s = <<>> /\ input = <<>> /\ memo = <<>>

Begin(e) ==
  /\ e.e = "run"
  /\ s' = R!Start(Plan(e.argv))
  /\ input' = e.input
  /\ memo' = IF e.input = input THEN memo ELSE <<>>

(* Digests are computed once for runs over one input, before they are needed. *)
Prepare(e) ==
  /\ e.e = "digests"
  /\ memo' = LET new == {a \in s.plan.types : ~Known(a)}
             IN TLCEval([a \in new |-> Value(a, input)]) @@ memo
  /\ UNCHANGED <<s, input>>

Event(e) ==
  /\ e.e \notin {"run", "exit", "digests"}
  /\ s' = R!Step(s, e)
  /\ UNCHANGED <<input, memo>>

Verdict(e) == IF ~e.done THEN {"crash"} ELSE R!Broken(Aspects, s, e)

End(e) ==
  /\ e.e = "exit"
  /\ LET b == Verdict(e)
     IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b, IF e.done /\ "exact" \in b THEN TheLines(s.plan.types) ELSE s>>)
  /\ UNCHANGED <<s, input, memo>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN Begin(e) \/ Prepare(e) \/ Event(e) \/ End(e)
Spec == Init /\ [][Next]_vars
Position == l
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
