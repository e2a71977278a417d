------------------------------ MODULE UnitTrace -------------------------------
(***************************************************************************)
(* Validates recorded calls of the parts of hmactools: size strings,       *)
(* process buffer size, size formatting, hexadecimal text, digest type     *)
(* lists and options. The calls are independent of each other.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

S == INSTANCE ByteSize
T == INSTANCE DigestTypes
G == INSTANCE GetOpt
B == INSTANCE Big
D == INSTANCE Digest

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* error object exactly on failure, nothing left over *)
Tidy(e, failed) == (failed <=> e.ec = 1) /\ e.errs = 0 /\ e.live = 0

Conv(e) ==
  /\ Tidy(e, e.ret # 1)
  /\ IF e.null > 0 THEN e.ret = -1 /\ e.same = 1 ELSE S!ConvertOk(e.text, e.ret, e.v, e.same = 1)

(* The process buffer size before is 32768. *)
Applied(text, ret, before, after) ==
  LET m == S!Meaning(text)
      apply == ret = 1 /\ B!Less(after, B!TwoTo63)
      over == ret = 0 /\ after = before
      no == ret = -1 /\ after = before
  IN CASE m.k = "exact"  -> IF B!Less(m.v, B!TwoTo63) THEN apply /\ after = m.v ELSE over
       [] m.k = "refuse" -> no
       [] m.k = "open"   -> apply \/ over \/ no
       [] m.k = "range"  -> \/ apply /\ B!AtMost(m.lo, after) /\ B!Less(after, m.hi)
                            \/ over /\ ~B!AtMost(m.hi, B!TwoTo63)
                            \/ no /\ ~m.sure
BufSize(e) ==
  /\ Tidy(e, e.ret = -1 \/ ("ret2" \in DOMAIN e /\ e.ret2 = -1))
  /\ Applied(e.text, e.ret, B!FromInt(32768), e.v)
  /\ "text2" \in DOMAIN e => Applied(e.text2, e.ret2, e.v, e.v2)

Create(e) ==
  /\ Tidy(e, e.ret # 1)
  /\ IF e.len < 9 THEN e.ret = -1 /\ e.same = 1
     ELSE e.ret = 1 /\ e.term = 1 /\ S!FormatOk(e.v, e.u, e.text)

Hex(e) ==
  LET ok == e.null = 0 /\ e.hs >= 0 /\ e.ds >= 0 /\ e.hs >= 2 * e.ds + 1
  IN /\ Tidy(e, e.ret # 1)
     /\ IF ok THEN e.ret = 1 /\ e.tail = 1 /\ e.text = D!Hex(e.d)
        ELSE e.ret = -1 /\ e.same = 1

(* Lists given one after another; md5 is selected from the start. *)
Types(e) ==
  LET n == Len(e.texts)
      okAt(i) == e.rets[i][1] = 1
      \* a list with an empty element is taken whole or not at all
      taken == {i \in 1..n : T!Regular(e.texts[i]) \/ okAt(i)}
      sel == UNION {T!Selected(e.texts[i]) : i \in taken} \cup {"md5"}
      want == T!InOrder(sel)
  IN /\ \A i \in 1..n : /\ T!Regular(e.texts[i]) => okAt(i)
                        /\ e.rets[i][1] \in {1, -1}
                        /\ (e.rets[i][1] = -1) <=> (e.rets[i][2] = 1)
     /\ e.processed = 1 /\ e.printed = 1 /\ e.freed = 1
     /\ e.lines = [i \in DOMAIN want |-> T!Label[want[i]]]
     /\ e.ec = 0 /\ e.errs = 0 /\ e.live = 0

Report(x) ==
  CASE x.c = "?" -> [r |-> "unknown", c |-> x.opt]
    [] x.c = ":" -> [r |-> "missing", c |-> x.opt]
    [] OTHER -> [r |-> "opt", c |-> x.c, arg |-> x.arg]
SameReport(x, w) ==
  \/ x = w
  \* a missing argument may be reported the same way as an unknown option
  \/ w.r = "missing" /\ x.r = "unknown" /\ x.c = w.c
GetOpt(e) ==
  LET p == G!Parse(e.opts, e.argv)
  IN /\ e.stuck = 0
     /\ Len(e.out) = Len(p.out)
     /\ \A i \in 1..Len(e.out) : SameReport(Report(e.out[i]), p.out[i])
     /\ e.operand = p.operand
     /\ e.errs = 0

Good(e) ==
  /\ e.crash = ""
  /\ CASE e.op = "conv"    -> Conv(e)
       [] e.op = "bufsize" -> BufSize(e)
       [] e.op = "create"  -> Create(e)
       [] e.op = "hex"     -> Hex(e)
       [] e.op = "types"   -> Types(e)
       [] e.op = "getopt"  -> GetOpt(e)

Expected(e) ==
  CASE e.crash # "" -> <<>>
    [] e.op \in {"conv", "bufsize"} -> S!Meaning(e.text)
    [] e.op = "getopt" -> G!Parse(e.opts, e.argv)
    [] e.op = "hex" -> D!Hex(e.d)
    [] OTHER -> <<>>

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Good(Trace[l]) THEN TRUE ELSE PrintT(<<"BAD", l, {Trace[l].op}, Expected(Trace[l])>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Position == l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
