------------------------------ MODULE PyTrace ------------------------------
(***************************************************************************)
(* Validates recorded operations on the real Python module against         *)
(* PyBinding. The trace file (TRACE, one JSON object per line) starts with *)
(* the promises that are enforced; then resets, operations with what was   *)
(* observed, and at the end of some histories the growth of the            *)
(* interpreter's memory per repetition of that history.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == INSTANCE Digest
Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspects == {Trace[1].aspects[i] : i \in DOMAIN Trace[1].aspects}
Ids == 0..7

Gen(p, i) == ((i % 65536) * 167 + (i \div 256) * 13 + p * 59 + 7) % 256
Bytes(d) == [i \in 1..d.n |-> Gen(d.p, d.o + i - 1)]
MInit(a) == <<>>
MAbsorb(a, m, d) == m \o Bytes(d)
P == INSTANCE PyBinding

VARIABLES l, obj, own, live
vars == <<l, obj, own, live>>

Value(e) ==
  CASE e.op = "final" -> D!Hash(e.alg, obj[e.o].m)
    [] e.op = "calc" -> D!Hash(e.alg, Bytes(e.d))
    [] e.op = "hmac" -> D!Hmac(e.alg, Bytes(e.k), Bytes(e.d))

Holds(a, e) ==
  LET k == P!Class(e, obj)
  IN CASE a = "accept" -> (k \in {"valid", "unspec"} /\ e.op # "drop") => P!AnswerOk(e, obj, e.kind, e.exc)
       [] a = "refuse" -> k \in {"form", "value", "missing"} => P!AnswerOk(e, obj, e.kind, e.exc)
       [] a = "life"   -> e.op \in {"make", "raw", "reinit", "drop"} => P!AnswerOk(e, obj, e.kind, e.exc)
       [] a = "digest" -> P!Delivers(e, obj, e.kind) => e.out = Value(e)
       [] a = "type"   -> e.kind = "bytes" => e.exact = 1 /\ Len(e.out) = D!DigestSize[e.alg]
       \* blocks and contexts of the library
       [] a = "live"   ->
            CASE e.op \in {"make", "reinit"} /\ e.kind # "exc" -> e.live >= live - own[e.o]
              [] e.op = "make" /\ e.kind = "exc" -> e.live = live
              [] e.op = "reinit" /\ e.kind = "exc" -> e.live = live - own[e.o]
              [] e.op = "drop" -> e.live = live - own[e.o]
              [] e.op \in {"update", "final"} /\ k \in {"valid", "unspec"} -> e.live >= live - own[e.o]
              [] OTHER -> e.live = live
       [] a = "single" -> \* an object owns one context: initialised again it owns no more than before
            (e.op = "reinit" /\ e.kind = "none" /\ P!Owns(obj[e.o])) => e.live <= live
       [] a = "errs"   -> e.errs = 0
       [] a = "refs"   -> e.refs = 0
       \* nothing is reported as going wrong in a destructor unless it did
       [] a = "unraisable" -> ~e.fired => e.unraisable = 0

(* The object was never made: the driver does nothing. *)
Skipped(e) == e.op \in {"reinit", "update", "final", "drop"} /\ obj[e.o].st = "absent"

Bad(e) == IF e.crash # "" THEN {"crash"}
          ELSE IF Skipped(e) THEN {}
          ELSE IF e.op = "grow" THEN (IF e.grow > 0 /\ "grow" \in Aspects THEN {"grow"} ELSE {})
          ELSE IF e.op = "version" THEN (IF e.kind = "str" /\ e.ok = 1 THEN {} ELSE {"version"})
          ELSE {a \in Aspects \ {"grow"} : ~Holds(a, e)}

Init == /\ l = 2
        /\ obj = [i \in Ids |-> P!Absent]
        /\ own = [i \in Ids |-> 0]
        /\ live = 0
Reset(e) ==
  /\ e.op = "reset"
  /\ obj' = [i \in Ids |-> P!Absent]
  /\ own' = [i \in Ids |-> 0]
  /\ live' = e.live
Step(e) ==
  /\ e.op # "reset"
  /\ LET b == Bad(e)
     IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b, IF e.crash = "" /\ "digest" \in b THEN Value(e) ELSE <<>> >>)
  /\ IF e.crash # "" \/ e.op \in {"grow", "version"} \/ Skipped(e)
     THEN UNCHANGED <<obj, own, live>>
     ELSE /\ obj' = IF P!AnswerOk(e, obj, e.kind, e.exc) \/ e.op \in {"make", "raw", "reinit", "drop"} THEN P!Effect(e, obj, e.kind) ELSE obj
          /\ live' = e.live
          /\ own' = CASE e.op \in {"calc", "hmac"} -> own
                      [] e.op = "drop" -> [own EXCEPT ![e.o] = 0]
                      [] e.op = "reinit" /\ e.kind = "exc" -> [own EXCEPT ![e.o] = 0]
                      [] OTHER -> [own EXCEPT ![e.o] = @ + (e.live - live)]
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN IF e.op = "reset" THEN Reset(e) ELSE Step(e)
Spec == Init /\ [][Next]_vars
=============================================================================
