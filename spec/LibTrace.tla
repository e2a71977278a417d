------------------------------ MODULE LibTrace ------------------------------
(***************************************************************************)
(* Validates recorded calls of the real library against Contexts.          *)
(*                                                                         *)
(* The trace file (environment variable TRACE, one JSON object per line)   *)
(* starts with a header that says how digests are judged ("mode") and      *)
(* which promises are enforced ("aspects"):                                *)
(*   mode compute  the digest must be the one that module Digest computes  *)
(*   mode learn    digests are an uninterpreted function of (algorithm,    *)
(*                 key, concatenated data): equal arguments, equal result  *)
(* Every other line is a reset (a new history) or a call with its          *)
(* observed response.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

D == INSTANCE Digest

Trace == ndJsonDeserialize(IOEnv.TRACE)
Header == Trace[1]
Mode == Header.mode
Aspects == {Header.aspects[i] : i \in DOMAIN Header.aspects}

SlotIds == 0..15

-----------------------------------------------------------------------------
(* Data as bytes. *)
Gen(p, i) == ((i % 65536) * 167 + (i \div 256) * 13 + p * 59 + 7) % 256
Bytes(d) == IF d.k = "gen" THEN [i \in 1..d.n |-> Gen(d.p, d.o + i - 1)] ELSE d.b
Size(d) == IF d.k = "gen" THEN d.n ELSE Len(d.b)

(* Data as a sequence of segments, adjacent ones merged (mode learn). *)
Seg(d) ==
  IF Size(d) = 0 THEN <<>>
  ELSE IF d.k = "gen" THEN <<[p |-> d.p, o |-> d.o, n |-> d.n]>>
  ELSE <<[p |-> -1, b |-> d.b]>>
JoinSeg(s, d) ==
  LET t == Seg(d)
  IN IF t = <<>> THEN s
     ELSE IF s = <<>> THEN t
     ELSE LET x == s[Len(s)]
              y == t[1]
          IN IF x.p = y.p /\ x.p # -1 /\ x.o + x.n = y.o
             THEN Append(SubSeq(s, 1, Len(s) - 1), [p |-> x.p, o |-> x.o, n |-> x.n + y.n])
             ELSE IF x.p = -1 /\ y.p = -1
             THEN Append(SubSeq(s, 1, Len(s) - 1), [p |-> -1, b |-> x.b \o y.b])
             ELSE s \o t

(* The digest state of a context. *)
HInit(a) ==
  IF Mode = "compute" THEN [h |-> D!InitialValue[a], t |-> <<>>, n |-> 0] ELSE <<>>
HAbsorb(a, m, d) ==
  IF Mode = "compute"
  THEN LET b == m.t \o Bytes(d)
           w == Len(b) - (Len(b) % D!BlockSize[a])
       IN [h |-> D!AbsorbFrom(a, m.h, b), t |-> SubSeq(b, w + 1, Len(b)), n |-> m.n + Size(d)]
  ELSE JoinSeg(m, d)
DigestLen(a) == D!DigestSize[a]

C == INSTANCE Contexts

-----------------------------------------------------------------------------
VARIABLES
  l,       \* position in the trace
  slot,    \* the slots of module Contexts
  memo,    \* mode learn: results seen so far
  own,     \* what each slot owns: outstanding blocks, as observed
  live     \* outstanding blocks in total
vars == <<l, slot, memo, own, live>>

(* Identity of a result (mode learn) and its value (mode compute). *)
Key(e) ==
  CASE e.op = "final" -> <<"hash", e.alg, slot[e.c].m>>
    [] e.op = "calc"  -> <<"hash", e.alg, JoinSeg(<<>>, e.d)>>
    [] e.op = "hmac"  -> <<"hmac", e.alg, JoinSeg(<<>>, e.k), JoinSeg(<<>>, e.d)>>
Value(e) ==
  CASE e.op = "final" -> LET m == slot[e.c].m
                         IN D!FinishFrom(e.alg, m.h, m.t, D!SizeLimbs(m.n))
    [] e.op = "calc"  -> D!Hash(e.alg, Bytes(e.d))
    [] e.op = "hmac"  -> D!Hmac(e.alg, Bytes(e.k), Bytes(e.d))

DigestOk(e) ==
  IF Mode = "compute" THEN e.out = Value(e)
  ELSE LET k == Key(e) IN k \in DOMAIN memo => memo[k] = e.out

Memo(e) ==
  IF Mode = "learn" /\ C!Delivers(e, slot, e.ret)
  THEN LET k == Key(e) IN IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> e.out)
  ELSE memo

-----------------------------------------------------------------------------
(* The promises, by name. *)
Holds(a, e) ==
  LET k == C!Class(e, slot)
      refused == k \in {"argument", "state"}
  IN CASE a = "accept" -> (k = "valid" /\ ~e.fired) => e.ret = 1
       [] a = "refuse" -> refused => e.ret = -1
       [] a = "fault"  -> (k = "valid" /\ e.fired) => e.ret \in C!Allowed(e, slot)
       [] a = "range"  -> e.ret \in {1, -1}
       [] a = "digest" -> C!Delivers(e, slot, e.ret) => DigestOk(e)
       [] a = "ref"    -> k # "unspec" => e.now = C!RefAfter(e, slot, e.ret)
       \* the output buffer: nothing beyond the digest, nothing at all when refused
       [] a = "tail"   -> e.op \in {"final", "calc", "hmac"} => e.tail = 1
       [] a = "quiet"  -> (refused /\ e.op \in {"final", "calc", "hmac"}) => e.wrote = 0
       \* an error exactly on failure, of the domain for arguments exactly then
       [] a = "error"  -> (e.e # 0) => ((e.ret = -1) <=> (e.ec > 0))
       [] a = "domain" -> (e.e = 1 /\ e.ret = -1 /\ k # "unspec") => ((e.dom = 97) <=> (k = "argument"))
       [] a = "errs"   -> e.errs = 0
       \* secrets in released memory
       [] a = "dirty"  -> e.dirty = 0
       \* outstanding blocks
       [] a = "live"   ->
            CASE e.op = "init" /\ k = "valid" /\ e.ret = 1 -> e.live >= live
              [] e.op = "free" /\ k = "valid" -> e.live = live - own[e.c]
              [] e.op \in {"update", "final"} /\ k \in {"valid", "unspec"} -> e.live >= live - own[e.c]
              [] OTHER -> e.live = live

(* Printing an error of m messages: one line is the last message, a backtrace
   all of them; a string must hold the text and its terminator. *)
Message(q) == LET x == "xxxxxxxxxxxxxxx"
              IN "error" \o ToString(q) \o "message" \o (IF q = 0 THEN "" ELSE SubSeq(x, 1, q * 3))
Backtrace(m, sep) == FoldLeft(LAMBDA t, q : IF q = 0 THEN Message(0) ELSE t \o sep \o Message(q), "", [i \in 1..m |-> i - 1])
ErrText(e) ==
  CASE e.fn = 0 -> Message(e.m - 1)
    [] e.fn = 1 -> Message(e.m - 1) \o "|"
    [] e.fn = 2 -> Backtrace(e.m, "|")
    [] e.fn = 3 -> Backtrace(e.m, "|") \o "|"
ErrTextOk(e) ==
  LET fits == e.m > 0 /\ ~e.null /\ (e.fn \in {0, 2} => Len(ErrText(e)) < e.hs)
  IN /\ e.tail = 1 /\ e.now = "null" /\ e.errs = 0
     /\ IF fits THEN e.ret = Len(ErrText(e)) /\ e.text = ErrText(e)
        ELSE e.ret = -1

(* A message too long to be stated byte by byte: h is the chaining value of
   all whole blocks before the bytes t, n the size of everything (as limbs). *)
StreamValue(e) ==
  LET d == D!FinishFrom(e.alg, e.h, e.t, e.n)
  IN IF e.kind = "hash" THEN d
     ELSE IF e.kind = "bigkey" THEN D!Hmac(e.alg, d, e.key) \* h, t: the key; key: the message
     ELSE D!Hash(e.alg, D!XorByte(D!HmacKeyBlock(e.alg, e.key), 92) \o d)
StreamOk(e) == e.ret = 1 /\ e.out = StreamValue(e)

Bad(e) == IF e.crash # "" THEN {"crash"}
          ELSE IF e.op = "stream" THEN (IF StreamOk(e) THEN {} ELSE {"digest"})
          ELSE IF e.op = "errtext" THEN (IF ErrTextOk(e) THEN {} ELSE {"errtext"})
          ELSE {a \in Aspects : ~Holds(a, e)}

(* The slots after the call: as promised, or, where a promise that is not
   enforced was broken, unknown. *)
Spoilt(e) ==
  LET k == C!Class(e, slot)
  IN IF e.ret \in C!Allowed(e, slot) THEN C!Effect(e, slot, e.ret)
     ELSE IF e.op \in {"calc", "hmac"} \/ slot[e.c].st = "null" THEN slot
     ELSE [slot EXCEPT ![e.c] = [st |-> "spoilt", alg |-> e.alg]]

Init == /\ l = 2
        /\ slot = [i \in SlotIds |-> C!Null]
        /\ memo = <<>>
        /\ own = [i \in SlotIds |-> 0]
        /\ live = 0

Reset(e) ==
  /\ e.op = "reset"
  /\ slot' = [i \in SlotIds |-> C!Null]
  /\ own' = [i \in SlotIds |-> 0]
  /\ live' = e.live
  /\ memo' = IF e.keep THEN memo ELSE <<>>

Call(e) ==
  /\ e.op # "reset"
  /\ LET b == Bad(e)
     IN IF b = {} THEN TRUE
        ELSE PrintT(<<"BAD", l, b, IF Mode = "compute" /\ b = {"digest"} THEN (IF e.op = "stream" THEN StreamValue(e) ELSE Value(e)) ELSE <<>> >>) /\ FALSE
  /\ slot' = IF e.op \in {"errtext", "stream"} THEN slot ELSE Spoilt(e)
  /\ memo' = IF e.op \in {"errtext", "stream"} THEN memo ELSE Memo(e)
  /\ live' = e.live
  /\ own' = CASE e.op \in {"calc", "hmac", "errtext", "stream"} -> own
              [] e.op = "free" /\ e.now = "null" -> [own EXCEPT ![e.c] = 0]
              [] OTHER -> [own EXCEPT ![e.c] = @ + (e.live - live)]

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN IF e.op = "reset" THEN Reset(e) ELSE Call(e)

Spec == Init /\ [][Next]_vars

Position == l

(* The whole trace was accepted. *)
TraceAccepted ==
  TLCGet("stats").diameter = Len(Trace)
=============================================================================
