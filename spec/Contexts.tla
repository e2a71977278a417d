------------------------------ MODULE Contexts ------------------------------
(***************************************************************************)
(* The calls of the libhmac interface on digest contexts and the one-shot  *)
(* digest and HMAC calculations, as a state machine:                       *)
(*                                                                         *)
(*   - the state is a set of references ("slots") held by a caller;        *)
(*   - a call is a record with its function, arguments and environment     *)
(*     (whether a resource or back end operation of the call failed);      *)
(*   - Class(c, s) says what the interface promises about a call in a      *)
(*     state, Allowed(c, s) is the set of permitted outcomes, and          *)
(*     Effect(c, s, o) the state after the call with outcome o.            *)
(*                                                                         *)
(* The same operators are used in three ways: model checking of the        *)
(* machine itself (MCContexts), generation of call histories (CtxGen) and  *)
(* validation of recorded calls of the real code (LibTrace).  What a       *)
(* digest is made of is left open here: HInit, HAbsorb are supplied by the *)
(* module that instantiates this one.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  DigestLen(_),    \* digest size of an algorithm
  HInit(_),        \* digest state of a fresh context of an algorithm
  HAbsorb(_, _, _) \* algorithm, digest state, data -> digest state

(* A call c is a record:
     op    "init" | "free" | "update" | "final" | "calc" | "hmac"
     alg   the algorithm
     c     the slot whose reference or context is passed
     ref   "ok" | "null"   the reference argument of init and free
     ctx   "ok" | "null"   NULL passed instead of the context
     d, k  data and key: [k |-> "gen" | "lit" | "null" | "big", ...]
     hs    size of the output buffer, -1 for one above SSIZE_MAX, less than -1
           for the large ones that are allowed: -2 the first above UINT_MAX,
           -3 SSIZE_MAX, -4 the first above INT_MAX
     outnull  TRUE: NULL passed as output buffer
     fired TRUE: a resource or back end operation of this call failed      *)

Null == [st |-> "null"]
Fresh(a) == [st |-> "open", alg |-> a, m |-> HInit(a)]

(* What every function says about its arguments. *)
BadData(d) == d.k \in {"null", "big"}
BadOut(c) == c.outnull \/ c.hs = -1 \/ (c.hs >= 0 /\ c.hs < DigestLen(c.alg))
NoContext(c, s) == c.ctx = "null" \/ s[c.c].st = "null"

BadArgument(c, s) ==
  CASE c.op = "init"   -> c.ref = "null"
    [] c.op = "free"   -> c.ref = "null"
    [] c.op = "update" -> NoContext(c, s) \/ BadData(c.d)
    [] c.op = "final"  -> NoContext(c, s) \/ BadOut(c)
    [] c.op = "calc"   -> BadData(c.d) \/ BadOut(c)
    [] c.op = "hmac"   -> BadData(c.k) \/ BadData(c.d) \/ BadOut(c)

(* The promise about a call:
     "argument"  refused because of its arguments
     "state"     refused because the reference already holds a context
     "valid"     performed
     "unspec"    nothing is promised but memory safety: a context after its
                 digest was delivered, or after a failed operation on it.  *)
Class(c, s) ==
  IF BadArgument(c, s) THEN "argument"
  ELSE IF c.op = "init" /\ s[c.c].st # "null" THEN "state"
  ELSE IF c.op \in {"update", "final"} /\ s[c.c].st # "open" THEN "unspec"
  ELSE "valid"

(* Permitted return values. A failing resource need not make the call fail
   (a retry, or an operation that was not essential) but then the result is
   the correct one. *)
Allowed(c, s) ==
  LET k == Class(c, s)
  IN IF k \in {"argument", "state"} THEN {-1}
     ELSE IF k = "unspec" \/ c.fired THEN {1, -1}
     ELSE {1}

(* The promise is a digest exactly when a valid call reports success. *)
Delivers(c, s, ret) ==
  ret = 1 /\ Class(c, s) = "valid" /\ c.op \in {"final", "calc", "hmac"}

(* The slot after the call. *)
Effect(c, s, ret) ==
  LET k == Class(c, s)
      o == s[c.c]
  IN CASE c.op = "init" ->
            IF k = "valid" /\ ret = 1 THEN [s EXCEPT ![c.c] = Fresh(c.alg)] ELSE s
       [] c.op = "free" ->
            \* released even when a failing resource makes the call report failure
            IF k = "valid" THEN [s EXCEPT ![c.c] = Null] ELSE s
       [] c.op = "update" ->
            IF k = "valid" /\ ret = 1
            THEN [s EXCEPT ![c.c] = [o EXCEPT !.m = HAbsorb(o.alg, o.m, c.d)]]
            ELSE IF k = "valid" THEN [s EXCEPT ![c.c] = [st |-> "spoilt", alg |-> o.alg]]
            ELSE s
       [] c.op = "final" ->
            IF k = "valid" /\ ret = 1 THEN [s EXCEPT ![c.c] = [st |-> "done", alg |-> o.alg]]
            ELSE IF k = "valid" THEN [s EXCEPT ![c.c] = [st |-> "spoilt", alg |-> o.alg]]
            ELSE s
       [] OTHER -> s

(* The reference as the caller sees it. *)
RefAfter(c, s, ret) ==
  CASE c.op = "init" /\ Class(c, s) = "valid" /\ ret = 1 -> "new"
    [] c.op = "free" /\ Class(c, s) = "valid" -> "null"
    [] OTHER -> IF s[c.c].st = "null" THEN "null" ELSE "same"
=============================================================================
