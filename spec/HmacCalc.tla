------------------------------ MODULE HmacCalc ------------------------------
(***************************************************************************)
(* One HMAC calculation as a sequence of resource operations, any of which *)
(* may fail: three blocks that hold material derived from the key (the key *)
(* block and the two padded keys) and a digest context.  Digests are terms *)
(* <<"H", part, part, ...>>.                                               *)
(*                                                                         *)
(* Checked: however the calculation ends, nothing stays acquired; a block  *)
(* is clean when it is released; success is reported exactly with the      *)
(* RFC 2104 term in the output and failure exactly when some operation     *)
(* failed.  On the real code these are the aspects "live", "dirty",        *)
(* "digest" and "fault" of LibTrace, with every failure point enumerated.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

KeyClasses == {"empty", "short", "block", "long"}
Blocks == {"key", "inner", "outer"}

VARIABLES
  key,      \* class of the key
  pc,       \* next operation
  block,    \* Blocks -> "none" | "clean" | "secret" | "freed" | "freedsecret"
  ctx,      \* the context: <<>> none, else <<term parts absorbed>>
  kb,       \* the key block as a term
  out,      \* the output buffer
  ret,      \* 0 running
  failed    \* some operation failed
vars == <<key, pc, block, ctx, kb, out, ret, failed>>

(* The operations in order; those of the key hash only for a long key. *)
HashKey == <<"kinit", "kupdate", "kfinal", "kfree">>
Plan(k) ==
  <<"akey">> \o (IF k = "long" THEN HashKey ELSE <<"kcopy">>)
  \o <<"ainner", "aouter", "xor", "init1", "upad1", "umsg", "final1", "free1",
       "init2", "upad2", "udig", "final2", "free2", "wipe", "release">>

Init ==
  /\ key \in KeyClasses
  /\ pc = 1
  /\ block = [b \in Blocks |-> "none"]
  /\ ctx = <<>> /\ kb = <<>> /\ out = <<>> /\ ret = 0 /\ failed = FALSE

Ctx(parts) == <<parts>>
Pad(c) == <<c, kb>>

(* The effect of each operation when it succeeds. *)
Ok(op) ==
  CASE op = "akey" -> /\ block' = [block EXCEPT !["key"] = "clean"] /\ UNCHANGED <<ctx, kb, out>>
    [] op = "kcopy" -> /\ block' = [block EXCEPT !["key"] = "secret"]
                       /\ kb' = <<"pad0", "key">> /\ UNCHANGED <<ctx, out>>
    [] op \in {"kinit", "init1", "init2"} -> /\ ctx' = Ctx(<<"H">>) /\ UNCHANGED <<block, kb, out>>
    [] op = "kupdate" -> /\ ctx' = Ctx(Append(ctx[1], "key")) /\ UNCHANGED <<block, kb, out>>
    [] op = "kfinal" -> /\ kb' = <<"pad0", ctx[1]>> /\ block' = [block EXCEPT !["key"] = "secret"]
                        /\ UNCHANGED <<ctx, out>>
    [] op \in {"kfree", "free1", "free2"} -> ctx' = <<>> /\ UNCHANGED <<block, kb, out>>
    [] op = "ainner" -> block' = [block EXCEPT !["inner"] = "clean"] /\ UNCHANGED <<ctx, kb, out>>
    [] op = "aouter" -> block' = [block EXCEPT !["outer"] = "clean"] /\ UNCHANGED <<ctx, kb, out>>
    [] op = "xor" -> block' = [b \in Blocks |-> "secret"] /\ UNCHANGED <<ctx, kb, out>>
    [] op = "upad1" -> ctx' = Ctx(Append(ctx[1], Pad("ipad"))) /\ UNCHANGED <<block, kb, out>>
    [] op = "umsg" -> ctx' = Ctx(Append(ctx[1], "msg")) /\ UNCHANGED <<block, kb, out>>
    [] op \in {"final1", "final2"} -> out' = ctx[1] /\ UNCHANGED <<block, kb, ctx>>
    [] op = "upad2" -> ctx' = Ctx(Append(ctx[1], Pad("opad"))) /\ UNCHANGED <<block, kb, out>>
    [] op = "udig" -> ctx' = Ctx(Append(ctx[1], out)) /\ UNCHANGED <<block, kb, out>>
    [] op = "wipe" -> block' = [b \in Blocks |-> "clean"] /\ UNCHANGED <<ctx, kb, out>>
    [] op = "release" -> block' = [b \in Blocks |-> "freed"] /\ UNCHANGED <<ctx, kb, out>>

CanFail(op) == op \notin {"xor", "kcopy", "wipe", "release", "kfree", "free1", "free2"}

Step ==
  /\ ret = 0 /\ ~failed
  /\ pc <= Len(Plan(key))
  /\ Ok(Plan(key)[pc])
  /\ pc' = pc + 1
  /\ ret' = IF pc = Len(Plan(key)) THEN 1 ELSE 0
  /\ UNCHANGED <<key, failed>>

Fail ==
  /\ ret = 0 /\ ~failed
  /\ pc <= Len(Plan(key)) /\ CanFail(Plan(key)[pc])
  /\ failed' = TRUE
  /\ UNCHANGED <<key, pc, block, ctx, kb, out, ret>>

(* Clean up after a failure: wipe, then release, then report. *)
Wipe ==
  /\ failed /\ ret = 0 /\ \E b \in Blocks : block[b] = "secret"
  /\ block' = [b \in Blocks |-> IF block[b] = "secret" THEN "clean" ELSE block[b]]
  /\ UNCHANGED <<key, pc, ctx, kb, out, ret, failed>>
Report ==
  /\ failed /\ ret = 0 /\ \A b \in Blocks : block[b] # "secret"
  /\ block' = [b \in Blocks |-> IF block[b] = "none" THEN "none" ELSE "freed"]
  /\ ctx' = <<>>
  /\ ret' = -1
  /\ UNCHANGED <<key, pc, kb, out, failed>>

Next == Step \/ Fail \/ Wipe \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Wipe) /\ WF_vars(Report)

-----------------------------------------------------------------------------
KeyBlock == IF key = "long" THEN <<"pad0", <<"H", "key">> >> ELSE <<"pad0", "key">>
Rfc2104 == <<"H", <<"opad", KeyBlock>>, <<"H", <<"ipad", KeyBlock>>, "msg">> >>

NothingKept == ret # 0 => ctx = <<>> /\ \A b \in Blocks : block[b] \in {"none", "freed"}
CorrectResult == ret = 1 => out = Rfc2104
FaultReported == failed => ret # 1
CleanWhenReleased == [][\A b \in Blocks : block'[b] = "freed" /\ block[b] # "freed" => block[b] \in {"none", "clean"}]_vars
Terminates == <>(ret # 0)
=============================================================================
