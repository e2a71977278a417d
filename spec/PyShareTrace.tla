---------------------------- MODULE PyShareTrace ----------------------------
(***************************************************************************)
(* Validates what threads did that share Python objects (PySharing) on the *)
(* real module. Events: a thread is called (call) and answers (ret); its   *)
(* entries to (in) and returns from (out) the library's functions on a     *)
(* context, and the contexts that are created (new).                       *)
(*                                                                         *)
(* A call has an object for itself from its first entry to its last return *)
(* on the object's context. The effect of the call (PyBinding) is that of  *)
(* the moment of the entry, so the order of the entries is the order in    *)
(* which the calls count as having been made.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == INSTANCE Digest
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ids == 0..7
Thr == 0..7

Gen(p, i) == ((i % 65536) * 167 + (i \div 256) * 13 + p * 59 + 7) % 256
Bytes(d) == [i \in 1..d.n |-> Gen(d.p, d.o + i - 1)]
MInit(a) == <<>>
MAbsorb(a, m, d) == m \o Bytes(d)
P == INSTANCE PyBinding

VARIABLES l, obj, th, ctx, gone, tainted
vars == <<l, obj, th, ctx, gone, tainted>>

Nobody == 99
Objects0 == [i \in Ids |-> P!Absent]
Threads0 == [t \in Thr |-> [busy |-> FALSE]]
(* ctx: context -> [alive, holder, of]; of is the object that made it, 99 for none.
   gone: o -> 0 there, 1 being dropped, 2 dropped. *)
Init == /\ l = 1
        /\ obj = Objects0 /\ th = Threads0 /\ ctx = <<>> /\ gone = [i \in Ids |-> 0]
        /\ tainted = FALSE
Known(x) == x \in DOMAIN ctx

(* The thread does nothing more in the library during this call. *)
RECURSIVE Ends(_, _)
Ends(k, t) == IF k > Len(Trace) \/ Trace[k].e \in {"reset", "end"} THEN TRUE
              ELSE IF Trace[k].t = t THEN Trace[k].e = "ret" ELSE Ends(k + 1, t)
Last(i) == Ends(i + 1, Trace[i].t)

Reset == /\ obj' = Objects0 /\ th' = Threads0 /\ ctx' = <<>> /\ gone' = [i \in Ids |-> 0] /\ tainted' = FALSE
Report(bad, what) ==
  IF bad = {} THEN tainted' = tainted
  ELSE tainted' = TRUE /\ PrintT(<<"BAD", l, bad, what>>)

Called(e) ==
  /\ th' = [th EXCEPT ![e.t] = [busy |-> TRUE, c |-> e.c, was |-> obj, gone |-> gone[e.c.o], entered |-> FALSE, snap |-> obj]]
  /\ gone' = IF e.c.op = "drop" THEN [gone EXCEPT ![e.c.o] = IF @ = 2 THEN 2 ELSE 1] ELSE gone
  /\ Report({}, 0) /\ UNCHANGED <<obj, ctx>>

Uses(t, x) == th[t].busy /\ th[t].c.op \in {"update", "final"} /\ ctx[x].of = th[t].c.o
In(e) ==
  LET x == e.x t == e.t
      bad == (IF Known(x) /\ ctx[x].alive THEN {} ELSE {"released"})
             \cup (IF Known(x) /\ ctx[x].holder \notin {Nobody, t} THEN {"together"} ELSE {})
  IN /\ Report(bad, 0)
     /\ IF bad # {} THEN UNCHANGED <<obj, th, ctx, gone>>
        ELSE /\ ctx' = [ctx EXCEPT ![x].holder = t, ![x].alive = (e.f # "free")]
             /\ IF Uses(t, x) /\ ~th[t].entered /\ e.f # "free"
                THEN /\ th' = [th EXCEPT ![t].entered = TRUE, ![t].snap = obj]
                     /\ obj' = P!Effect(th[t].c, obj, P!Result(th[t].c))
                ELSE UNCHANGED <<th, obj>>
             /\ UNCHANGED gone
New(e) ==
  LET mine == th[e.t].busy /\ th[e.t].c.op \in {"make", "reinit"}
      o == IF mine THEN th[e.t].c.o ELSE Nobody
  IN /\ ctx' = (e.x :> [alive |-> TRUE, holder |-> Nobody, of |-> o]) @@ ctx
     /\ IF mine
        THEN /\ obj' = P!Effect(th[e.t].c, obj, P!Result(th[e.t].c))
             /\ th' = [th EXCEPT ![e.t].entered = TRUE, ![e.t].snap = obj]
        ELSE UNCHANGED <<obj, th>>
     /\ Report({}, 0) /\ UNCHANGED gone
Out(e) ==
  /\ ctx' = IF Last(l) /\ ctx[e.x].holder = e.t THEN [ctx EXCEPT ![e.x].holder = Nobody] ELSE ctx
  /\ Report({}, 0) /\ UNCHANGED <<obj, th, gone>>

Value(c, s) ==
  CASE c.op = "final" -> D!Hash(c.alg, s[c.o].m)
    [] c.op = "calc" -> D!Hash(c.alg, Bytes(c.d))
    [] c.op = "hmac" -> D!Hmac(c.alg, Bytes(c.k), Bytes(c.d))
(* What is wrong with an answer. *)
Wrong(e) ==
  LET x == th[e.t] c == x.c
      digest(s) == IF P!Delivers(c, s, e.kind) /\ e.out # Value(c, s) THEN {"digest"} ELSE {}
      answer(s) == IF P!AnswerOk(c, s, e.kind, e.exc) THEN {} ELSE {"answer"}
  IN CASE e.kind = "absent" -> IF gone[c.o] > 0 THEN {} ELSE {"answer"}
       [] x.gone = 2 /\ c.op \in {"update", "final", "reinit"} -> {"answer"}
       [] c.op = "raw" -> answer(obj)
       [] c.op \in {"make", "reinit"} -> IF x.entered THEN answer(x.snap) ELSE {"answer"}
       [] c.op = "drop" -> answer(obj)
       [] c.op \in {"calc", "hmac"} -> answer(obj) \cup digest(obj)
       [] x.entered -> answer(x.snap) \cup digest(x.snap)
       \* without the library: what is refused, or was not yet initialised when called
       [] P!Class(c, x.was) \in {"form", "value", "missing"} -> answer(x.was)
       [] P!Class(c, x.was) = "unspec" /\ e.kind = "exc" -> answer(x.was)
       [] OTHER -> {"serial"}
Answered(e) ==
  LET w == Wrong(e) c == th[e.t].c IN
  /\ Report(w, IF "digest" \in w THEN Value(c, IF th[e.t].entered THEN th[e.t].snap ELSE obj) ELSE 0)
  /\ th' = [th EXCEPT ![e.t] = [busy |-> FALSE]]
  /\ gone' = IF c.op = "drop" THEN [gone EXCEPT ![c.o] = 2] ELSE gone
  /\ obj' = IF c.op = "raw" /\ w = {} THEN P!Effect(c, obj, e.kind) ELSE obj
  /\ UNCHANGED ctx
End(e) ==
  /\ Report((IF e.crash # "" THEN {"crash"} ELSE {}) \cup (IF e.hang # 0 THEN {"hang"} ELSE {}), 0)
  /\ UNCHANGED <<obj, th, ctx, gone>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "reset" -> Reset
          [] tainted -> UNCHANGED <<obj, th, ctx, gone, tainted>>
          [] e.e = "call" -> Called(e)
          [] e.e = "in" -> In(e)
          [] e.e = "new" -> New(e)
          [] e.e = "out" -> Out(e)
          [] e.e = "ret" -> Answered(e)
          [] e.e = "end" -> End(e)
Spec == Init /\ [][Next]_vars
=============================================================================
