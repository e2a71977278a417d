------------------------------ MODULE PySharing ------------------------------
(***************************************************************************)
(* Python context objects used by several threads at once. A method gives  *)
(* the interpreter to other threads while the library works, so a call is  *)
(* not one step: a thread is called, gets the object for itself, lets the  *)
(* library work on the object's context (which reads the state when it     *)
(* starts and writes it when it ends), gives the object back and answers.  *)
(*                                                                         *)
(* Checked by TLC: every digest is the one of the pieces in some order in  *)
(* which the calls could have been made one after the other, no context is *)
(* used after it was released, and every call ends. With Locked = FALSE,   *)
(* where a thread does not get the object for itself, TLC has to find      *)
(* counterexamples. With EMIT set the schedules are printed: which thread  *)
(* calls what, and when the work of a thread goes on ("go"). The real      *)
(* module is run through them (shim/vp_gate.c stops the threads within the *)
(* library) and what it did is checked by PyShareTrace.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Threads, Objs, MaxOps, Kinds, Locked, Depth, Starts

VARIABLES obj, th, hist, dead, invoked, returned
vars == <<obj, th, hist, dead, invoked, returned>>
Emit == IF "EMIT" \in DOMAIN IOEnv THEN IOEnv.EMIT ELSE ""

(* obj: st raw | open | done | gone, gen the context (a number), m the pieces
   in it, holder the thread that has the object for itself (0: none).
   A piece is <<thread, number of the call>>. *)
None == 0
Idle == [pc |-> "idle", k |-> "", o |-> 0, n |-> 0, gen |-> 0, read |-> <<>>, ans |-> <<>>, sure |-> {}]
(* The calls during which the interpreter runs other threads. *)
Slow == {"update", "final"}
(* The functions of the module: they have no object. *)
Shots == {"calc", "hmac"}

Init ==
  /\ obj \in [Objs -> {[st |-> s, gen |-> IF s = "raw" THEN 0 ELSE 1, m |-> <<>>, holder |-> None] : s \in Starts}]
  /\ th = [t \in Threads |-> Idle]
  /\ hist = <<[a |-> "start", objs |-> [o \in Objs |-> obj[o].st]]>>
  /\ dead = {}
  /\ invoked = {} /\ returned = {}

Note(x) == hist' = IF Emit = "" THEN hist ELSE Append(hist, x)
Quiet == UNCHANGED hist

(* invoked, returned: the pieces of the updates of the present context that were
   called for, and that ended. *)
Call(t) ==
  /\ th[t].pc = "idle" /\ th[t].n < MaxOps
  /\ \E o \in Objs, k \in Kinds :
       /\ obj[o].st # "gone"
       /\ k \in Shots => o = 1
       /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.pc = "called", !.k = k, !.o = o, !.n = th[t].n + 1,
                                   !.sure = {p \in returned : p[3] = o}]]
       /\ invoked' = IF k = "update" THEN invoked \cup {<<t, th[t].n + 1, o>>} ELSE invoked
       /\ Note([a |-> "call", t |-> t, k |-> k, o |-> o, n |-> th[t].n + 1])
  /\ UNCHANGED <<obj, dead, returned>>

Free(o) == obj[o].holder = None \/ ~Locked
Enter(t) ==
  LET x == th[t] o == x.o
  IN /\ x.pc = "called"
     /\ \/ /\ x.k \in Slow /\ obj[o].st \in {"open", "done"} /\ Free(o)
           /\ th' = [th EXCEPT ![t].pc = "in", ![t].gen = obj[o].gen, ![t].read = obj[o].m]
           /\ obj' = [obj EXCEPT ![o].holder = t]
        \/ /\ x.k = "reinit" /\ Free(o)
           /\ th' = [th EXCEPT ![t].pc = "in", ![t].gen = obj[o].gen]
           /\ obj' = [obj EXCEPT ![o].holder = t]
        \/ /\ x.k \in Slow /\ obj[o].st = "raw"
           /\ th' = [th EXCEPT ![t].pc = "left", ![t].ans = <<"exc">>]
           /\ UNCHANGED obj
        \/ /\ x.k \in Shots
           /\ th' = [th EXCEPT ![t].pc = "in"]
           /\ UNCHANGED obj
        \/ /\ x.k = "bad"
           /\ th' = [th EXCEPT ![t].pc = "left", ![t].ans = <<"exc">>]
           /\ UNCHANGED obj
        \/ /\ x.k = "drop"
           /\ th' = [th EXCEPT ![t].pc = "left", ![t].ans = <<"none">>]
           /\ obj' = [obj EXCEPT ![o].st = "gone"]
        \/ /\ obj[o].st = "gone" /\ x.k \notin ({"drop", "bad"} \cup Shots)
           /\ th' = [th EXCEPT ![t].pc = "left", ![t].ans = <<"absent">>]
           /\ UNCHANGED obj
  /\ Quiet /\ UNCHANGED <<dead, invoked, returned>>
Work(t) ==
  /\ th[t].pc = "in" /\ th[t].k \in Slow \cup Shots
  /\ th' = [th EXCEPT ![t].pc = "out"]
  /\ Note([a |-> "go", t |-> t])
  /\ UNCHANGED <<obj, dead, invoked, returned>>
Leave(t) ==
  LET x == th[t] o == x.o
  IN /\ \/ x.pc = "out" /\ Note([a |-> "go", t |-> t])
        \/ x.pc = "in" /\ x.k = "reinit" /\ Quiet
     /\ th' = [th EXCEPT ![t].pc = "left",
                         ![t].ans = IF x.k \in Shots THEN <<"any">> ELSE IF x.k = "final" THEN <<IF obj[o].st = "done" THEN "any" ELSE "bytes", x.read>> ELSE <<"none">>]
     /\ obj' = IF x.k \in Shots THEN obj ELSE [obj EXCEPT ![o].holder = None,
                           ![o].st = CASE obj[o].st = "gone" -> "gone"
                                       [] x.k = "reinit" -> "open"
                                       [] x.k = "final" -> "done"
                                       [] OTHER -> @,
                           ![o].gen = IF x.k = "reinit" THEN 1 + x.gen ELSE @,
                           ![o].m = CASE x.k = "reinit" -> <<>>
                                      [] x.k = "update" -> Append(x.read, <<t, x.n, o>>)
                                      [] OTHER -> @]
     /\ dead' = IF x.k = "reinit" THEN dead \cup {<<o, x.gen>>} ELSE dead
     /\ IF x.k = "reinit"
        THEN \* what is pending may still come in
             /\ invoked' = {p \in invoked : p[3] # o \/ (th[p[1]].n = p[2] /\ th[p[1]].pc # "left" /\ th[p[1]].pc # "idle")}
             /\ returned' = {p \in returned : p[3] # o}
        ELSE UNCHANGED <<invoked, returned>>
Ret(t) ==
  /\ th[t].pc = "left"
  /\ th' = [th EXCEPT ![t].pc = "idle"]
  /\ returned' = IF th[t].k = "update" /\ th[t].ans = <<"none">> /\ <<t, th[t].n, th[t].o>> \in invoked
                 THEN returned \cup {<<t, th[t].n, th[t].o>>} ELSE returned
  /\ Quiet /\ UNCHANGED <<obj, dead, invoked>>
Next == Len(hist) < Depth /\ \E t \in Threads : Call(t) \/ Enter(t) \/ Work(t) \/ Leave(t) \/ Ret(t)
Fair == \A t \in Threads : WF_vars(Enter(t)) /\ WF_vars(Work(t)) /\ WF_vars(Leave(t)) /\ WF_vars(Ret(t))
Spec == Init /\ [][Next]_vars /\ Fair
View == IF Emit = "histories" THEN <<obj, th, hist>> ELSE <<obj, [t \in Threads |-> [th[t] EXCEPT !.sure = {}]]>>

-----------------------------------------------------------------------------
Inside(o) == {t \in Threads : th[t].o = o /\ th[t].k \notin Shots /\ (th[t].pc \in {"in", "out"})}
Exclusive == \A o \in Objs : Cardinality(Inside(o)) <= 1
Alive == \A o \in Objs : \A t \in Inside(o) : <<o, th[t].gen>> \notin dead
Set(s) == {s[i] : i \in DOMAIN s}
(* What a digest covers: every update that had ended when the digest was asked for (unless
   the context was renewed in between), only what was called for, nothing twice, and the pieces
   of a thread in the order of its calls. *)
Digests ==
  \A t \in Threads : (th[t].pc = "left" /\ th[t].ans # <<>> /\ th[t].ans[1] = "bytes")
    => LET m == th[t].ans[2] IN
       /\ \A p \in th[t].sure : (p \in returned) => p \in Set(m)
       /\ \A i, j \in DOMAIN m : i < j => m[i] # m[j] /\ (m[i][1] = m[j][1] => m[i][2] < m[j][2])
(* Two digests of one context, or a digest and what is in the context, never disagree. *)
Kept == [][\A t \in Threads : (th[t].pc = "out" /\ th'[t].pc = "left" /\ th[t].k = "update" /\ obj[th[t].o].st # "gone")
             => \A i \in DOMAIN obj[th[t].o].m : obj'[th[t].o].m[i] = obj[th[t].o].m[i]]_vars
Ends == \A t \in Threads : th[t].pc # "idle" ~> th[t].pc = "idle"

EmitTransition == (Len(hist') > Len(hist)) => PrintT("@T" \o ToJson(hist'))
EmitComplete == Len(hist) = Depth => PrintT("@T" \o ToJson(hist))
=============================================================================
