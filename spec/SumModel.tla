------------------------------- MODULE SumModel -------------------------------
(***************************************************************************)
(* hmacsum as an algorithm, in an environment that splits reads, fails     *)
(* once anywhere and interrupts once anywhere, observed by SumTool. TLC    *)
(* checks that every end of a run keeps every promise and that every run   *)
(* ends; each run is emitted as a script for the real tool.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxSize, MaxBuf, Emit, Both    \* Both: a failure and an interrupt in one run

TheLines(types) == <<<<"MD5", types>>, <<"SHA1", types>>>>
Add(x, y) == x + y
Same(v, w) == v = w \/ v = <<>>
Under(x, y) == x < y
R == INSTANCE SumTool WITH Plus <- Add, Less <- Under, Zero <- 0, Lines <- TheLines, Beginning <- Same

VARIABLES
  pc, size, buf, pos, abort, failed, got, printed, cut,   \* the tool
  s,                                        \* the observer
  x,                                        \* how the run ended
  occ, script                               \* for the emission: occurrences, choices made
vars == <<pc, size, buf, pos, abort, failed, got, printed, cut, s, x, occ, script>>

Plan == [what |-> "run", types |-> {"md5", "sha1"}, open |-> FALSE, buf |-> "ok", known |-> TRUE, bytes |-> 0, src |-> "f"]
NoEnd == [status |-> -1]
Kinds == {"open", "opened", "size", "sized", "read", "reading", "lib"}

Init ==
  /\ size \in 0..MaxSize /\ buf \in 1..MaxBuf
  /\ pc = "attach" /\ pos = 0 /\ abort = FALSE /\ failed = FALSE /\ got = 0 /\ printed = 0 /\ cut = FALSE
  /\ s = R!Start([Plan EXCEPT !.bytes = buf]) /\ x = NoEnd
  /\ occ = [k \in Kinds |-> 0]
  /\ script = [n |-> size, buf |-> buf, reads |-> <<>>, fail |-> "", faultat |-> 0, int |-> "", intat |-> 0]

Calm == script.fail = "" /\ (Both \/ script.int = "")
MayInterrupt == script.int = "" /\ (Both \/ script.fail = "")

Event(e) == R!Step(s, e)

(* One step of the tool, reaching the moment k. *)
Reach(k, next) ==
  /\ occ' = [occ EXCEPT ![k] = @ + 1]
  /\ pc' = next
  /\ \/ /\ UNCHANGED <<s, abort, script>>
     \/ /\ MayInterrupt
        /\ abort' = TRUE
        /\ s' = Event([e |-> "int", at |-> k])
        /\ script' = [script EXCEPT !.int = k, !.intat = occ[k] + 1]
  /\ UNCHANGED <<size, buf, pos, failed, got, printed, cut, x>>

Do(next, ev, sc) ==
  /\ pc' = next /\ s' = (IF ev = <<>> THEN s ELSE Event(ev[1])) /\ script' = sc
  /\ UNCHANGED <<size, buf, abort, printed, cut, x, occ>>

Fail(name) == [script EXCEPT !.fail = name, !.faultat = occ["lib"]]

Attach == pc = "attach" /\ Do("open?", <<>>, script) /\ UNCHANGED <<pos, failed, got>>
Open0 == pc = "open?" /\ Reach("open", "open")
Open ==
  /\ pc = "open"
  /\ \/ Do("opened?", <<[e |-> "open", ok |-> 1, name |-> "f"]>>, script) /\ failed' = FALSE
     \/ Calm /\ Do("opened?", <<[e |-> "open", ok |-> 0, name |-> "f"]>>, Fail("open")) /\ failed' = TRUE
  /\ UNCHANGED <<pos, got>>
Opened == pc = "opened?" /\ Reach("opened", IF failed \/ abort THEN "end" ELSE "opened")
Size0 == pc = "opened" /\ (IF abort THEN Do("end", <<>>, script) /\ UNCHANGED <<pos, failed, got>> ELSE Reach("size", "size"))
Size ==
  /\ pc = "size"
  /\ \/ Do("sized?", <<[e |-> "size", ok |-> 1, n |-> size]>>, script) /\ failed' = FALSE
     \/ Calm /\ Do("end", <<[e |-> "size", ok |-> 0, n |-> size]>>, Fail("size")) /\ failed' = TRUE
  /\ UNCHANGED <<pos, got>>
Sized == pc = "sized?" /\ Reach("sized", "alloc")
Alloc ==
  /\ pc = "alloc"
  /\ \/ Do("init?", <<>>, script) /\ failed' = FALSE
     \/ Calm /\ Do("end", <<[e |-> "fault", kind |-> "malloc"]>>, Fail("malloc")) /\ failed' = TRUE
  /\ UNCHANGED <<pos, got>>
LibPoint(at, next) == pc = at /\ Reach("lib", next)
LibOp(at, op, next) ==
  /\ pc = at
  /\ \/ Do(next, <<[e |-> "lib", op |-> op, alg |-> "md5"]>>, script) /\ failed' = FALSE
     \/ Calm /\ Do("end", <<[e |-> "fault", kind |-> op]>>, Fail("lib")) /\ failed' = TRUE
  /\ UNCHANGED <<pos, got>>
Loop ==
  /\ pc = "loop"
  /\ Do(IF pos < size /\ ~(abort /\ pos > 0) THEN "read?" ELSE "final?", <<>>, script)
  /\ UNCHANGED <<pos, failed, got>>
Read0 == pc = "read?" /\ Reach("read", "read")
Want == IF size - pos < buf THEN size - pos ELSE buf
Read ==
  /\ pc = "read"
  /\ \/ \E g \in 1..Want :
          /\ Do("reading?", <<[e |-> "read", asked |-> 1, req |-> Want, got |-> g, failed |-> 0]>>, [script EXCEPT !.reads = Append(@, g)])
          /\ got' = g /\ pos' = pos + g /\ failed' = FALSE
     \/ \E b \in {"e", "z"} :
          /\ Calm
          /\ Do("reading?", <<[e |-> "read", asked |-> 1, req |-> Want, got |-> 0, failed |-> IF b = "e" THEN 1 ELSE 0]>>,
                [script EXCEPT !.reads = Append(@, IF b = "e" THEN -1 ELSE 0), !.fail = b])
          /\ got' = 0 /\ failed' = TRUE /\ UNCHANGED pos
Reading == pc = "reading?" /\ Reach("reading", IF failed THEN "end" ELSE "update?")
(* The lines are printed one by one; the output may have no room for the next. *)
PrintLine ==
  /\ pc = "print"
  /\ \/ /\ printed < 2 /\ ~abort
        /\ printed' = printed + 1 /\ UNCHANGED <<pc, cut, failed, script>>
     \/ /\ printed < 2 /\ ~abort /\ Calm
        /\ pc' = "end" /\ cut' = TRUE /\ failed' = TRUE
        /\ script' = [script EXCEPT !.fail = "print", !.faultat = printed]
        /\ UNCHANGED printed
     \/ /\ (printed = 2 \/ abort)
        /\ pc' = "end" /\ UNCHANGED <<printed, cut, failed, script>>
  /\ UNCHANGED <<size, buf, pos, abort, got, s, x, occ>>
Finish ==
  /\ pc = "end"
  /\ pc' = "done"
  /\ x' = [status |-> IF abort \/ failed THEN 1 ELSE 0, lines |-> SubSeq(TheLines(Plan.types), 1, printed), cut |-> cut, whole |-> ~cut, told |-> TRUE, fallback |-> FALSE,
           aborted |-> abort, usage |-> FALSE, version |-> TRUE, copyright |-> FALSE, rec |-> FALSE,
           live |-> 0, handles |-> 0, errs |-> 0]
  /\ UNCHANGED <<size, buf, pos, abort, failed, got, printed, cut, s, occ, script>>

Next == \/ Attach \/ Open0 \/ Open \/ Opened \/ Size0 \/ Size \/ Sized \/ Alloc
        \/ LibPoint("init?", "init") \/ LibOp("init", "init", "loop")
        \/ Loop \/ Read0 \/ Read \/ Reading
        \/ LibPoint("update?", "update") \/ LibOp("update", "update", "loop")
        \/ LibPoint("final?", "final") \/ LibOp("final", "final", "print")
        \/ PrintLine \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Promised == pc = "done" => R!Broken(R!Promises, s, x) = {}
(* A digest is printed only if the whole input was read and nothing happened. *)
Honest == (pc = "done" /\ x.lines # <<>>) => (pos = size /\ ~abort /\ (~failed \/ cut))
(* A success means that all the lines arrived. *)
Delivered == (pc = "done" /\ x.status = 0) => x.lines = TheLines(Plan.types)
AfterOne == s.after <= 1
Ends == <>(pc = "done")
Emitted == (Emit /\ pc = "done") => PrintT("@S" \o ToJson(script))
View == <<pc, size, buf, pos, abort, failed, got, printed, cut, s, x, IF Emit THEN <<occ, script>> ELSE <<script.fail = "", script.int = "">>>>
=============================================================================
