------------------------------- MODULE SumTool --------------------------------
(***************************************************************************)
(* One run of hmacsum as seen from outside: what it asks of the input      *)
(* layer, what happens to it (failures, interrupts) and what it prints and *)
(* returns. Step takes over an event; Broken names the promises that the   *)
(* end of the run breaks.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Plus(_, _), Less(_, _), Zero,       \* numbers of bytes
          Lines(_),               \* the digest lines of a set of types for this input: label, value
          Beginning(_, _)         \* one value is the beginning of another

(* plan: what the command line asks for
     what   run, help, version, invalid, missing
     types  the selected digest types; open: TRUE if nothing is promised about the list
     known  the size of the process buffer is known: bytes
     buf    ok, over (falls back), refused, zero, huge, open
     src    the operand *)
Start(plan) ==
  [plan |-> plan, open |-> "no", name |-> <<>>, sized |-> "no", size |-> Zero, pos |-> Zero,
   bad |-> FALSE, int |-> "no", after |-> 0, faults |-> {},
   asked |-> FALSE, first |-> Zero, large |-> FALSE,
   fed |-> [a \in plan.types |-> Zero], fedbad |-> FALSE]

(* Moments that certainly lie in the opening or the processing of the input *)
Moments == {"open", "opened", "size", "sized", "read", "reading", "lib"}

Working(e) == e.e \in {"open", "size", "read", "lib"}

Step(s, e) ==
  LET t == IF s.int = "maybe" /\ Working(e) THEN [s EXCEPT !.int = "now"] ELSE s
  IN CASE e.e = "open"  -> [t EXCEPT !.open = IF e.ok = 1 THEN "ok" ELSE "failed", !.name = Append(@, e.name)]
       [] e.e = "size"  -> [t EXCEPT !.sized = IF e.ok = 1 THEN "ok" ELSE "failed", !.size = e.n]
       [] e.e = "read"  -> [t EXCEPT !.asked = TRUE, !.first = IF s.asked THEN @ ELSE e.req,
                                     !.large = @ \/ (t.plan.known /\ Less(t.plan.bytes, e.req)),
                                     !.after = IF t.int = "no" THEN 0 ELSE @ + 1,
                                     !.bad = @ \/ e.failed = 1 \/ (e.got = Zero /\ e.asked = 1 /\ s.pos # s.size),
                                     !.pos = IF e.failed = 1 THEN @ ELSE Plus(@, e.got)]
       [] e.e = "int"   -> [t EXCEPT !.int = IF e.at \in Moments THEN "now" ELSE IF @ = "now" THEN "now" ELSE "maybe"]
       [] e.e = "fault" -> [t EXCEPT !.faults = @ \cup {e.kind}]
       [] e.e = "lib"   -> IF e.op = "update" /\ "n" \in DOMAIN e
                           THEN IF e.alg \in DOMAIN t.fed
                                THEN [t EXCEPT !.fed[e.alg] = Plus(@, e.n), !.fedbad = @ \/ e.ok # 1]
                                ELSE [t EXCEPT !.fedbad = TRUE]
                           ELSE t

(* Failures after which no digest may be printed *)
Hard == {"malloc", "init", "update", "final", "fileinit"}
Essential(s) == s.open = "failed" \/ s.sized = "failed" \/ s.bad \/ s.faults \cap Hard # {}
Loose(s) == s.faults \ Hard # {}
Complete(s) == s.open = "ok" /\ s.sized = "ok" /\ s.pos = s.size

MustFail(s) == Essential(s) \/ s.int = "now" \/ ~Complete(s) \/ s.plan.buf \in {"refused", "zero"}
MayFail(s) == \/ Essential(s) \/ Loose(s) \/ s.int # "no"
              \/ s.plan.buf \in {"refused", "zero", "huge", "open"} \/ s.plan.open

(* The bytes each selected type was fed, where they were recorded *)
Fed(s) == ~s.fedbad /\ \A a \in s.plan.types : s.fed[a] = s.size

(* x: status 0 or not, lines, aborted, usage, version, copyright (BOOLEAN),
   told: there is a message, fallback: the default buffer size is announced,
   cut: not all that was written may have arrived, whole: what arrived ends with a line,
   live, handles, errs (outstanding) *)
Ok(x) == x.status = 0
ExactLines(s, x) ==
  IF s.plan.open THEN x.lines \in {Lines(t \cup {"md5"}) : t \in SUBSET s.plan.types}
  ELSE x.lines = Lines(s.plan.types)

(* What arrived when the output has no room for more: the first lines, the last one cut short. *)
CutLines(s, x) ==
  \E t \in (IF s.plan.open THEN {u \cup {"md5"} : u \in SUBSET s.plan.types} ELSE {s.plan.types}) :
    LET w == Lines(t) n == Len(x.lines)
    IN n <= Len(w) /\ \A i \in 1..n : /\ x.lines[i][1] = w[i][1]
                                       /\ (i < n => x.lines[i] = w[i])
                                       /\ (i = n => Beginning(x.lines[i][2], w[i][2]))

Holds(p, s, x) ==
  LET run == s.plan.what = "run"
  IN CASE p = "exact"    -> /\ (run /\ Ok(x)) => ExactLines(s, x)
                            /\ (run /\ x.lines # <<>> /\ ~MustFail(s) /\ ~x.cut) => ExactLines(s, x)
                            /\ (run /\ Ok(x) /\ x.rec) => Fed(s)
       [] p = "succeed"  -> (run /\ ~MayFail(s) /\ ~x.cut) => Ok(x)
       [] p = "refuse"   -> (run /\ MustFail(s)) => (~Ok(x) /\ x.lines = <<>>)
       [] p = "nodigest" -> (run /\ (Essential(s) \/ ~Complete(s)) /\ s.int = "no") => (~Ok(x) /\ x.lines = <<>>)
       [] p = "released" -> x.live = 0 /\ x.handles = 0 /\ (s.int = "no" => x.errs = 0)
       [] p = "aborted"  -> s.int = "now" =>
                              /\ ~Ok(x) /\ x.lines = <<>> /\ s.after <= 1
                              /\ Loose(s) \/ x.cut \/ x.aborted
       [] p = "spurious" -> s.int = "no" => ~x.aborted
       [] p = "command"  ->
            CASE x.cut -> TRUE
              [] s.plan.what = "help"    -> Ok(x) /\ x.usage /\ s.name = <<>> /\ x.lines = <<>>
              [] s.plan.what = "version" -> Ok(x) /\ x.copyright /\ s.name = <<>> /\ x.lines = <<>>
              [] s.plan.what \in {"invalid", "missing"} -> ~Ok(x) /\ x.usage /\ s.name = <<>> /\ x.lines = <<>>
              [] OTHER -> /\ \A i \in DOMAIN s.name : s.name[i] = s.plan.src
                          /\ s.plan.buf = "refused" => (~Ok(x) /\ x.lines = <<>>)
                          /\ s.plan.buf = "zero" => (~Ok(x) /\ x.lines = <<>>)
                          /\ ~x.usage /\ ~x.copyright
       \* the file is read in pieces of the process buffer
       [] p = "buffer"   -> (s.plan.known /\ s.asked) =>
                              ~s.large /\ s.first = (IF Less(s.size, s.plan.bytes) THEN s.size ELSE s.plan.bytes)
       \* a failure says what failed, and a buffer size that is not applied is reported
       [] p = "told"     -> /\ (run /\ ~Ok(x) /\ ~x.cut) => x.told
                            /\ (run /\ s.plan.buf = "over" /\ s.open # "no" /\ ~x.cut) => x.fallback
       [] p = "banner"   -> Loose(s) \/ x.cut \/ x.version
       [] p = "written"  -> (run /\ Ok(x)) => (ExactLines(s, x) /\ x.whole)
       [] p = "cutlines" -> (run /\ x.lines # <<>> /\ ~MustFail(s)) => CutLines(s, x)

Promises == {"exact", "succeed", "refuse", "nodigest", "released", "aborted", "spurious", "command", "banner", "written", "cutlines", "buffer", "told"}
Broken(ps, s, x) == {p \in ps : ~Holds(p, s, x)}
=============================================================================
