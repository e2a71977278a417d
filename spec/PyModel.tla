------------------------------ MODULE PyModel ------------------------------
(***************************************************************************)
(* A program that uses pyhmac in every order, on top of module PyBinding.  *)
(* Checked by TLC; with EMIT = "transitions" or "histories" in the         *)
(* environment every transition of the reduced graph, reached by a         *)
(* shortest history, or every history of a given length, is printed and    *)
(* executed with the real module.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Objs, Algs, MaxUpd, WithBad, WithFault, Depth

MInit(a) == 0
MAbsorb(a, m, d) == m + d.n
P == INSTANCE PyBinding

VARIABLES obj, nupd, last, hist
vars == <<obj, nupd, last, hist>>
Emit == IF "EMIT" \in DOMAIN IOEnv THEN IOEnv.EMIT ELSE ""

Op0(op, a, o) == [op |-> op, alg |-> a, o |-> o, form |-> "pos", val |-> "bytes", kval |-> "bytes",
                  d |-> [p |-> 0, o |-> 0, n |-> 0], k |-> [p |-> 0, o |-> 0, n |-> 0], pend |-> FALSE, fired |-> FALSE]
G(p, o, n) == [p |-> p, o |-> o, n |-> n]

BadForms == {"none", "extra", "unknown", "dup"}
BadVals == {"str", "bytearray", "memoryview", "int", "none", "list", "float", "object", "tuple", "bool", "type", "lies", "classraises", "reprraises"}

Births(o) ==
  IF obj[o].st # "absent" THEN {}
  ELSE UNION {{Op0("make", a, o), Op0("raw", a, o)} : a \in Algs}
Lives(o) ==
  IF obj[o].st = "absent" THEN {}
  ELSE LET a == obj[o].alg
           m == IF obj[o].st = "open" THEN obj[o].m ELSE 0
           u == [Op0("update", a, o) EXCEPT !.d = G(o, m, 65)]
           f == Op0("final", a, o)
       IN {Op0("reinit", a, o), f, Op0("drop", a, o)}
          \cup (IF WithBad THEN {[Op0("drop", a, o) EXCEPT !.pend = TRUE]} ELSE {})
          \cup (IF nupd[o] < MaxUpd THEN {[u EXCEPT !.d = G(o, m, n), !.form = w] : n \in (IF WithBad THEN {0, 3, 65} ELSE {65}), w \in (IF WithBad THEN {"pos", "kw"} ELSE {"pos"})} ELSE {})
          \cup (IF WithBad
                THEN {[u EXCEPT !.form = w] : w \in BadForms}
                     \cup {[u EXCEPT !.val = v, !.form = w] : v \in BadVals, w \in {"pos", "kw"}}
                     \cup (IF nupd[o] < MaxUpd THEN {[u EXCEPT !.val = "sub", !.form = w] : w \in {"pos", "kw"}} ELSE {})
                     \cup {[f EXCEPT !.form = w] : w \in {"extra", "unknown"}}
                ELSE {})
Shots ==
  UNION {LET c == [Op0("calc", a, 0) EXCEPT !.d = G(7, 0, 70)]
             h == [c EXCEPT !.op = "hmac", !.k = G(8, 0, 70)]
         IN {c, h, [c EXCEPT !.form = "kw"], [h EXCEPT !.form = "kw"], [h EXCEPT !.form = "mix"]} \cup
            (IF WithBad
             THEN {[x EXCEPT !.form = w] : x \in {c, h}, w \in BadForms}
                  \cup {[x EXCEPT !.val = v, !.form = w] : x \in {c, h}, v \in BadVals \cup {"sub"}, w \in {"pos", "kw"}}
                  \cup {[h EXCEPT !.kval = v, !.form = w] : v \in BadVals \cup {"sub"}, w \in {"pos", "kw"}}
                  \cup {[h EXCEPT !.kval = v, !.val = v] : v \in BadVals \cup {"sub"}}
             ELSE {})
         : a \in Algs}
Ops == UNION {Births(o) \cup Lives(o) : o \in Objs} \cup (IF WithBad THEN Shots ELSE {})
CanFail(c) == c.op \in {"make", "reinit", "update", "final", "drop", "calc", "hmac"} /\ P!Class(c, obj) # "form"
Faulty(c) == IF WithFault /\ CanFail(c) THEN {c, [c EXCEPT !.fired = TRUE]} ELSE {c}

Kinds == {"obj", "none", "bytes", "exc"}
Excs == {"", "TypeError", "ValueError", "OSError", "KeyError"}

Init == /\ obj = [o \in Objs |-> P!Absent]
        /\ nupd = [o \in Objs |-> 0]
        /\ last = [c |-> Op0("version", "md5", 0), class |-> "none", kind |-> "none"]
        /\ hist = <<>>
Do(c, kind) ==
  /\ obj' = P!Effect(c, obj, kind)
  /\ nupd' = [o \in Objs |-> IF o # c.o \/ c.op \in {"calc", "hmac"} THEN nupd[o]
                             ELSE IF obj'[o].st # "open" THEN 0
                             ELSE IF c.op = "reinit" \/ c.op = "make" THEN 0
                             ELSE IF obj'[o] # obj[o] THEN nupd[o] + 1 ELSE nupd[o]]
  /\ last' = IF Emit = "" THEN [c |-> c, class |-> P!Class(c, obj), kind |-> kind] ELSE last
  /\ hist' = IF Emit = "" THEN hist ELSE Append(hist, c)
Next ==
  /\ Len(hist) < Depth
  /\ \E c0 \in Ops : \E c \in Faulty(c0) : \E kind \in Kinds :
        /\ \E e \in Excs : P!AnswerOk(c, obj, kind, e)
        /\ Do(c, kind)
Spec == Init /\ [][Next]_vars
View == IF Emit = "histories" THEN <<obj, nupd, hist>> ELSE <<obj, nupd, <<>> >>

-----------------------------------------------------------------------------
TypeOK ==
  \A o \in Objs : /\ obj[o].st \in {"absent", "raw", "open", "done", "spoilt"}
                  /\ obj[o].st # "absent" => obj[o].alg \in Algs
(* Every object can be dropped, and then owns nothing. *)
Droppable == [][last'.c.op = "drop" => obj'[last'.c.o].st = "absent"]_vars
(* A refused call changes nothing. *)
Harmless == [][last'.class \in {"form", "value", "missing"} => obj' = obj]_vars
(* Objects do not affect each other; the functions of the module affect none. *)
Independent == [][\A o \in Objs : (o # last'.c.o \/ last'.c.op \in {"calc", "hmac"}) => obj'[o] = obj[o]]_vars
(* A digest comes from an open object only. *)
Delivered == [][(last'.c.op = "final" /\ last'.class = "valid" /\ last'.kind = "bytes")
                  => obj[last'.c.o].st = "open" /\ obj'[last'.c.o].st = "done"]_vars
(* Refusals never answer with a value. *)
Refused == [][last'.class \in {"form", "value", "missing"} => last'.kind = "exc"]_vars
(* An object gets usable only by an initialisation that worked. *)
Initialised ==
  [][\A o \in Objs : (obj'[o].st = "open" /\ obj[o].st # "open") => last'.c.op \in {"make", "reinit"} /\ last'.kind # "exc"]_vars

EmitTransition == PrintT("@T" \o ToJson([h |-> hist', k |-> P!Class(hist'[Len(hist')], obj), s |-> obj']))
EmitComplete == Len(hist) = Depth => PrintT("@T" \o ToJson([h |-> hist, k |-> "valid", s |-> obj]))
=============================================================================
