------------------------------ MODULE PyBinding ------------------------------
(***************************************************************************)
(* The Python module pyhmac as a state machine: objects that a program     *)
(* holds, the operations on them and on the module, and what each          *)
(* operation may answer.                                                   *)
(*                                                                         *)
(* An object is                                                            *)
(*   absent   not there (never made, or dropped)                           *)
(*   raw      made without initialisation, or its initialisation failed    *)
(*   open     initialised; m is what it absorbed                           *)
(*   done     its digest was delivered                                     *)
(*   spoilt   an operation of the library failed on it                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  MInit(_),         \* algorithm -> nothing absorbed
  MAbsorb(_, _, _)  \* algorithm, absorbed, data -> absorbed

Absent == [st |-> "absent"]
Raw(a) == [st |-> "raw", alg |-> a]
Open(a, m) == [st |-> "open", alg |-> a, m |-> m]
Done(a) == [st |-> "done", alg |-> a]
Spoilt(a) == [st |-> "spoilt", alg |-> a]

(* An operation c is a record:
     op     make | raw | reinit | update | final | drop | calc | hmac | version
     o      the object,  alg  the algorithm
     form   how arguments are given: pos | kw | mix, or, wrongly,
            none | extra | unknown | dup
     val    what is given as data: bytes | sub (a subclass of bytes), or else
     kval   what is given as key
     d, k   the data and the key when they are bytes
     pend   drop: an exception is on its way when the object goes
     fired  a resource or back end operation of the call failed            *)
GoodForms == {"pos", "kw", "mix"}
GoodValues == {"bytes", "sub"}
(* Objects that raise when they are examined. *)
Hostile == {"classraises", "reprraises"}

TakesData(c) == c.op \in {"update", "calc", "hmac"}
WrongForm(c) == c.op \in {"update", "final", "calc", "hmac"} /\ c.form \notin GoodForms
WrongValue(c) ==
  \/ TakesData(c) /\ c.val \notin GoodValues
  \/ c.op = "hmac" /\ c.kval \notin GoodValues
SomeHostile(c) == c.val \in Hostile \/ (c.op = "hmac" /\ c.kval \in Hostile)

Class(c, s) ==
  IF WrongForm(c) THEN "form"
  ELSE IF WrongValue(c) THEN "value"
  ELSE IF c.op \in {"update", "final"}
       THEN CASE s[c.o].st = "raw" -> "missing"
              [] s[c.o].st = "open" -> "valid"
              [] OTHER -> "unspec"
  ELSE "valid"

Result(c) ==
  CASE c.op \in {"make", "raw"} -> "obj"
    [] c.op \in {"reinit", "update", "drop"} -> "none"
    [] c.op = "version" -> "str"
    [] OTHER -> "bytes"

LibraryErrors == {"OSError", "MemoryError", "ValueError", "RuntimeError"}
(* Data that is plainly not bytes is refused with a TypeError; what claims to be bytes
   and is not, and a wrong key, with a TypeError or ValueError. *)
ValueErrors(c) == IF c.val \notin GoodValues \cup {"lies"} /\ (c.op = "hmac" => c.kval \in GoodValues)
                  THEN {"TypeError"} ELSE {"TypeError", "ValueError"}

(* The answers allowed: <<kind, exception>>. Whatever happens while an object
   is dropped, the program goes on, or the exception that was on its way
   arrives. *)
AnswerOk(c, s, kind, exc) ==
  LET k == Class(c, s)
  IN CASE c.op = "drop" -> IF c.pend THEN kind = "exc" /\ exc = "KeyError" ELSE kind = "none"
       [] k = "form" -> kind = "exc" /\ exc = "TypeError"
       [] k = "value" -> kind = "exc" /\ (IF SomeHostile(c) THEN exc # "SystemError" ELSE exc \in ValueErrors(c))
       [] k = "missing" -> kind = "exc" /\ exc \in LibraryErrors
       [] k = "valid" /\ ~c.fired -> kind = Result(c)
       [] OTHER -> kind = Result(c) \/ (kind = "exc" /\ exc \in LibraryErrors)

(* Bytes that must be the digest. *)
Delivers(c, s, kind) == Class(c, s) = "valid" /\ kind = "bytes"

Effect(c, s, kind) ==
  LET k == Class(c, s)
      o == s[c.o]
  IN CASE c.op = "make" -> IF kind = "obj" THEN [s EXCEPT ![c.o] = Open(c.alg, MInit(c.alg))] ELSE s
       [] c.op = "raw" -> IF kind = "obj" THEN [s EXCEPT ![c.o] = Raw(c.alg)] ELSE s
       [] c.op = "reinit" -> IF kind = "none" THEN [s EXCEPT ![c.o] = Open(o.alg, MInit(o.alg))]
                             ELSE [s EXCEPT ![c.o] = Raw(o.alg)]
       [] c.op = "drop" -> [s EXCEPT ![c.o] = Absent]
       [] c.op = "update" /\ k = "valid" ->
            IF kind = "none" THEN [s EXCEPT ![c.o] = Open(o.alg, MAbsorb(o.alg, o.m, c.d))]
            ELSE [s EXCEPT ![c.o] = Spoilt(o.alg)]
       [] c.op = "final" /\ k = "valid" ->
            [s EXCEPT ![c.o] = IF kind = "bytes" THEN Done(o.alg) ELSE Spoilt(o.alg)]
       [] OTHER -> s

(* Whether the object owns a context of the library. *)
Owns(x) == x.st \in {"open", "done", "spoilt"}
=============================================================================
