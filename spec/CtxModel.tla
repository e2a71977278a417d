------------------------------ MODULE CtxModel ------------------------------
(***************************************************************************)
(* A caller that uses libhmac in every order, on top of module Contexts.   *)
(* Digest states are abstracted to the number of bytes absorbed.           *)
(*                                                                         *)
(* Two uses.  Checked by TLC: the promises of Contexts have the properties *)
(* that the listed properties rest on (Independent, Harmless, ...).        *)
(* Run by TLC as a generator (EMIT = "transitions" or "histories" in the   *)
(* environment): every transition of the reduced state graph, reached by a *)
(* shortest history, or every complete history, is printed as JSON and     *)
(* executed on the real code by the driver.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == INSTANCE Digest

CONSTANTS
  GenSlots,    \* slots in use
  GenAlgs,     \* algorithms in use
  MaxUpd,      \* updates per context
  Sizes,       \* operator: which update sizes, "few" or "many"
  WithBad,     \* invalid arguments
  WithFault,   \* failing resources
  WithShot,    \* one-shot calls
  AfterDone    \* calls on contexts whose digest was delivered

DigestLen(a) == D!DigestSize[a]
HInit(a) == 0
HAbsorb(a, m, d) == m + d.n
C == INSTANCE Contexts

VARIABLES slot, nupd, last, hist
vars == <<slot, nupd, last, hist>>

Emit == IF "EMIT" \in DOMAIN IOEnv THEN IOEnv.EMIT ELSE ""

B(a) == D!BlockSize[a]
LF(a) == D!LengthSize[a]

(* Sizes of a piece that reach every padding and block boundary case. *)
PieceSizes(a, m) ==
  LET f == m % B(a)
      one == {B(a) - LF(a) + 1}
      few == {1, B(a) - LF(a) - f, B(a) - f + 3}
      many == {0, 1, B(a) - LF(a) - 1 - f, B(a) - LF(a) - f, B(a) - f - 1, B(a) - f,
               B(a) - f + 1, 2 * B(a) - f, 2 * B(a) - f + 5, 3 * B(a)}
  IN {n \in (CASE Sizes = "one" -> one [] Sizes = "few" -> few [] OTHER -> many) : n >= 0}

Call0(op, a, s) == [op |-> op, alg |-> a, c |-> s, ref |-> "ok", ctx |-> "ok",
                    outnull |-> FALSE, hs |-> 0, fired |-> FALSE, e |-> 1, lay |-> 0,
                    d |-> [k |-> "none"], k |-> [k |-> "none"]]
GenD(p, o, n) == [k |-> "gen", p |-> p, o |-> o, n |-> n]
NullD == [k |-> "null", n |-> "0"]
NullD5 == [k |-> "null", n |-> "5"]
BigD == [k |-> "big", n |-> "M"]
BigX == [k |-> "big", n |-> "X"]

AlgOf(s, a) == IF slot[s].st = "null" THEN a ELSE slot[s].alg

Inits(s) ==
  IF Emit = "histories" /\ slot[s].st # "null" THEN {} ELSE
  {[Call0("init", a, s) EXCEPT !.lay = y] : a \in GenAlgs, y \in (IF WithBad THEN {0, 1} ELSE {0})}
  \cup (IF WithBad THEN {[Call0("init", a, s) EXCEPT !.ref = "null", !.e = e] : a \in GenAlgs, e \in {0, 1}} ELSE {})
Frees(s) ==
  LET as == IF slot[s].st = "null" THEN GenAlgs ELSE {slot[s].alg}
  IN IF Emit = "histories" THEN {} ELSE
     {[Call0("free", a, s) EXCEPT !.lay = y] : a \in as, y \in (IF WithBad THEN {0, 1} ELSE {0})}
     \cup (IF WithBad THEN {[Call0("free", a, s) EXCEPT !.ref = "null", !.e = e] : a \in as, e \in {1, 2}} ELSE {})
Updates(s) ==
  IF slot[s].st = "null"
  THEN IF WithBad
       THEN {[Call0("update", a, s) EXCEPT !.d = GenD(s, 0, 3), !.lay = y] : a \in GenAlgs, y \in {0, 1}}
       ELSE {}
  ELSE LET a == slot[s].alg
           m == IF slot[s].st = "open" THEN slot[s].m ELSE 0
       IN (IF slot[s].st = "open" /\ nupd[s] < MaxUpd
           THEN {[Call0("update", a, s) EXCEPT !.d = GenD(s, m, n), !.lay = (n % 2)] : n \in PieceSizes(a, m)}
           ELSE {})
          \cup (IF WithBad
                THEN {[Call0("update", a, s) EXCEPT !.d = x, !.e = e] :
                          x \in {NullD, NullD5, BigD, BigX}, e \in {0, 1, 2}}
                     \cup {[Call0("update", a, s) EXCEPT !.ctx = "null", !.d = GenD(s, m, 7)]}
                ELSE {})
          \cup (IF slot[s].st # "open" /\ AfterDone
                THEN {[Call0("update", a, s) EXCEPT !.d = GenD(s, 0, n)] : n \in {0, 1, B(a) + 9}}
                ELSE {})
OutSizes(a) == {DigestLen(a), DigestLen(a) + 1, DigestLen(a) + 40, -2, -3, -4}
BadOuts(x) ==
  {[x EXCEPT !.outnull = TRUE, !.hs = DigestLen(x.alg)], [x EXCEPT !.hs = 0],
   [x EXCEPT !.hs = DigestLen(x.alg) - 1], [x EXCEPT !.hs = -1],
   [x EXCEPT !.hs = DigestLen(x.alg) - 1, !.e = 0], [x EXCEPT !.hs = -1, !.e = 2]}
Finals(s) ==
  IF slot[s].st = "null"
  THEN IF WithBad THEN {[Call0("final", a, s) EXCEPT !.hs = DigestLen(a), !.lay = y] : a \in GenAlgs, y \in {0, 1}} ELSE {}
  ELSE LET a == slot[s].alg
           x == Call0("final", a, s)
       IN (IF slot[s].st = "open" \/ AfterDone
           THEN {[x EXCEPT !.hs = h, !.lay = y] : h \in (IF WithBad THEN OutSizes(a) ELSE {DigestLen(a)}),
                                                  y \in (IF WithBad THEN {0, 1} ELSE {0})}
           ELSE {})
          \cup (IF WithBad THEN BadOuts(x) \cup {[x EXCEPT !.ctx = "null", !.hs = DigestLen(a)]} ELSE {})
Shots ==
  IF ~WithShot THEN {}
  ELSE UNION {LET x == [Call0("calc", a, 0) EXCEPT !.d = GenD(9, 0, 70), !.hs = DigestLen(a)]
                  y == [x EXCEPT !.op = "hmac", !.k = GenD(8, 0, B(a) + 1)]
                  z == [x EXCEPT !.op = "hmac", !.k = GenD(7, 0, 11), !.d = GenD(9, 0, 3)]
              IN {x, y, z} \cup
                 (IF WithBad
                  THEN BadOuts(x) \cup BadOuts(y)
                       \cup {[v EXCEPT !.d = b, !.e = e] : v \in {x, y, z}, b \in {NullD, NullD5, BigD, BigX}, e \in {0, 1, 2}}
                       \cup {[v EXCEPT !.k = b, !.e = e] : v \in {y, z}, b \in {NullD, NullD5, BigD, BigX}, e \in {0, 1, 2}}
                       \cup {[v EXCEPT !.d = GenD(9, 0, 0)] : v \in {x, y, z}}
                       \cup {[v EXCEPT !.k = GenD(9, 0, 0)] : v \in {y, z}}
                       \cup {[v EXCEPT !.hs = h] : v \in {x, y, z}, h \in OutSizes(a)}
                  ELSE {})
              : a \in GenAlgs}

Calls == Shots \cup UNION {Inits(s) \cup Frees(s) \cup Updates(s) \cup Finals(s) : s \in GenSlots}

Faulty(c) == IF WithFault THEN {c, [c EXCEPT !.fired = TRUE]} ELSE {c}

Init == /\ slot = [s \in GenSlots |-> C!Null]
        /\ nupd = [s \in GenSlots |-> 0]
        /\ last = [c |-> Call0("none", "md5", 0), class |-> "none", ret |-> 0]
        /\ hist = <<>>

Do(c, ret) ==
  /\ slot' = C!Effect(c, slot, ret)
  /\ nupd' = [s \in GenSlots |-> IF s # c.c \/ c.op \in {"calc", "hmac"} THEN nupd[s]
                                 ELSE IF c.op = "init" /\ slot'[s] # slot[s] THEN 0
                                 ELSE IF c.op = "update" /\ slot'[s] # slot[s] THEN nupd[s] + 1
                                 ELSE IF slot'[s].st = "null" THEN 0
                                 ELSE nupd[s]]
  /\ last' = IF Emit = "" THEN [c |-> c, class |-> C!Class(c, slot), ret |-> ret] ELSE last
  /\ hist' = IF Emit = "" THEN hist ELSE Append(hist, c)

Next == \E c0 \in Calls : \E c \in Faulty(c0) : \E ret \in C!Allowed(c, slot) : Do(c, ret)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the machine. *)

TypeOK ==
  \A s \in GenSlots :
     /\ slot[s].st \in {"null", "open", "done", "spoilt"}
     /\ slot[s].st # "null" => slot[s].alg \in GenAlgs
     /\ slot[s].st = "open" => slot[s].m >= 0

(* A context can be released in every state. *)
Releasable ==
  \A s \in GenSlots : C!Class(Call0("free", AlgOf(s, "md5"), s), slot) = "valid"

(* A refused call changes nothing. *)
Harmless == [][last'.class \in {"argument", "state"} => slot' = slot]_vars
(* A call changes at most the slot it names, a one-shot call none. *)
Independent ==
  [][\A s \in GenSlots : (s # last'.c.c \/ last'.c.op \in {"calc", "hmac"}) => slot'[s] = slot[s]]_vars
(* A digest comes only from a context on which nothing failed, and it
   covers exactly the bytes of the accepted updates. *)
Delivered ==
  [][(last'.c.op = "final" /\ last'.ret = 1 /\ last'.class = "valid")
        => slot[last'.c.c].st = "open" /\ slot'[last'.c.c].st = "done"]_vars
Exact ==
  [][\A s \in GenSlots :
        (slot[s].st = "open" /\ slot'[s].st = "open") =>
          slot'[s].m - slot[s].m =
            (IF last'.c.op = "update" /\ last'.c.c = s /\ last'.ret = 1 /\ last'.class = "valid"
             THEN last'.c.d.n ELSE 0)]_vars
(* Without a fault, every call has exactly one permitted outcome, except on
   contexts about which nothing is promised any more. *)
Determined ==
  [][(~last'.c.fired /\ last'.class # "unspec") =>
       last'.ret = (IF last'.class = "valid" THEN 1 ELSE -1)]_vars

-----------------------------------------------------------------------------
(* Generation. *)
View == <<slot, nupd>>
(* Random histories (TLC -simulate): one random call at a time, with a bias
   towards contexts that are in use. *)
Pick(g, s) ==
  LET p == CASE g = 1 -> Inits(s)
             [] g \in 2..6 -> Updates(s)
             [] g = 7 -> Finals(s)
             [] g = 8 -> Frees(s)
             [] OTHER -> Shots
  IN IF p # {} THEN p ELSE IF Finals(s) # {} THEN Finals(s) ELSE Inits(s)
WalkNext ==
  \E g \in {RandomElement(1..(9 + 0 * Len(hist)))} : \E s \in {RandomElement({x \in GenSlots : Len(hist) >= 0})} :
    \E c \in {RandomElement(Pick(g, s))} : \E ret \in C!Allowed(c, slot) : Do(c, ret)
WalkSpec == Init /\ [][WalkNext]_vars

EmitTransition == PrintT("@T" \o ToJson([h |-> hist', k |-> C!Class(hist'[Len(hist')], slot), s |-> slot']))
Complete == \A s \in GenSlots : slot[s].st = "done"
WalkLength == 40
EmitWalk == Len(hist) = WalkLength => PrintT("@T" \o ToJson([h |-> hist, k |-> "valid", s |-> slot]))
EmitComplete == Complete => PrintT("@T" \o ToJson([h |-> hist, k |-> "valid", s |-> slot]))
=============================================================================
