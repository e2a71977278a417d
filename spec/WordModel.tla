------------------------------- MODULE WordModel ------------------------------
(***************************************************************************)
(* All words of up to MaxTokens tokens over an alphabet, for the parts of  *)
(* hmactools that read text. TLC checks on every word that the meaning     *)
(* given to it is well defined, and emits the word for the real code.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Domain, Tokens, MaxTokens, Emit

G == INSTANCE GetOpt
T == INSTANCE DigestTypes
S == INSTANCE ByteSize
B == INSTANCE Big

VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxTokens /\ \E t \in Tokens : w' = Append(w, t)
Spec == Init /\ [][Next]_w

Text == FoldLeft(LAMBDA a, b : a \o b, "", w)

-----------------------------------------------------------------------------
(* Arguments: the token "|" separates arguments. *)
Argv == IF w = <<>> THEN <<>> ELSE [i \in 1..Len(G!Split(w, "|")) |-> G!Join(G!Split(w, "|")[i])]
Options == "ab:"
Chars(argv) == FoldLeft(LAMBDA n, a : n + Len(a), 0, argv)
OptionsSound ==
  LET p == G!Parse(Options, Argv)
  IN /\ p.operand \in 1..(Len(Argv) + 1)
     /\ Len(p.out) <= Chars(Argv)
     \* everything before the first operand is an option group, an argument or the end mark
     /\ p.operand > 1 => Chars(SubSeq(Argv, 1, p.operand - 1)) >= Len(p.out)
     \* what follows the first operand does not matter, unless an argument was missing
     /\ (\A i \in DOMAIN p.out : p.out[i].r # "missing") =>
          G!Parse(Options, Append(Argv, "-a")).out =
            IF p.operand > Len(Argv) /\ (Argv = <<>> \/ ~\E i \in 1..Len(Argv) : Argv[i] = "--" /\ i = p.operand - 1 /\
                 G!Parse(Options, SubSeq(Argv, 1, i - 1)).operand = i /\ \A q \in DOMAIN G!Parse(Options, SubSeq(Argv, 1, i - 1)).out : G!Parse(Options, SubSeq(Argv, 1, i - 1)).out[q].r # "missing")
            THEN Append(p.out, [r |-> "opt", c |-> "a", arg |-> <<>>]) ELSE p.out

-----------------------------------------------------------------------------
TypesSound ==
  LET t == T!Selected(Text)
  IN /\ t \subseteq {T!Order[i] : i \in DOMAIN T!Order}
     /\ T!Selected(Text \o "," \o Text) = t
     /\ T!Selected("sha512," \o Text) = t \cup {"sha512"}

-----------------------------------------------------------------------------
SizesSound ==
  LET m == S!Meaning(Text)
  IN /\ m.k \in {"exact", "range", "refuse", "open"}
     /\ m.k = "exact" => B!Less(m.v, B!TwoTo64)
     /\ m.k = "range" => B!Less(m.lo, m.hi)
     \* a size as it is formatted means what it shows
     /\ (m.k = "exact" /\ S!FormatOk(m.v, 1024, Text)) => S!ConvertOk(Text, 1, m.v, FALSE)

Sound == CASE Domain = "argv"  -> OptionsSound
           [] Domain = "types" -> TypesSound
           [] Domain = "size"  -> SizesSound
           [] OTHER -> TRUE
Emitted == Emit => PrintT("@W" \o ToJson(IF Domain \in {"argv", "command"} THEN Argv ELSE <<Text>>))
=============================================================================
