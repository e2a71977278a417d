----------------------------- MODULE Streaming -----------------------------
(***************************************************************************)
(* The machine behind update and finalize: a chaining value, a partial     *)
(* block and a byte count.  Bytes are their positions in the message, so   *)
(* one run stands for all contents of a message of that length.            *)
(*                                                                         *)
(* Checked: after any sequence of updates the machine is in the state it   *)
(* would be in after a single update with the concatenation (Refines), the *)
(* padded stream is whole blocks, ends in the exact bit length, is as      *)
(* short as possible and different for different lengths (PadOk), whatever *)
(* the sizes of block and length field are.  This is what makes a digest a *)
(* function of the concatenated data (D02) and of nothing else.            *)
(*                                                                         *)
(* With EMIT set, TLC prints every transition (fill level, piece size) of  *)
(* the machine with the real block size; the checks walk them all on the   *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANTS
  B,         \* bytes in a block
  LF,        \* bytes in the length field
  MaxLen,    \* longest message
  MaxPiece   \* longest piece of an update

VARIABLES
  n,         \* bytes accepted so far
  blocks,    \* blocks given to the compression function, in order
  part,      \* the partial block
  count,     \* bytes in blocks
  out        \* the padded stream once finalized
vars == <<n, blocks, part, count, out>>

Piece(from, k) == [i \in 1..k |-> <<"m", from + i, 0>>]
Message(k) == Piece(0, k)

(* Whole blocks of a sequence, and what is left. *)
Whole(s) == [i \in 1..(Len(s) \div B) |-> SubSeq(s, (i - 1) * B + 1, i * B)]
Rest(s) == SubSeq(s, Len(s) - (Len(s) % B) + 1, Len(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* The padding of a message of k bytes: 0x80, zeros, the length field.
   Symbols: <<"m", i, 0>> byte i of the message, <<"1", 0, 0>> the 0x80 byte,
   <<"0", 0, 0>> a zero, <<"L", i, k>> byte i of the length field. *)
PadZeros(k) == (B - ((k + 1 + LF) % B)) % B
Pad(k) == << <<"1", 0, 0>> >> \o [i \in 1..PadZeros(k) |-> <<"0", 0, 0>>] \o [i \in 1..LF |-> <<"L", i, k * 8>>]

Init == n = 0 /\ blocks = <<>> /\ part = <<>> /\ count = 0 /\ out = <<>>

(* One update: complete the partial block, take whole blocks from the piece
   directly, keep the rest. *)
Update(k) ==
  /\ out = <<>>
  /\ n + k <= MaxLen
  /\ LET p == Piece(n, k)
         take == IF part = <<>> THEN 0 ELSE IF k < B - Len(part) THEN k ELSE B - Len(part)
         filled == part \o SubSeq(p, 1, take)
         full == Len(filled) = B
         rest == SubSeq(p, take + 1, k)
         new == (IF full THEN <<filled>> ELSE <<>>) \o (IF full \/ filled = <<>> THEN Whole(rest) ELSE <<>>)
     IN /\ blocks' = blocks \o new
        /\ count' = count + B * Len(new)
        /\ part' = IF full \/ filled = <<>> THEN Rest(rest) ELSE filled
  /\ n' = n + k
  /\ out' = out

Finalize ==
  /\ out = <<>>
  /\ out' = Flat(blocks) \o part \o Pad(count + Len(part))
  /\ UNCHANGED <<n, blocks, part, count>>

Next == (\E k \in 0..MaxPiece : Update(k)) \/ Finalize
Spec == Init /\ [][Next]_vars

Refines == Flat(blocks) = SubSeq(Message(n), 1, count) /\ Flat(blocks) \o part = Message(n)
PartialIsPartial == Len(part) < B
CountIsExact == count = B * Len(blocks) /\ count + Len(part) = n
OneResult == out # <<>> => out = Message(n) \o Pad(n)
PadOk ==
  \A k \in 0..MaxLen :
    /\ (k + Len(Pad(k))) % B = 0
    /\ Len(Pad(k)) >= 1 + LF /\ Len(Pad(k)) < 1 + LF + B
    /\ \A j \in 0..MaxLen : (j # k) => (Message(j) \o Pad(j)) # (Message(k) \o Pad(k))

-----------------------------------------------------------------------------
(* The same machine seen only through the fill level of the partial block,
   with the real block size: a transition for every fill level and size.   *)
FillInit == n = 0 /\ blocks = 0 /\ part = 0 /\ count = 0 /\ out = <<>>
Sizes(f) ==
  IF MaxPiece > 0 THEN 0..MaxPiece
  ELSE {k \in {0, 1, 2, 3, 7, 8, 9, B - LF - 1 - f, B - LF - f, B - LF - f + 1, B - f - 1, B - f, B - f + 1,
               2 * B - f - 1, 2 * B - f, 2 * B - f + 1, 2 * B, 3 * B - f, 5 * B - f + 2,
               B - LF, B - 1, B, B + 1} : k >= 0}
FillNext ==
  \E k \in Sizes(part) :
     /\ part' = (part + k) % B
     /\ blocks' = 0
     /\ UNCHANGED <<n, count, out>>
     /\ PrintT("@F" \o ToJson(<<part, k, part'>>))
FillSpec == FillInit /\ [][FillNext]_vars
=============================================================================
