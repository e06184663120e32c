-------------------------------- MODULE MCVbr -------------------------------
(***************************************************************************)
(* Encode/decode of variable-width integers, exhaustively for a small word *)
(* size.  A writer emits one chunk after the other; a second kind of       *)
(* behaviour appends arbitrary bits.                                       *)
(***************************************************************************)
EXTENDS Cursor, TLC
CONSTANTS W, ChunkWidths, MaxBits
VARIABLES mode, v, w, rest, pad, bits
vars == <<mode, v, w, rest, pad, bits>>

RECURSIVE Pack(_)
ByteOf(b) == LET x(i) == IF i <= Len(b) THEN b[i] * 2 ^ (i - 1) ELSE 0
             IN x(1) + x(2) + x(3) + x(4) + x(5) + x(6) + x(7) + x(8)
Pack(b) == IF b = <<>> THEN <<>> ELSE <<ByteOf(b)>> \o Pack(SubSeq(b, 9, Len(b)))

BitsOf(n, k) == [i \in 1..k |-> (n \div (2 ^ (i - 1))) % 2]
MaxChunks(cw) == (W - 1) \div (cw - 1) + 1        \* chunks beginning below W

Init == /\ w \in ChunkWidths /\ bits = <<>>
        /\ \/ mode = "write" /\ v \in 0..(2 ^ W - 1) /\ rest = v /\ pad \in 0..MaxChunks(w)
           \/ mode = "any" /\ v = 0 /\ rest = 0 /\ pad = 0

Chunks == Len(bits) \div w
\* Emit the next chunk; stop when nothing is left and the padding is used up.
Emit == /\ mode = "write"
        /\ LET last == rest \div (2 ^ (w - 1)) = 0 /\ pad = 0 IN
           /\ bits' = bits \o BitsOf(rest, w - 1) \o <<IF last THEN 0 ELSE 1>>
           /\ mode' = IF last THEN "done" ELSE "write"
           /\ pad' = IF rest \div (2 ^ (w - 1)) = 0 /\ pad > 0 THEN pad - 1 ELSE pad
           /\ rest' = rest \div (2 ^ (w - 1))
        /\ UNCHANGED <<v, w>>
AppendBit == /\ mode = "any" /\ Len(bits) < MaxBits
          /\ \E b \in {0, 1} : bits' = Append(bits, b)
          /\ UNCHANGED <<mode, v, w, rest, pad>>
Next == Emit \/ AppendBit
Spec == Init /\ [][Next]_vars

Decoded == VbrW(Pack(bits), 0, w, W)
\* Everything the writer produces with chunks beginning below W decodes to the value.
RoundTrip == mode = "done" =>
    IF Chunks <= MaxChunks(w)
    THEN Decoded = Ok(FromInt(v), Len(bits))
    ELSE ~Decoded.ok
\* An encoding cut off before its final chunk doesn't decode.
Truncated == (mode = "write" /\ Chunks <= MaxChunks(w)) => (bits # <<>> => ~VbrW(Pack(bits), 0, w, W).ok
                                                      \/ Len(Pack(bits)) * 8 >= Len(bits) + w)
\* Whatever decodes is what its bits spell out, with no bit beyond the word.
RECURSIVE Payload(_, _)
Payload(b, cw) == IF b = <<>> THEN <<>>
                  ELSE SubSeq(b, 1, cw - 1) \o Payload(SubSeq(b, cw + 1, Len(b)), cw)
Sum(s) == LET RECURSIVE go(_) go(i) == IF i > Len(s) THEN 0 ELSE s[i] * 2 ^ (i - 1) + go(i + 1) IN go(1)
Faithful == (mode = "any" /\ Decoded.ok) =>
    /\ Decoded.pos % w = 0
    /\ LET p == Payload(SubSeq(bits \o [i \in 1..8 |-> 0], 1, Decoded.pos), w) IN
       /\ \A i \in (W + 1)..Len(p) : p[i] = 0
       /\ Decoded.v = FromInt(Sum(SubSeq(p, 1, Min2(W, Len(p)))))
\* The signed view: every value but the word's most negative has one encoding; "-0" is that one.
SignedView == mode = "done" /\ Decoded.ok =>
    LET s == SignedOf(Decoded.v, W) IN
    IF v = 1 THEN s = <<1>> \o Pow2(W - 1)
    ELSE s = <<v % 2>> \o FromInt(v \div 2)
=============================================================================
