------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* What one cursor operation means (llvm-bitcursor).                       *)
(*                                                                         *)
(* Every operator is a function of the window contents d (a byte sequence: *)
(* the first L bytes of the buffer) and the bit position p only; there is  *)
(* nothing else a cursor may remember.  Decoders return a record           *)
(* [ok, v, pos]; when ok is FALSE the other fields mean nothing.           *)
(***************************************************************************)
EXTENDS Bits

BitEnd(d) == 8 * Len(d)

Fail == [ok |-> FALSE, v |-> <<>>, pos |-> 0]
Ok(v, p) == [ok |-> TRUE, v |-> v, pos |-> p]

\* ---- fixed-width reads (C01, C05) ----------------------------------------
ReadBits(d, p, n) ==
    IF n \in 1..63 /\ p + n <= BitEnd(d) THEN Ok(BitsAt(d, p, n), p + n) ELSE Fail

\* A read whose value must fit an integer type with `bits` value bits.
ReadAs(d, p, n, bits) ==
    LET r == ReadBits(d, p, n) IN IF r.ok /\ Fits(r.v, bits) THEN r ELSE Fail

\* ---- variable-width reads (C02) -------------------------------------------
(* A VBR-w encoding is a sequence of w-bit chunks: w-1 payload bits, then a *)
(* continuation bit.  Its value is the concatenation of the payloads.  With *)
(* W the word size (64), a chunk that begins at payload bit >= W, or that   *)
(* carries a significant bit at or beyond W, doesn't encode a W-bit value.  *)
RECURSIVE VbrFrom(_, _, _, _, _, _)
VbrFrom(d, p, w, W, shift, acc) ==
    IF p + w > BitEnd(d) THEN Fail
    ELSE LET payload == BitsAt(d, p, w - 1)
             more    == BitAt(d, p + w - 1) = 1
         IN  IF shift >= W \/ shift + BitLength(payload) > W THEN Fail
             ELSE LET v == IF shift = 0 THEN payload ELSE Add(acc, ShiftLeft(payload, shift))
                  IN  IF more THEN VbrFrom(d, p + w, w, W, shift + w - 1, v)
                      ELSE Ok(v, p + w)

VbrW(d, p, w, W) == IF w \in 2..32 THEN VbrFrom(d, p, w, W, 0, <<>>) ELSE Fail
Vbr(d, p, w) == VbrW(d, p, w, 64)

(* Signed: sign in bit 0, magnitude above it; "-0" stands for -2^(W-1).     *)
(* A signed value is represented as <<1 if negative else 0>> \o magnitude.  *)
SignedOf(v, W) ==
    LET neg == BitOf(v, 0) = 1
        mag == ShiftRight(v, 1)
    IN  IF neg /\ mag = <<>> THEN <<1>> \o Pow2(W - 1)
        ELSE <<IF neg THEN 1 ELSE 0>> \o mag
SvbrW(d, p, w, W) ==
    LET r == VbrW(d, p, w, W) IN IF r.ok THEN Ok(SignedOf(r.v, W), r.pos) ELSE Fail
Svbr(d, p, w) == SvbrW(d, p, w, 64)

\* ---- positioning (C03, C04) ---------------------------------------------
AlignUp(p) == 32 * ((p + 31) \div 32)
Align32(d, p) == Min2(AlignUp(p), BitEnd(d))

\* Seek targets: limbs of a non-negative distance, and a direction.
SeekBit(d, x) == IF Le(x, FromInt(BitEnd(d))) THEN Ok(x, ToInt(x)) ELSE Fail
SeekStart(d, x) == IF Le(x, FromInt(Len(d))) THEN Ok(x, 8 * ToInt(x)) ELSE Fail
SeekEnd(d, neg, x) ==
    IF (neg \/ x = <<>>) /\ Le(x, FromInt(Len(d)))
    THEN Ok(FromInt(Len(d) - ToInt(x)), 8 * (Len(d) - ToInt(x))) ELSE Fail
SeekCurrent(d, p, neg, x) ==
    LET b == p \div 8 IN
    IF Le(x, FromInt(Len(d)))
    THEN LET t == IF neg THEN b - ToInt(x) ELSE b + ToInt(x) IN
         IF t \in 0..Len(d) THEN Ok(FromInt(t), 8 * t) ELSE Fail
    ELSE Fail

Exhausted(d, p) == p = BitEnd(d)
=============================================================================
