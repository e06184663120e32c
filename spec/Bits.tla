-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit-addressed byte buffers and 64-bit values.                           *)
(*                                                                         *)
(* TLC's integers are 32-bit, so a 64-bit quantity is represented by its   *)
(* canonical little-endian sequence of 16-bit limbs: no trailing zero      *)
(* limbs, so equality of values is equality of sequences, and 0 is <<>>.   *)
(*                                                                         *)
(* A byte buffer is a sequence of 0..255.  Bit i of a buffer (from 0) is   *)
(* bit (i % 8), counted from the least significant, of byte (i \div 8).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ---- limbs -------------------------------------------------------------
RECURSIVE Trim(_)
Trim(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l

\* The canonical limbs of a non-negative TLC integer.
FromInt(n) == Trim(<<n % 65536, n \div 65536>>)

\* Does the value fit a TLC integer (i.e. is it below 2^31)?
IsSmall(l) == Len(l) <= 1 \/ (Len(l) = 2 /\ l[2] < 32768)
ToInt(l) == CASE Len(l) = 0 -> 0
              [] Len(l) = 1 -> l[1]
              [] OTHER      -> l[1] + 65536 * l[2]
\* The value, saturated: every value that doesn't fit is "huge".
Huge == 2147483647
SatInt(l) == IF IsSmall(l) THEN ToInt(l) ELSE Huge

Limb(l, i) == IF i <= Len(l) THEN l[i] ELSE 0

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF Limb(a, i) # Limb(b, i) THEN Limb(a, i) < Limb(b, i)
                   ELSE LtFrom(a, b, i - 1)
\* a < b
Lt(a, b) == LtFrom(a, b, Max2(Len(a), Len(b)))
Le(a, b) == ~Lt(b, a)

\* Number of significant bits of a limb / a value.
RECURSIVE BitLen16(_)
BitLen16(n) == IF n = 0 THEN 0 ELSE 1 + BitLen16(n \div 2)
BitLength(l) == IF l = <<>> THEN 0 ELSE 16 * (Len(l) - 1) + BitLen16(l[Len(l)])

\* 2^k as limbs.
Pow2(k) == [i \in 1..(k \div 16 + 1) |-> IF i = k \div 16 + 1 THEN 2 ^ (k % 16) ELSE 0]
IsPow2(l) == l # <<>> /\ l = Pow2(BitLength(l) - 1)

\* Value of the low n bits.
LowBits(l, n) == Trim([i \in 1..Min2(Len(l), (n + 15) \div 16) |->
                         IF 16 * i <= n THEN l[i] ELSE l[i] % (2 ^ (n - 16 * (i - 1)))])

\* Bit i (from 0) of a value.
BitOf(l, i) == (Limb(l, i \div 16 + 1) \div (2 ^ (i % 16))) % 2

\* value \div 2^k
ShiftRight(l, k) ==
    LET n == BitLength(l) IN
    IF k >= n THEN <<>>
    ELSE LET w == k \div 16  s == k % 16 IN
         Trim([i \in 1..(Len(l) - w) |->
                 (l[i + w] \div (2 ^ s)) + (Limb(l, i + w + 1) % (2 ^ s)) * (2 ^ (16 - s))])

\* value * 2^k (unbounded)
ShiftLeft(l, k) ==
    IF l = <<>> THEN <<>>
    ELSE LET w == k \div 16  s == k % 16 IN
         Trim([i \in 1..(Len(l) + w + 1) |->
                 IF i <= w THEN 0
                 ELSE ((Limb(l, i - w) * (2 ^ s)) % 65536)
                      + (IF i - w = 1 THEN 0 ELSE Limb(l, i - w - 1) \div (2 ^ (16 - s)))])

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
    IF i > Max2(Len(a), Len(b)) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
    ELSE LET s == Limb(a, i) + Limb(b, i) + carry IN
         <<s % 65536>> \o AddFrom(a, b, i + 1, s \div 65536)
Add(a, b) == Trim(AddFrom(a, b, 1, 0))

\* a - b for b <= a
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] - Limb(b, i) - borrow IN
         IF s < 0 THEN <<s + 65536>> \o SubFrom(a, b, i + 1, 1)
         ELSE <<s>> \o SubFrom(a, b, i + 1, 0)
Sub(a, b) == Trim(SubFrom(a, b, 1, 0))

\* a * 10 + d (for decimal numerals)
RECURSIVE MulSmallFrom(_, _, _, _)
MulSmallFrom(a, m, i, carry) ==
    IF i > Len(a) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
    ELSE LET s == a[i] * m + carry IN
         <<s % 65536>> \o MulSmallFrom(a, m, i + 1, s \div 65536)
MulAddSmall(a, m, d) == Trim(MulSmallFrom(a, m, 1, d))

Max64 == <<65535, 65535, 65535, 65535>>
Fits(l, bits) == BitLength(l) <= bits

\* ---- buffers -----------------------------------------------------------
ByteAt(d, i) == IF i < Len(d) THEN d[i + 1] ELSE 0

Chunk16(d, p, k) ==
    LET b == p \div 8 IN
    ((ByteAt(d, b) + ByteAt(d, b + 1) * 256 + ByteAt(d, b + 2) * 65536) \div (2 ^ (p % 8))) % (2 ^ k)

\* The value of the n bits of d starting at bit p, least significant first.
BitsAt(d, p, n) ==
    Trim([i \in 1..((n + 15) \div 16) |-> Chunk16(d, p + 16 * (i - 1), Min2(16, n - 16 * (i - 1)))])

\* Same, for n <= 16, as a TLC integer.
SmallAt(d, p, n) == Chunk16(d, p, n)
BitAt(d, p) == (ByteAt(d, p \div 8) \div (2 ^ (p % 8))) % 2
=============================================================================
