------------------------------- MODULE Result -------------------------------
(***************************************************************************)
(* Results of partial functions, and text.                                 *)
(***************************************************************************)
EXTENDS Bits, TLC

Good(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> <<>>]

\* Every element of a sequence, or nothing.
AllGood(rs) == IF \A i \in 1..Len(rs) : rs[i].ok THEN Good([i \in 1..Len(rs) |-> rs[i].v]) ELSE Bad
Each(Op(_), s) == AllGood(TLCEval([i \in 1..Len(s) |-> Op(s[i])]))

FilterSeq(s, Test(_)) == SelectSeq(s, Test)

\* ---- text ------------------------------------------------------------------
IsByte(l) == l = <<>> \/ (Len(l) = 1 /\ l[1] < 256)
AllBytes(f) == \A i \in 1..Len(f) : IsByte(f[i])
BytesOf(f) == [i \in 1..Len(f) |-> ToInt(f[i])]

\* Well-formed UTF-8 (Unicode, table 3-7), place by place: what leads a character is followed by as
\* many bytes as it calls for, and what continues one is called for.
Continues(c) == c \in 128..191
Called(c) == CASE c <= 127 -> 1 [] c \in 194..223 -> 2 [] c \in 224..239 -> 3 [] c \in 240..244 -> 4 [] OTHER -> 0
WellPlaced(b, i) ==
    LET c == b[i] IN
    CASE c <= 127 -> TRUE
      [] Continues(c) -> \E k \in 1..Min2(3, i - 1) : ~Continues(b[i - k]) /\ Called(b[i - k]) > k
      [] OTHER -> /\ Called(c) > 0
                  /\ i + Called(c) - 1 <= Len(b)
                  /\ \A k \in 1..(Called(c) - 1) : Continues(b[i + k])
                  /\ (c = 224 => b[i + 1] >= 160) /\ (c = 237 => b[i + 1] <= 159)
                  /\ (c = 240 => b[i + 1] >= 144) /\ (c = 244 => b[i + 1] <= 143)
Utf8(b) == \A i \in 1..Len(b) : WellPlaced(b, i)

\* The text / the bytes that a record's operands spell.
Blob(f) == IF f # <<>> /\ AllBytes(f) THEN Good(BytesOf(f)) ELSE Bad
Text(f) == LET b == Blob(f) IN IF b.ok /\ Utf8(b.v) THEN b ELSE Bad

\* The pieces between separators: one more than there are separators.
Split(b, sep) ==
    LET at == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i] = sep)
    IN [k \in 1..(Len(at) + 1) |-> SubSeq(b, IF k = 1 THEN 1 ELSE at[k - 1] + 1,
                                         IF k > Len(at) THEN Len(b) ELSE at[k] - 1)]
=============================================================================
