------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Result's definitions of well-formed text and of its pieces are by place *)
(* (texts can be long); here they are compared with what they stand for:   *)
(* reading a text character by character, and joining its pieces again.    *)
(***************************************************************************)
EXTENDS Result

CONSTANT MaxLen

\* A byte from each range that matters, and its bounds.
Bytes == {0, 10, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 238, 239, 240, 241, 243, 244, 245, 255}

VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Bytes : b' = Append(b, x)

\* The byte ranges of the characters of each length (Unicode, table 3-7).
Wellformed == {
    << 0..127 >>,
    << 194..223, 128..191 >>,
    << {224}, 160..191, 128..191 >>,
    << 225..236, 128..191, 128..191 >>,
    << {237}, 128..159, 128..191 >>,
    << 238..239, 128..191, 128..191 >>,
    << {240}, 144..191, 128..191, 128..191 >>,
    << 241..243, 128..191, 128..191, 128..191 >>,
    << {244}, 128..143, 128..191, 128..191 >> }
RECURSIVE Readable(_)
Readable(s) == s = <<>> \/ \E ch \in Wellformed :
    /\ Len(s) >= Len(ch)
    /\ \A i \in 1..Len(ch) : s[i] \in ch[i]
    /\ Readable(SubSeq(s, Len(ch) + 1, Len(s)))
Utf8IsReadable == Utf8(b) <=> Readable(b)

RECURSIVE Join(_, _)
Join(ps, sep) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<sep>> \o Join(Tail(ps), sep)
PiecesJoin == LET ps == Split(b, 10) IN
    /\ Join(ps, 10) = b
    /\ \A i \in 1..Len(ps) : \A j \in 1..Len(ps[i]) : ps[i][j] # 10
=============================================================================
