----------------------------- MODULE MCContainer -----------------------------
(***************************************************************************)
(* C06: a wrapped bitstream parses exactly like the raw one.  Two parsers  *)
(* run in lock-step, one on the raw stream, one on the same stream in a    *)
(* wrapper at any word offset followed by any padding.                     *)
(***************************************************************************)
EXTENDS Parser, Container, TLC
CONSTANTS Docs, Offsets, Paddings
VARIABLES raw, wrapped, a, b
vars == <<raw, wrapped, a, b>>

Bytes4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Wrap(d, off, pad) == <<222, 192, 23, 11>> \o Bytes4(1) \o Bytes4(off) \o Bytes4(Len(d)) \o Bytes4(7)
                     \o [i \in 1..(off - 20) |-> 255] \o d \o pad

M == <<66, 67, 192, 222>>
DocsOf(xs, ys) == { M \o p \o <<x, y, 3, 0>> : p \in {<<33, 12, 0, 0, 1, 0, 0, 0>>, <<1, 12, 0, 0, 1, 0, 0, 0>>}, x \in xs, y \in ys } \cup {M}
MCDocsSmall == DocsOf({0, 2, 3, 11, 58, 97, 203, 255}, {0, 18, 130, 255})
MCDocsBig == DocsOf(0..255, {0, 9, 18, 65, 130, 255})
MCOffsets == {20, 24, 36}
MCPaddings == {<<>>, <<0>>, <<33, 12, 0, 0>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255, 255>>}

Init == /\ raw \in Docs
        /\ \E off \in Offsets, pad \in Paddings : wrapped = Wrap(raw, off, pad)
        /\ a = Start(OpenRaw(raw).pos) /\ b = Start(OpenWrapped(wrapped).pos)
Next == /\ ~Done(a)
        /\ a' = Step(OpenRaw(raw).win, a)
        /\ b' = Step(OpenWrapped(wrapped).win, b)
        /\ UNCHANGED <<raw, wrapped>>
Spec == Init /\ [][Next]_vars
BothOpen == OpenRaw(raw).ok /\ OpenWrapped(wrapped).ok /\ OpenRaw(raw).magic = OpenWrapped(wrapped).magic
            /\ Open(wrapped, "auto") = OpenWrapped(wrapped) /\ Open(raw, "auto") = OpenRaw(raw)
Same == a.out = b.out /\ a.scopes = b.scopes /\ a.binfo = b.binfo
=============================================================================
