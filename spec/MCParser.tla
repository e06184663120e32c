------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* The parser on arbitrary bytes, exhaustively: a block (or a BLOCKINFO    *)
(* block with or without a current block id, or nothing) is open, and all  *)
(* possible contents of FreeBytes bytes follow.                            *)
(***************************************************************************)
EXTENDS ParserSM, TLC
CONSTANTS Contexts, First, Second, Suffixes

\* magic, ENTER_SUBBLOCK(8, 3) ; (0, 3) ; (0, 3) + SETBID 8
M == <<66, 67, 192, 222>>
Ctx8 == M \o <<33, 12, 0, 0, 1, 0, 0, 0>>
Ctx0 == M \o <<1, 12, 0, 0, 1, 0, 0, 0>>
MCContexts == {M, Ctx8, Ctx0}
MCAll == 0..255
MCSome == {0, 1, 18, 85, 170, 255}
MCSuffixes == {<<0, 0>>, <<255, 73>>}

Init == /\ \E x \in Contexts, a \in First, b \in Second, s \in Suffixes : win = x \o <<a, b>> \o s
        /\ ps = Start(32)
Spec == Init /\ [][ParserNext]_pvars

Ok8 == Len(ps.scopes) <= 3
\* C10: nothing is ever reported outside of blocks but blocks.
Sane == /\ ps.out.t = "rec" => InBlock(ps)
        /\ ps.out.t = "rec" => ~IsBlockInfo(Top(ps))
        /\ (ps.out.t = "rec" /\ ps.out.ab # <<>>) => SatInt(ps.out.ab) - 3 \in 1..Len(Top(ps).abbrevs)
        /\ ps.out.t = "eos" => ps.pos = BitEnd(win)
=============================================================================
