------------------------------ MODULE ParserSM ------------------------------
(***************************************************************************)
(* The parser as a state machine: one action per kind of item.             *)
(***************************************************************************)
EXTENDS Parser, Container

VARIABLES win, ps
pvars == <<win, ps>>

ReachedEnd      == ~Done(ps) /\ Kind(win, ps) = "eos" /\ ps' = [ps EXCEPT !.out = EndOfStream] /\ UNCHANGED win
Truncated       == ~Done(ps) /\ Kind(win, ps) = "bad" /\ ps' = Failed(ps) /\ UNCHANGED win
EndsBlock       == ~Done(ps) /\ Kind(win, ps) = "end" /\ ps' = EndBlock(win, ps) /\ UNCHANGED win
EntersSubBlock  == ~Done(ps) /\ Kind(win, ps) = "enter" /\ ps' = EnterSubBlock(win, ps) /\ UNCHANGED win
DefinesAbbrev   == ~Done(ps) /\ Kind(win, ps) = "define" /\ ps' = DefineAbbrev(win, ps) /\ UNCHANGED win
ReadsUnabbrev   == ~Done(ps) /\ Kind(win, ps) = "unabbrev" /\ ps' = Unabbrev(win, ps) /\ UNCHANGED win
ReadsAbbreviated == ~Done(ps) /\ Kind(win, ps) = "abbrev" /\ ps' = Abbreviated(win, ps) /\ UNCHANGED win

ParserNext == \/ ReachedEnd \/ Truncated \/ EndsBlock \/ EntersSubBlock
              \/ DefinesAbbrev \/ ReadsUnabbrev \/ ReadsAbbreviated

\* ---- properties --------------------------------------------------------------
ParserInWindow == ps.pos \in 0..BitEnd(win)
\* C11: every step but the last one consumes at least one bit, so parsing terminates.
Progress == [][Done(ps') \/ ps'.pos > ps.pos]_pvars
\* C08: leaving a block restores the enclosing scope exactly as it was.
ScopesAreAStack ==
    [][ \/ ps'.scopes = ps.scopes
        \/ /\ Len(ps'.scopes) = Len(ps.scopes) + 1
           /\ SubSeq(ps'.scopes, 1, Len(ps.scopes)) = ps.scopes
        \/ /\ Len(ps'.scopes) = Len(ps.scopes) - 1
           /\ ps'.scopes = SubSeq(ps.scopes, 1, Len(ps.scopes) - 1)
        \/ /\ Len(ps'.scopes) = Len(ps.scopes)      \* only the innermost scope changes
           /\ SubSeq(ps'.scopes, 1, Len(ps.scopes) - 1) = SubSeq(ps.scopes, 1, Len(ps.scopes) - 1)
           /\ Top(ps').id = Top(ps).id /\ Top(ps').width = Top(ps).width ]_pvars
\* C09: registrations only grow, and only inside a BLOCKINFO block.
BlockInfoGrows ==
    [][ \/ ps'.binfo = ps.binfo
        \/ /\ InBlock(ps) /\ IsBlockInfo(Top(ps)) /\ Top(ps).setbid # <<>>
           /\ \E a \in {ps'.binfo[Len(ps'.binfo)][2]} :
                ps'.binfo = Append(ps.binfo, <<Top(ps).setbid[1], a>>) ]_pvars
=============================================================================
