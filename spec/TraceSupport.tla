----------------------------- MODULE TraceSupport ---------------------------
(***************************************************************************)
(* Checks histories of the real support types against SupportSM.           *)
(* What an event r(esulted in) is whether it succeeded and, if it's        *)
(* observable, the value: [ok, v], where v is <<>> or <<value>>.           *)
(***************************************************************************)
EXTENDS SupportSM, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
T == Trace[c]
E == T.ev[l]

Seen(o, v) == IF o = <<>> THEN TRUE ELSE o[1] = v
As(r, x) == r.ok = x.ok /\ (IF x.ok THEN Seen(r.v, x.v) ELSE TRUE)
All(n, Test(_)) == \A i \in 1..n : Test(i)

TypeAs(o, t) ==
    /\ o.same
    /\ Seen(o.t, t) /\ o.is = Predicates(t) /\ Seen(o.scalar, Scalar(t))
    /\ Len(o.inner) = Len(Inner(t)) /\ (IF Inner(t) # <<>> THEN Seen(o.inner[1], Inner(t)[1]) ELSE TRUE)
    /\ o.widths = Widths(t)
TableAs(r, x, table) == r.ok = x.ok /\ (IF x.ok THEN Seen(r.v[1].spec, x.v) /\ Seen(r.v[1].table, table) ELSE TRUE)

\* An alignment that LLVM tolerates something after isn't judged, but mustn't panic.
LayoutAs(s, r) == IF Judged(s) THEN As(r, LayoutOf(s)) ELSE TRUE

Pure == UNCHANGED svars
Event ==
    CASE E.e = "code" ->
            /\ Pure
            /\ All(Len(E.ns), LAMBDA i : LET x == CodeOf(E.t, E.ns[i])  r == E.r[i] IN
                   r.ok = x.ok /\ (IF x.ok THEN Seen(r.v, x.v) /\ Seen(r.back, CodeBack(E.t, E.ns[i])) ELSE TRUE))
      [] E.e = "scalar" -> Pure /\ All(Len(E.ns), LAMBDA i : As(E.r[i], ScalarOf(E.op, E.ns[i])))
      [] E.e = "compare" -> Pure /\ All(Len(E.ps), LAMBDA i : As(E.r[i], OrderOf(E.of, E.ps[i][1], E.ps[i][2])))
      [] E.e = "layout" -> Pure /\ LayoutAs(E.s, E.r)
      [] E.e = "default" -> Pure /\ As(E.r, Good(DefaultLayout))
      [] E.e = "consts" -> Pure /\ \A k \in DOMAIN Constants : E.r[1][k] = Constants[k]
                                /\ E.r[2] = Char6Alphabet
      [] E.e = "equal" -> Pure /\ E.r = [i \in 1..Len(pool) |-> pool[i] = In(pool, E.t)]
      [] E.e = "binop" -> Pure /\ All(Len(E.ns), LAMBDA i : As(E.r[i], BinaryOp(E.ns[i], In(pool, E.t))))
      [] E.e = "type" ->
            /\ Construct(E)
            /\ LET x == Constructed(pool, E) IN E.r.ok = x.ok /\ (IF x.ok THEN TypeAs(E.r.v[1], x.v) ELSE TRUE)
      [] E.e = "tnew" -> LET x == TypeSpecOf(E.ty, E.abi, E.pref) IN UpdateType(x) /\ TableAs(E.r, x, types')
      [] E.e = "tparse" -> LET x == TypeSpecIn(E.s) IN UpdateType(x) /\ TableAs(E.r, x, types')
      [] E.e = "pnew" ->
            LET x == PointerSpecOf(E.as, E.abi, E.pref, E.size, E.index) IN UpdatePointer(x) /\ TableAs(E.r, x, ptrs')
      [] E.e = "pparse" -> LET x == PointerSpecIn(E.s) IN UpdatePointer(x) /\ TableAs(E.r, x, ptrs')

TInit == c \in 1..Len(Trace) /\ l = 1 /\ T.out = "ok" /\ SInit
TNext == l <= Len(T.ev) /\ ~E.bad /\ Event /\ l' = l + 1 /\ c' = c

Accepted == l = Len(T.ev) + 1 => PrintT(<<"DONE", c>>)
At == PrintT(<<"AT", c, l>>)
=============================================================================
