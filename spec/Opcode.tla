-------------------------------- MODULE Opcode ------------------------------
(***************************************************************************)
(* Which operation an operation code selects for a type of operands (C25). *)
(***************************************************************************)
EXTENDS Types, Codes

\* The floating-point counterparts that exist. Remainders and quotients share
\* the signed integers' codes.
FloatOps == ("Add" :> "FAdd" @@ "Sub" :> "FSub" @@ "Mul" :> "FMul" @@ "SDiv" :> "FDiv" @@ "SRem" :> "FRem")

BinaryOp(l, t) ==
    LET c == BinaryCodes(l)  s == Scalar(t) IN
    IF ~c.ok THEN Bad
    ELSE IF IsInteger(s) THEN c
    ELSE IF IsFloating(s) /\ c.v \in DOMAIN FloatOps THEN Good(FloatOps[c.v])
    ELSE Bad
UnaryOp(l) == UnaryCodes(l)
=============================================================================
