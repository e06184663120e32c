------------------------------ MODULE MCTables ------------------------------
(***************************************************************************)
(* Alignment tables (C22): whatever the updates, a table is the sorted     *)
(* rendering of a map from keys to the values of their latest update.      *)
(***************************************************************************)
EXTENDS Align, FiniteSets, Json
CONSTANTS Widths, Aligns, Spaces, MaxUpdates
VARIABLES types, ptrs, latestT, latestP, hist
vars == <<types, ptrs, latestT, latestP, hist>>

Classes == {"Aggregate", "Float", "Integer", "Vector"}
Keys == {<<c, w>> : c \in Classes \ {"Aggregate"}, w \in Widths} \cup {<<"Aggregate", <<>>>>}
MapOf(table) == [k \in {<<table[i][1], table[i][2]>> : i \in 1..Len(table)} |->
                    LET i == CHOOSE i \in 1..Len(table) : <<table[i][1], table[i][2]>> = k IN <<table[i][3], table[i][4]>>]
MapOfP(table) == [k \in {table[i][1] : i \in 1..Len(table)} |->
                    LET i == CHOOSE i \in 1..Len(table) : table[i][1] = k IN Tail(table[i])]

Init == /\ types = DefaultTypes /\ ptrs = DefaultPointers
        /\ latestT = MapOf(DefaultTypes) /\ latestP = MapOfP(DefaultPointers) /\ hist = <<>>
UpdateT(k, abi, pref) ==
    LET e == TypeSpec(k[1], k[2], abi, pref) IN
    /\ types' = IF e.ok THEN UpdateTypes(types, e.v) ELSE types
    /\ latestT' = IF e.ok THEN [x \in DOMAIN latestT \cup {k} |-> IF x = k THEN <<abi, pref>> ELSE latestT[x]] ELSE latestT
    /\ hist' = Append(hist, <<"t", k[1], k[2], abi, pref>>)
    /\ UNCHANGED <<ptrs, latestP>>
UpdateP(as, abi, pref, size, index) ==
    LET e == PointerSpec(as, abi, pref, size, index) IN
    /\ ptrs' = IF e.ok THEN UpdatePointers(ptrs, e.v) ELSE ptrs
    /\ latestP' = IF e.ok THEN [x \in DOMAIN latestP \cup {as} |-> IF x = as THEN <<abi, pref, size, index>> ELSE latestP[x]]
                  ELSE latestP
    /\ hist' = Append(hist, <<"p", as, abi, pref, size, index>>)
    /\ UNCHANGED <<types, latestT>>
Next == /\ Len(hist) < MaxUpdates
        /\ \/ \E k \in Keys, abi \in Aligns, pref \in Aligns : UpdateT(k, abi, pref)
           \/ \E as \in Spaces, abi \in Aligns, pref \in Aligns, size \in {<<16>>, <<64>>} :
                UpdateP(as, abi, pref, size, size)
Spec == Init /\ [][Next]_vars
View == <<types, ptrs, latestT, latestP, Len(hist)>>

Sorted == /\ \A i \in 1..(Len(types) - 1) : TypeBefore(types[i], types[i + 1])
          /\ \A i \in 1..(Len(ptrs) - 1) : Lt(ptrs[i][1], ptrs[i + 1][1])
Latest == MapOf(types) = latestT /\ Len(types) = Cardinality(DOMAIN latestT)
          /\ MapOfP(ptrs) = latestP /\ Len(ptrs) = Cardinality(DOMAIN latestP)
PrefNotBelowAbi == (\A i \in 1..Len(types) : Le(types[i][3], types[i][4])) /\ (\A i \in 1..Len(ptrs) : Le(ptrs[i][2], ptrs[i][3]))
TypeBeforeIsTotal == \A a, b \in Keys : a # b => (TypeBefore(a, b) # TypeBefore(b, a))
Emit == Len(hist) = MaxUpdates => PrintT("CASE " \o ToJson(hist))

MCWidths == {<<8>>, <<16>>, <<300>>, <<1, 1>>}
MCWidthsSmall == {<<8>>, <<9>>}
MCAligns == {<<1>>, <<8>>, <<16>>}
MCAlignsSmall == {<<2>>, <<4>>}
MCSpaces == {<<>>, <<1>>, <<2>>}
=============================================================================
