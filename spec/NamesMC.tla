------------------------------- MODULE NamesMC -------------------------------
(* All strings over an alphabet up to a length, one character at a time.     *)
EXTENDS Names, Json, IOUtils, TLC
U == JsonDeserialize(IOEnv.UNIVERSE)      \* [chars, max]
Chars == {U.chars[i] : i \in 1..Len(U.chars)}
VARIABLE s
Init == s = ""
Next == Len(s) < U.max /\ \E c \in Chars : s' = s \o c
Spec == Init /\ [][Next]_s
Balanced(x) == Cardinality({i \in 1..Len(x) : Ch(x, i) = "<"}) = Cardinality({i \in 1..Len(x) : Ch(x, i) = ">"})
ValidA == IsValidName(s, TRUE)
ValidR == IsValidName(s, FALSE)
InvTotal   == \A a \in BOOLEAN : LET r == VT(s, 1, a, FALSE) IN r[1] \in BOOLEAN /\ r[2] \in 1..(Len(s) + 1)
InvAbs     == ValidA => ValidR /\ IsAbsolute(s)
InvSplit   == /\ ValidA => GetNamespace(s) \o GetTypename(s) = s
              /\ (ValidR /\ ~IsAbsolute(s)) => GetNamespace(s) \o GetTypename(s) = "/" \o s /\ IsValidName("/" \o s, TRUE)
              /\ ValidR => LET q == Split(s) IN Len(q) > 0 /\ \A i \in 1..Len(q) : q[i] # "" /\ Balanced(q[i])
InvRelative == ValidA => LET p == GetTypename(s) IN IsValidName(p, FALSE) /\ IsValidNS(GetNamespace(s), TRUE) = AllIn(GetNamespace(s), IdChars \union {"/"})
InvDerived == ValidA => IsValidName(s \o "*", TRUE) /\ IsValidName(ArrayName(s, 12), TRUE) /\ IsValidName(VectorName(s), TRUE)
InvParse   == ValidA /\ FindFrom(s, 1, {" "}) = 0 => LET d == ParseDerived(s) IN d # <<>> => IsValidName(d[1], TRUE) \/ d[1] = ""
InvNorm    == NormNS(NormNS(s)) = NormNS(s) /\ LastCh(NormNS(s)) = "/" /\ (IsValidNS(s, TRUE) => IsValidNS(NormNS(s), TRUE))
InvRoot    == ValidA => InNS(s, "/", TRUE) /\ InNS(s, GetNamespace(s), FALSE) /\ RelName(s, GetNamespace(s)) = GetTypename(s)
=============================================================================
