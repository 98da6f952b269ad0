----------------------------- MODULE NamesOrderMC -----------------------------
(* The ordering of names on all triples, and the paths between namespaces.   *)
EXTENDS Names, Json, IOUtils, TLC
U == JsonDeserialize(IOEnv.UNIVERSE)      \* [chars, max, parts, depth]
RECURSIVE Strs(_), Paths(_)
Strs(n) == IF n = 0 THEN {""} ELSE Strs(n - 1) \union {x \o c : x \in Strs(n - 1), c \in {U.chars[i] : i \in 1..Len(U.chars)}}
Paths(n) == IF n = 0 THEN {"/"} ELSE Paths(n - 1) \union {x \o c \o "/" : x \in Paths(n - 1), c \in {U.parts[i] : i \in 1..Len(U.parts)}}
All == Strs(U.max)
Full == {p \o "T" : p \in Paths(U.depth)}
Spaces == Paths(U.depth)
VARIABLES a, b, c
Init == \/ a \in All /\ b \in All /\ c = ""
        \/ a \in Full /\ b \in Spaces /\ c = "path"
Next == c = "" /\ c' \in All /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c>>
InvStrict == ~NameSort(a, a) /\ ~(NameSort(a, b) /\ NameSort(b, a)) /\ (a # b => NameSort(a, b) \/ NameSort(b, a))
InvTrans  == c # "path" => (NameSort(a, b) /\ NameSort(b, c) => NameSort(a, c))
(* what is in a namespace is contiguous *)
InvContig == c # "path" => \A n \in {SubSeq(a, 1, i) : i \in 1..Len(a)} :
               LastCh(n) = "/" /\ StartsWith(n, c) /\ NameSort(a, b) /\ NameSort(b, c) => StartsWith(n, b)
(* the path computed for a type designates it; an absolute one is its namespace *)
InvPath   == c = "path" => /\ a \in Meanings(a, MinPath(a, b), b)
                           /\ (InNS(a, b, TRUE) => ~IsAbsolute(MinPath(a, b)) /\ b \o MinPath(a, b) \o GetTypename(a) = a)
                           /\ (InNS(a, b, FALSE) => MinPath(a, b) = "")
=============================================================================
