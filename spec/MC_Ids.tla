------------------------------- MODULE MC_Ids -------------------------------
(* Mob ids and AUIDs of a few bytes at each place that matters: what each text spells, and that no two say the same. *)
EXTENDS Ids
B == {0, 6, 255}
Zero(n) == [i \in 1..n |-> 0]
MobIds == {Zero(11) \o <<l>> \o <<19, 0, 0, i>> \o d \o e : l \in {0, 32}, i \in {0, 1}, d \in {LE(Half \o <<0, 1>> \o Zero(8)), LE(Half \o <<255, 0>> \o Half \o <<1, 1>>), Zero(16), LE(Zero(8) \o Half \o <<1, 2>>)},
                                                      e \in {<<>>}}
          \cup {Zero(11) \o <<l>> \o Zero(4) \o <<a, b, 0, 0, 0, 0, 0, c>> \o f : l \in {0, 32}, a \in B, b \in B, c \in B, f \in {Zero(8), Half \o <<0, 0>>, Half \o <<1, 255>>, <<6, 14, 43, 52, 127, 0, 0, 0>>}}
AUIDs == {<<a, b, 0, c, d, e, f, 0>> \o <<g>> \o Zero(7) : a \in B, b \in B, c \in B, d \in B, e \in B, f \in B, g \in B}
VARIABLES m, n, a, b
Init == \/ m \in MobIds /\ n \in MobIds /\ a = Zero(16) /\ b = Zero(16)
        \/ m = Zero(32) /\ n = Zero(32) /\ a \in {x \in AUIDs : x[1] = 6 /\ x[9] = 6} /\ b \in {x \in AUIDs : x[1] # 255 /\ x[2] = 0}
Next == UNCHANGED <<m, n, a, b>>
\* what is spelled is what is read, but for those no text spells
RoundTrip == ~Unspeakable(m) => OfText(Text(m)) = m
Spells == Text(OfText(Text(m))) = Text(m)
Distinct == (m # n /\ ~Unspeakable(m) /\ ~Unspeakable(n)) => Text(m) # Text(n)
LEInverse == LE(LE(a)) = a /\ Len(LE(a)) = 16
\* the order is total
Total == (a = b /\ ~Less(a, b)) \/ (a # b /\ (Less(a, b) # Less(b, a)))
FieldsAreAll == LET F == Fields(m) IN SetField(SetField(SetField([i \in 1..32 |-> IF i \in 14..16 THEN m[i] ELSE 7], "label", F.label), "length", <<F.length>>), "material", F.material) = m
PartsAreAll == LET P == Parts(Material(m))
               IN SetField(SetField(SetField(SetField([i \in 1..32 |-> IF i <= 16 THEN m[i] ELSE 7], "Data1", P.d1), "Data2", P.d2), "Data3", P.d3), "Data4", P.d4) = m
=============================================================================
