------------------------------- MODULE ProofParts -------------------------------
(* How the parts of a block's proof reach the proof system.                    *)
(*                                                                             *)
(* A block tells numbers as 32 bytes, the least first, points as two numbers   *)
(* or none (the point at infinity), and lists and pairs of those.  The proof   *)
(* system gets the same numbers in its own field, the same points, all of      *)
(* them, in the same order; a point is at infinity if it was told so and not   *)
(* because of its numbers.                                                     *)
EXTENDS Naturals, Sequences
CONSTANTS Numbers, MaxLen
VARIABLES kind, curve, part, given
vars == << kind, curve, part, given >>
Kinds == {"numbers", "point", "points", "finite point", "finite points", "pairs"}
Many(k) == k \in {"numbers", "points", "finite points", "pairs"}
Points == { [infinity |-> FALSE, x |-> x, y |-> y] : x \in Numbers, y \in Numbers }
Infinity == [infinity |-> TRUE, x |-> "none", y |-> "none"]
Elements(k) == CASE k = "numbers" -> Numbers
                 [] k \in {"point", "points"} -> Points \cup {Infinity}
                 [] k \in {"finite point", "finite points"} -> Points
                 [] k = "pairs" -> Points \X Points
(* what the numbers of the point at infinity are is nobody's business *)
Point(e) == IF e.infinity THEN [infinity |-> TRUE, x |-> "none", y |-> "none"] ELSE [infinity |-> FALSE, x |-> e.x, y |-> e.y]
Meant(k, e) == CASE k = "numbers" -> e
                 [] k = "pairs" -> << Point(e[1]), Point(e[2]) >>
                 [] OTHER -> Point(e)
Start == /\ kind \in Kinds /\ curve \in {"pallas", "vesta"} /\ part = << >> /\ given = << >>
Tell(e) == /\ Len(part) < (IF Many(kind) THEN MaxLen ELSE 1)
           /\ part' = Append(part, e) /\ given' = Append(given, Meant(kind, e)) /\ UNCHANGED << kind, curve >>
Whole == Many(kind) \/ Len(part) = 1
(* nothing is lost, moved or made up *)
Same == /\ Len(given) = Len(part)
        /\ \A i \in DOMAIN part : given[i] = Meant(kind, part[i])
(* what is handed over tells what was told *)
Faithful == \A i, j \in DOMAIN part : given[i] = given[j] => part[i] = part[j]
=================================================================================
