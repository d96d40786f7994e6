----------------------------- MODULE MC_Convert -----------------------------
(* The graph of conversions between a plain type, its version wrappers (one  *)
(* to four deep), its newtypes, its JSON twin and proxied types.  Whatever   *)
(* walk is taken, the payload is unchanged and the version numbers are those *)
(* declared for the node reached.                                            *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxWalk
VARIABLES start, node, x, vers, steps
vars == << start, node, x, vers, steps >>
Declared == [p |-> << >>, v1 |-> << 3 >>, v2 |-> << 7, 3 >>, v3 |-> << 300, 7, 3 >>, v4 |-> << 65535, 300, 7, 3 >>,
             nt |-> << >>, nt2 |-> << >>, s |-> << >>, sv1 |-> << 5 >>, sv2 |-> << 6, 5 >>, sj |-> << >>,
             o |-> << >>, i |-> << >>, iv |-> << 9 >>, ivv |-> << 10, 9 >>, o2 |-> << >>, gi |-> << >>]
(* from, step, to, wrapping: "wrap" prepends what is missing, "peel" drops one, "strip" drops all, "proxy" replaces *)
Edges == { << "p", "v1", "v1", "wrap" >>, << "p", "v2", "v2", "wrap" >>, << "p", "v3", "v3", "wrap" >>, << "p", "v4", "v4", "wrap" >>,
           << "p", "new1", "v1", "wrap" >>, << "v1", "new2", "v2", "wrap" >>,
           << "v1", "p", "p", "strip" >>, << "v2", "p", "p", "strip" >>, << "v3", "p", "p", "strip" >>, << "v4", "p", "p", "strip" >>,
           << "v1", "inner", "p", "peel" >>, << "v2", "inner", "v1", "peel" >>, << "v3", "inner", "v2", "peel" >>, << "v4", "inner", "v3", "peel" >>,
           << "nt", "v1", "v1", "wrap" >>, << "v1", "nt", "nt", "strip" >>, << "nt2", "v2", "v2", "wrap" >>, << "v2", "nt2", "nt2", "strip" >>,
           << "s", "sv1", "sv1", "wrap" >>, << "s", "sv2", "sv2", "wrap" >>, << "sv1", "s", "s", "strip" >>, << "sv2", "s", "s", "strip" >>,
           << "s", "sj", "sj", "wrap" >>, << "sj", "s", "s", "strip" >>,
           << "o", "i", "i", "wrap" >>, << "i", "o", "o", "wrap" >>, << "o", "iv", "iv", "wrap" >>, << "iv", "o", "o", "strip" >>,
           << "i", "iv", "iv", "wrap" >>, << "iv", "i", "i", "strip" >>,
           << "o2", "ivv", "ivv", "wrap" >>, << "ivv", "o2", "o2", "strip" >>, << "ivv", "i", "i", "strip" >>,
           << "o2", "gi", "gi", "wrap" >>, << "gi", "o2", "o2", "strip" >>, << "i", "o2", "o2", "wrap" >>, << "o2", "i", "i", "wrap" >> }
Starts == { << "p", "p" >>, << "nt", "nt" >>, << "nt2", "nt2" >>, << "s", "s" >>, << "o", "o" >>, << "o2", "o2" >>,
            << "dv1", "v1" >>, << "dv2", "v2" >>, << "dv4", "v4" >>, << "dsv2", "sv2" >> }
IsDefault(s) == s \in {"dv1", "dv2", "dv4", "dsv2"}
Init == \E s \in Starts : /\ start = s[1] /\ node = s[2] /\ steps = << >> /\ vers = Declared[s[2]]
                          /\ x \in (IF IsDefault(s[1]) THEN {0} ELSE {5, -77})
Step == /\ Len(steps) < MaxWalk
        /\ \E e \in Edges : /\ e[1] = node /\ node' = e[3] /\ steps' = Append(steps, e[2])
             /\ vers' = CASE e[4] = "strip" -> << >> [] e[4] = "peel" -> Tail(vers)
                          [] OTHER -> SubSeq(Declared[e[3]], 1, Len(Declared[e[3]]) - Len(vers)) \o vers
        /\ UNCHANGED << start, x >>
Spec == Init /\ [][Step]_vars
VersionsDeclared == vers = Declared[node]
Case == [start |-> start, steps |-> steps, x |-> x, vers |-> vers]
Export == CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================
