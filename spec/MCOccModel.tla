---------------------------- MODULE MCOccModel -----------------------------
(* prints the models of OccWide *)
EXTENDS OccWide, Json
CONSTANTS Seed, First, Last
VARIABLES c, ready
Init == /\ \E k \in First..Last : c = [k |-> k]
        /\ ready = FALSE
Next == /\ ~ready
        /\ LET w == WideModel(Seed, c.k) IN (IF Usable(w) THEN c' = w /\ ready' = TRUE ELSE FALSE /\ UNCHANGED <<c, ready>>)
Spec == Init /\ [][Next]_<<c, ready>>
Solves == ready => SolvesModel(c)
Emit == ready => PrintT(ToJson(c))
=============================================================================
