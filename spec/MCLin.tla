------------------------------- MODULE MCLin -------------------------------
(* Cases of LinRE, each checked against its own theorems and printed.         *)
EXTENDS Wide, Json
CONSTANTS Seed, First, Last, Mode, Large
VARIABLE c, done
vars == <<c, done>>
Kinds == IF Mode = "all" THEN <<"ok", "indet", "ok", "expl", "unit", "rank", "ok", "funit", "static">>
         ELSE IF Mode = "solvable" THEN <<"ok", "ok", "ok", "unit">> ELSE <<"ok">>
Init == \E k \in First..Last : c = [k |-> k] /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ c' = AnyKind(Seed, c.k, Pick(Kinds, c.k), Large)
Spec == Init /\ [][Next]_vars
Units == UnitPowers(Seed, c.k, c.n)
Theorems == (done /\ ModelKnown(c)) => /\ (c.kind # "static" => SolvesModel(c)) /\ (c.kind = "static" => Singular(c.B)) /\ OrdersInverse(c) /\ ((Large => Proper(c)) => BKOrder(c)) /\ EigTrace(c)
            /\ (c.kind # "static" => UnitFree(c, Units))
Emit == (done /\ ModelKnown(c) /\ (Large => Proper(c))) => PrintT(ToJson(c @@ [units |-> Units]))
=============================================================================
