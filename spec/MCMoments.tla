----------------------------- MODULE MCMoments -----------------------------
EXTENDS Wide, Json
CONSTANTS Seed, First, Last, Lags, Large
VARIABLES c, mo
vars == <<c, mo>>
Init == \E k \in First..Last : c = [k |-> k] /\ mo = [known |-> FALSE, acov |-> <<>>]
Built == "n" \in DOMAIN c
(* two variables that move together, in proportions that binary fractions cannot    *)
(* hold, and a third that is the gap between them and so never moves                 *)
Together(s, k) ==
  LET m == ShockCount(s, k)
      r == Pick(<< <<3,10>>, <<-7,10>>, <<9,10>>, <<1,5>>, <<-2,5>>, <<1,10>> >>, Hash(s, k, 3161))
      w == Pick(<< <<3,1>>, <<7,1>>, <<-3,1>>, <<5,2>>, <<6,5>> >>, Hash(s, k, 3162))
      x == TLCEval([j \in 1..m |-> Pick(<< <<1,1>>, <<1,2>>, <<-1,1>>, <<3,10>> >>, Hash(s, k, 3163 + j))])
      nil == TLCEval([i \in 1..3 |-> <<Zero, Zero, Zero>>])
  IN  Assemble(s, k, [n |-> 3, bs |-> <<1, 2>>, fs |-> <<>>,
                      G |-> << <<r, Zero, Zero>>, <<Zero, r, Zero>>, <<r, RNeg(RDiv(r, w)), Zero>> >>,
                      F |-> nil, Gu |-> <<x, VScale(w, x), TLCEval([j \in 1..m |-> Zero])>>,
                      geig |-> << <<r, Zero>>, <<r, Zero>> >>, feig |-> <<>>], m, "ok")
Locked == ~Large /\ (Hash(Seed, c.k, 3160) % 6) = 0
Next == /\ ~Built
        /\ LET cc == Degenerate(Seed, IF Locked THEN Together(Seed, c.k)
                                       ELSE MakeKind(Seed, c.k, "ok", ShockCount(Seed, c.k)))
               w == WideOf(Seed, c.k, "ok")
           IN  IF Large THEN c' = w.c /\ mo' = WideMoments(w, Lags) ELSE c' = cc /\ mo' = Moments(cc, Lags)
Spec == Init /\ [][Next]_vars
AllKnown == Built /\ (Large => Proper(c)) /\ ModelKnown(c) /\ mo.known /\ \A l \in 1..Len(mo.acov) : Known(mo.acov[l])
Units == UnitPowers(Seed, c.k, c.n)
Theorems == AllKnown => /\ Stationary(c, mo) /\ Plausible(c, mo) /\ MomentsUnitFree(c, mo, Units)
                        /\ (Locked => /\ SolvesModel(c)
                                      /\ \A i \in 1..3 : mo.cov[3][i] = Zero /\ \A l \in 1..Lags : mo.acov[l][3][i] = Zero)
                        /\ (~Large /\ (c.k % 3) = 0 => ScalesWell(c, mo, Lags, <<1, 2>>))
Emit == AllKnown => PrintT(ToJson(c @@ [cov |-> mo.cov, acov |-> mo.acov, parts |-> mo.parts, sc |-> ScaleOf(Seed, c.k), units |-> Units]))
=============================================================================
