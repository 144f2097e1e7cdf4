------------------------------ MODULE MCSecond ------------------------------
(* Second-order models: their solution (path = <<>>), simulated paths grown    *)
(* step by step, and their means.                                              *)
EXTENDS Second, Json
CONSTANTS Seed, First, Last, What, Large       \* What = "solve" | "sim" | "mean"
VARIABLES c, x, path, z, mean
vars == <<c, x, path, z, mean>>

Zs == << <<0,1>>, <<1,1>>, <<-1,1>>, <<1,2>>, <<2,1>>, <<-1,2>> >>
Inits == << <<0,1>>, <<1,2>>, <<-1,1>>, <<0,1>>, <<1,4>>, <<1,1>> >>
T(k) == 2 + (Hash(Seed, k, 900) % 3)

Init == /\ \E k \in First..Last : c = [k |-> k, built |-> FALSE]
        /\ x = <<>> /\ path = <<>> /\ z = <<>> /\ mean = <<>>
Build ==
   /\ ~c.built
   /\ LET k == c.k
          ww == WideFrom(Seed, k, "ok", 2)
          cc == IF Large THEN ww.c ELSE Degenerate(Seed, MakeKind(Seed, k, "ok", 1 + (Hash(Seed, k, 2) % 2)))
          xx == MakeSecond(Seed, k, cc)
          mo == IF What = "mean" THEN (IF Large THEN WideMoments(ww, 0) ELSE Moments(cc, 0)) ELSE [known |-> FALSE]
      IN  /\ (Large => Proper(cc) /\ cc.n <= 8)
          /\ SecondKnown(cc, xx)
          /\ c' = cc @@ [built |-> TRUE] /\ x' = xx
          /\ path' = IF What # "sim" THEN <<>>
                    ELSE << IF (Hash(Seed, k, 903) % 3) = 0 THEN ZeroV(cc.n)
                            ELSE TLCEval([v \in 1..cc.n |-> Pick(Inits, Hash(Seed, k, 920 + v))]) >>
          /\ z' = <<>>
          /\ mean' = IF mo.known THEN SecondMean(cc, xx, mo.cov) ELSE <<>>
Step == /\ What = "sim" /\ c.built /\ Len(path) < T(c.k)
        /\ LET t == Len(path)
               row == TLCEval([j \in 1..c.m |-> Pick(Zs, Hash(Seed, c.k, 910 + 5 * t + j))])
               y == SecondStep(c, x, path[t], MVec(c.L, row))
           IN  /\ KnownV(y)
               /\ path' = Append(path, y)
               /\ z' = Append(z, row)
        /\ UNCHANGED <<c, x, mean>>
Next == Build \/ Step
Spec == Init /\ [][Next]_vars

(* what shocks half as large leave of the risk correction and of the mean *)
Half == <<1, 2>>
Quarter(v) == TLCEval([i \in 1..Len(v) |-> RMul(<<1, 4>>, v[i])])
Proportional ==
  LET ch == Rescaled(c, Half)
      xh == [x EXCEPT !.del = Quarter(x.del)]
      mo == Moments(ch, 0)
  IN  /\ SolvesRisk(ch, xh)
      /\ (What = "mean" /\ ~Large /\ mean # <<>> /\ mo.known) =>
           LET m2 == SecondMean(ch, xh, mo.cov)
           IN  (KnownV(m2) /\ KnownV(mean) /\ KnownV(Quarter(mean)) /\ m2 # <<>>) => m2 = Quarter(mean)
\* thirds only where the steady state stays a binary fraction: the expansion is about the point
Units == LET u == UnitPowers(Seed, c.k, c.n)
         IN  TLCEval([i \in 1..c.n |-> IF c.ybar[i] = Zero THEN u[i] ELSE BinaryOf(u[i])])
UnitFree2 == LET cu == InUnits(c, Units)
                 xu == SecondInUnits(c, x, Units)
             IN  SecondKnown(cu, xu) => SolvesRays(cu, xu, Seed, 2) /\ SolvesRisk(cu, xu)
Theorems == (c.built /\ path \in {<<>>}) => SolvesModel(c) /\ SolvesRays(c, x, Seed, 3) /\ SolvesRisk(c, x)
            /\ ((c.k % 4) = 0 => Proportional)
            /\ ((c.k % 4) = 1 => UnitFree2)
Emit == LET out == c @@ [H |-> x.H, Q |-> x.Q, R |-> x.R, del |-> x.del, path |-> path, z |-> z, mean |-> mean,
                         bs |-> BackVars(c), units |-> Units,
                         sc |-> IF What = "sim" THEN 0 ELSE ScaleOf(Seed, c.k)]
        IN  CASE ~c.built -> TRUE
              [] What = "solve" -> PrintT(ToJson(out))
              [] What = "sim" -> Len(path) >= 2 /\ ~ENABLED Step => PrintT(ToJson(out))
              [] OTHER -> (mean # <<>> /\ KnownV(mean)) => PrintT(ToJson(out))
=============================================================================
