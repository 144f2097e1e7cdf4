------------------------------- MODULE MCSim -------------------------------
(* Simulation as a transition system: the state is the path so far (deviations*)
(* from the steady state, declaration order) and a step appends               *)
(*    y' = G y + Gu L z,   z the previous row of shocks.                       *)
(* Kind "sim": any starting point, any shocks.  Kind "irf": from the steady    *)
(* state, one impulse of one shock in the first row.                           *)
EXTENDS Wide, Json
CONSTANTS Seed, First, Last, Kind, Large
VARIABLES c, path, z, i, size
vars == <<c, path, z, i, size>>

Zs == << <<0,1>>, <<1,1>>, <<-1,1>>, <<1,2>>, <<2,1>>, <<-1,2>>, <<0,1>>, <<-3,1>> >>
Inits == << <<0,1>>, <<1,2>>, <<-1,1>>, <<2,1>>, <<0,1>>, <<1,4>> >>
Sizes == << <<1,1>>, <<2,1>>, <<-1,1>>, <<1,2>>, <<-3,2>>, <<4,1>> >>
(* some paths start at rest and the first shock comes late *)
Still(k) == (Hash(Seed, k, 903) % 3) = 0 /\ (Hash(Seed, k, 904) % 3) = 0
T(k) == (IF Still(k) THEN 4 ELSE 2) + (Hash(Seed, k, 900) % 4)
ZRow(k, m, t) == IF Still(k) /\ t < T(k) - 2 THEN ZeroV(m) ELSE TLCEval([j \in 1..m |-> Pick(Zs, Hash(Seed, k, 910 + 5 * t + j))])
Unit(m, j, v) == TLCEval([l \in 1..m |-> IF l = j THEN v ELSE Zero])

Init == /\ \E k \in First..Last : c = [k |-> k]
        /\ i = 0 /\ size = Zero /\ path = <<>> /\ z = <<>>
Built == path # <<>>
Build ==
   /\ ~Built
   /\ LET k == c.k
          cc == Degenerate(Seed, AnyKind(Seed, k, IF (k % 7) = 0 THEN "unit" ELSE "ok", Large))
          imp == (Hash(Seed, k, 901) % cc.m) + 1
          sz == Pick(Sizes, Hash(Seed, k, 902))
          zeroinit == (Hash(Seed, k, 903) % 3) = 0
      IN  /\ c' = cc
          /\ i' = IF Kind = "irf" THEN imp ELSE 0
          /\ size' = IF Kind = "irf" THEN sz ELSE Zero
          /\ path' = << IF Kind = "irf" \/ zeroinit THEN ZeroV(cc.n)
                       ELSE TLCEval([v \in 1..cc.n |-> Pick(Inits, Hash(Seed, k, 920 + v))]) >>
          /\ z' = << >>
Step == /\ Built /\ Len(path) < T(c.k)
        /\ LET t == Len(path)
               row == IF Kind = "irf" THEN (IF t = 1 THEN Unit(c.m, i, size) ELSE ZeroV(c.m))
                      ELSE ZRow(c.k, c.m, t)
               u == MVec(c.L, row)
           IN  /\ z' = Append(z, row)
               /\ path' = Append(path, VAdd(MVec(c.G, path[t]), MVec(c.Gu, u)))
        /\ UNCHANGED <<c, i, size>>
Next == Build \/ Step
Spec == Init /\ [][Next]_vars

PathKnown == Known(path)
(* the path satisfies the model's equations with rational expectations of the   *)
(* next period: C E[y(+1)] + B y + A y(-1) + D u = 0                             *)
Rational ==
  (Built /\ ModelKnown(c) /\ PathKnown) =>
     \A t \in 2..Len(path) :
        LET r == VAdd(VAdd(MVec(c.C, MVec(c.G, path[t])), MVec(c.B, path[t])),
                      VAdd(MVec(c.A, path[t - 1]), MVec(c.D, MVec(c.L, z[t - 1]))))
        IN  KnownV(r) => IsZeroV(r)
(* steady state with no shocks is a rest point *)
Rest == (Len(path) > 1 /\ IsZeroV(path[1]) /\ \A t \in 1..Len(z) : IsZeroV(z[t]))
          => \A t \in 1..Len(path) : IsZeroV(path[t])
(* homogeneous of degree one in the size of the impulse *)
Homogeneous == (Kind = "irf" /\ Len(path) > 1) =>
     \A t \in 2..Len(path) :
        LET one == IF t = 2 THEN MVec(c.Gu, MVec(c.L, Unit(c.m, i, One)))
                   ELSE MVec(c.G, VScale(RInv(size), path[t - 1]))
            s == VScale(size, one)
        IN  KnownV(s) => s = path[t]
Emit == (Built /\ Len(path) = T(c.k) /\ ModelKnown(c) /\ (Large => Proper(c)) /\ PathKnown) =>
          PrintT(ToJson([c EXCEPT !.kind = Kind] @@ [path |-> path, z |-> z, i |-> i, size |-> size, units |-> UnitPowers(Seed, c.k, c.n)]))
=============================================================================
