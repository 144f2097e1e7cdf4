------------------------------ MODULE MCSample ------------------------------
(* A path grows row by row while an observer that started after the dropped      *)
(* rows keeps running sums of values and products; at the end statistics are     *)
(* asked for.  The running sums must agree with the definitions.                 *)
EXTENDS Sample, Json
CONSTANTS Seed, First, Last
VARIABLES k, path, sums, asked
vars == <<k, path, sums, asked>>
H(i) == Hash(Seed, k, i)
NV == 1 + (H(1) % 3)
T == 1 + (H(2) % 8)
Drop == (H(3) % (T + 3)) - 1                  \* also -1 and T + 1
Lags == H(4) % (T + 2)
Off == Pick(<< I(0), I(5), <<-7, 2>>, I(100) >>, H(5))
Vals == << I(0), I(1), I(-1), I(2), I(-2), <<1,2>>, I(3), <<-3,2>>, I(1) >>
Row(t) == [j \in 1..NV |-> IF j = 3 /\ (H(6) % 3) = 0 THEN Off               \* a constant series
                           ELSE RAdd(Off, Pick(Vals, H(10 + 7 * t + j)))]
ZeroSums == [n |-> 0, s |-> ZeroV(NV), p |-> ZeroM(NV, NV)]
Init == /\ k \in First..Last /\ path = <<>> /\ asked = FALSE
        /\ sums = [n |-> 0, s |-> <<>>, p |-> <<>>]
Grow == /\ Len(path) < T /\ ~asked
        /\ LET r == Row(Len(path) + 1)
               z == IF sums.s = <<>> THEN ZeroSums ELSE sums
           IN  /\ path' = Append(path, r)
               /\ sums' = IF Len(path) < Drop THEN z
                          ELSE [n |-> z.n + 1, s |-> VAdd(z.s, r),
                                p |-> MAdd(z.p, Mk(NV, NV, LAMBDA a, b : RMul(r[a], r[b])))]
        /\ UNCHANGED <<k, asked>>
Ask == /\ Len(path) = T /\ ~asked /\ asked' = TRUE /\ UNCHANGED <<k, path, sums>>
Next == Grow \/ Ask
Spec == Init /\ [][Next]_vars

P == Keep(path, Drop)
Defined == asked /\ ~BadDrop(T, Drop) /\ Drop < T
Running == Defined =>
  LET C == CovM(P, NV) IN
  /\ sums.n = Len(P)
  /\ \A a, b \in 1..NV : Q(C[a][b][1], C[a][b][2]) =
       RSub(RDiv(sums.p[a][b], I(sums.n)), RDiv(RMul(sums.s[a], sums.s[b]), I(sums.n * sums.n)))
(* symmetric, and no correlation beyond one *)
Bounded == Defined =>
  LET C == CovM(P, NV) IN \A a, b \in 1..NV :
     /\ C[a][b] = C[b][a] /\ RLe(Zero, C[a][a])
     /\ RLe(RMul(C[a][b], C[a][b]), RMul(C[a][a], C[b][b]))
(* the zeroth autocovariance is the variance; a shift of the path changes nothing *)
Shift == Defined =>
  LET p2 == TLCEval([t \in 1..Len(P) |-> TLCEval([j \in 1..NV |-> RAdd(P[t][j], I(3))])])
  IN  /\ \A j \in 1..NV : Autocov(P, j, 0) = Cov(P, j, j)
      /\ CovM(P, NV) = CovM(p2, NV)
Emit == asked =>
  PrintT(ToJson([k |-> k, n |-> NV, path |-> path, drop |-> Drop, lags |-> Lags,
                 badDrop |-> BadDrop(T, Drop), badLags |-> BadLags(T, Drop, Lags),
                 cov |-> IF Defined THEN CovM(P, NV) ELSE <<>>,
                 acov |-> IF Defined /\ ~BadLags(T, Drop, Lags) THEN AutocovM(P, NV, Min2(Lags, T - Drop - 1)) ELSE <<>>]))
=============================================================================
