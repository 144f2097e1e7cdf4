------------------------------ MODULE MCSigma ------------------------------
(* A shocks block written statement by statement, and the covariance matrix it *)
(* defines.  Statements:                                                       *)
(*   <<"var", i, 0, v>>   <<"std", i, 0, s>>   <<"cov", i, j, v>>               *)
(*   <<"cor", i, j, r>>                                                        *)
(* N > 0: every block for N shocks with at most Len statements (each variance   *)
(* and each pair at most once); N = 0: sampled blocks for 1 to 7 shocks.        *)
EXTENDS Rat, Json
CONSTANTS Seed, N, MaxLen, Count
VARIABLES st, n, k
vars == <<st, n, k>>

Sds == << <<1,2>>, <<2,1>>, <<3,1>>, <<3,2>>, <<1,10>>, <<0,1>> >>
Covs == << <<1,8>>, <<-1,4>>, <<1,1>>, <<-1,20>>, <<0,1>> >>
Cors == << <<1,2>>, <<-1,4>>, <<9,10>>, <<-1,2>>, <<0,1>> >>

IsVar(x) == x[1] \in {"var", "std"}
VarOf(s, i) == LET q == {j \in 1..Len(s) : IsVar(s[j]) /\ s[j][2] = i}
               IN  IF q = {} THEN One
                   ELSE LET x == s[CHOOSE j \in q : TRUE]
                        IN  IF x[1] = "var" THEN x[4] ELSE RMul(x[4], x[4])
(* standard deviations are exact by construction of the cases *)
RECURSIVE ISqrt(_, _)
ISqrt(x, a) == IF a * a >= x THEN a ELSE ISqrt(x, a + 1)
SqrtQ(v) == <<ISqrt(v[1], 0), ISqrt(v[2], 0)>>
PairOf(s, i, j) == LET q == {l \in 1..Len(s) : ~IsVar(s[l]) /\ {s[l][2], s[l][3]} = {i, j}}
                   IN  IF q = {} THEN Zero
                       ELSE LET x == s[CHOOSE l \in q : TRUE]
                            IN  IF x[1] = "cov" THEN x[4]
                                ELSE RMul(x[4], RMul(SqrtQ(VarOf(s, i)), SqrtQ(VarOf(s, j))))
Sigma(s, m) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |-> IF i = j THEN VarOf(s, i) ELSE PairOf(s, i, j)])])

Free(s, x) == IF IsVar(x) THEN \A j \in 1..Len(s) : ~(IsVar(s[j]) /\ s[j][2] = x[2])
              ELSE \A l \in 1..Len(s) : IsVar(s[l]) \/ {s[l][2], s[l][3]} # {x[2], x[3]}

SmallStatements(m) ==
   {<<"var", i, 0, <<9, 4>>>> : i \in 1..m} \cup {<<"std", i, 0, <<1, 2>>>> : i \in 1..m} \cup {<<"var", i, 0, Zero>> : i \in 1..m}
   \cup {<<"cov", p[1], p[2], <<-1, 8>>>> : p \in {q \in (1..m) \X (1..m) : q[1] # q[2]}}
   \cup {<<"cor", p[1], p[2], <<1, 2>>>> : p \in {q \in (1..m) \X (1..m) : q[1] # q[2]}}

RandStatement(kk, m, t) ==
  LET h(a) == Hash(Seed, kk, 20 + 10 * t + a)
      i == (h(1) % m) + 1
      j == IF m = 1 THEN 0 ELSE ((i - 1 + 1 + (h(2) % (m - 1))) % m) + 1
      sd == Pick(Sds, h(3))
  IN  CASE (m = 1 \/ (h(4) % 2) = 0) /\ (h(5) % 2) = 0 -> <<"var", i, 0, RMul(sd, sd)>>
        [] (m = 1 \/ (h(4) % 2) = 0) -> <<"std", i, 0, sd>>
        [] (h(5) % 2) = 0 -> <<"cov", i, j, Pick(Covs, h(6))>>
        [] OTHER -> <<"cor", i, j, Pick(Cors, h(6))>>

Init == IF N > 0 THEN st = <<>> /\ n = N /\ k = 0
        ELSE \E kk \in 1..Count : st = <<>> /\ k = kk /\ n = 1 + (Hash(Seed, kk, 1) % 7)
Declare(x) == Free(st, x) /\ st' = Append(st, x) /\ UNCHANGED <<n, k>>
Next == IF N > 0 THEN Len(st) < MaxLen /\ \E x \in SmallStatements(n) : Declare(x)
        ELSE /\ Len(st) < 2 * n + 2
             /\ LET can == {r \in 0..7 : Free(st, RandStatement(k, n, 1 + Len(st) + 17 * r))}
                IN  /\ can # {}
                    /\ Declare(RandStatement(k, n, 1 + Len(st) + 17 * (CHOOSE r \in can : \A x \in can : r <= x)))
Spec == Init /\ [][Next]_vars

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Symmetric == LET S == Sigma(st, n) IN \A i, j \in 1..n : S[i][j] = S[j][i]
OrderFree == Sigma(Rev(st), n) = Sigma(st, n)
(* declaring a pair never changes a variance, declaring a variance never changes *)
(* another one                                                                   *)
Local == [][ \A i \in 1..n : ~(IsVar(st'[Len(st')]) /\ st'[Len(st')][2] = i)
                => VarOf(st', i) = VarOf(st, i) ]_vars
Emit == LET S == Sigma(st, n)
        IN  Known(S) => PrintT(ToJson([k |-> k, n |-> n, st |-> st, S |-> S]))
=============================================================================
