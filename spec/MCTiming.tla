------------------------------ MODULE MCTiming ------------------------------
(* Equations written one occurrence at a time.  Mode "all": every set of      *)
(* places of N variables in N equations; mode "rand": sampled models of up to *)
(* 5 variables, some with far offsets or unused variables, grown step by step.*)
EXTENDS Timing, Json
CONSTANTS Seed, N, Count, Mode
VARIABLES occ, n, k, last
vars == <<occ, n, k, last>>

Code(p, nn) == ((p[1] - 1) * 3 + (p[2] + 1)) * nn + p[3]
Init == IF Mode = "all" THEN occ = {} /\ n = N /\ k = 0 /\ last = 0
        ELSE \E j \in 1..Count : occ = {} /\ k = j /\ n = 2 + (Hash(Seed, j, 1) % 4) /\ last = 0

AddAny == /\ Mode = "all"
          /\ \E p \in (1..n) \X Off3 \X (1..n) :
               /\ Code(p, n) > last
               /\ occ' = occ \cup {p}
               /\ last' = Code(p, n)
          /\ UNCHANGED <<n, k>>
(* the last-th place of the k-th random model *)
Length(kk, nn) == nn + (Hash(Seed, kk, 2) % (2 * nn + 3))
RandPlace(kk, nn, i) ==
  LET v == IF i < nn /\ (Hash(Seed, kk, 3) % 9) # 0 THEN i + 1 ELSE (Hash(Seed, kk, 10 + 3 * i) % nn) + 1
      h == Hash(Seed, kk, 11 + 3 * i)
      o == IF (Hash(Seed, kk, 4) % 12) = 0 /\ i = nn THEN (IF (h % 2) = 0 THEN 2 ELSE -3)
           ELSE (h % 3) - 1
      r == IF i < nn THEN i + 1 ELSE (Hash(Seed, kk, 12 + 3 * i) % nn) + 1
  IN  <<v, o, r>>
AddRand == /\ Mode = "rand"
           /\ last < Length(k, n)
           /\ occ' = occ \cup {RandPlace(k, n, last)}
           /\ last' = last + 1
           /\ UNCHANGED <<n, k>>
Next == AddAny \/ AddRand
Spec == Init /\ [][Next]_vars

Theorems == Legal(occ, n) => Partition(occ, n) /\ Stable(occ, n)
Grows == [][Monotone(occ, occ', n)]_vars
Emit == IF Mode = "all" THEN PrintT(ToJson(Record(occ, n, 0)))
        ELSE last = Length(k, n) => PrintT(ToJson(Record(occ, n, k)))
=============================================================================
