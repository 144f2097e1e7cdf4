------------------------------- MODULE Timing -------------------------------
(* The timing classes of variables, defined by the set of places               *)
(*   <<v, o, r>>   variable v occurs with offset o in equation r               *)
(* at which they occur, and the two orderings derived from them.               *)
EXTENDS Rat

Off3 == {-1, 0, 1}
OccursAt(occ, v, o) == \E p \in occ : p[1] = v /\ p[2] = o
Class(occ, v) ==
  LET lag == OccursAt(occ, v, -1)
      led == OccursAt(occ, v, 1)
  IN  IF lag /\ led THEN "mixed" ELSE IF lag THEN "back" ELSE IF led THEN "fwd"
      ELSE IF OccursAt(occ, v, 0) THEN "static" ELSE "nowhere"
FarAway(occ) == \E p \in occ : p[2] \notin Off3
Legal(occ, n) == ~FarAway(occ) /\ \A v \in 1..n : Class(occ, v) # "nowhere"

RECURSIVE Pick1(_, _, _)
Pick1(n, p, i) == IF i > n THEN <<>> ELSE (IF p[i] THEN <<i>> ELSE <<>>) \o Pick1(n, p, i + 1)
Members(occ, n, cs) == Pick1(n, [v \in 1..n |-> Class(occ, v) \in cs], 1)
AtOffset(occ, n, o) == Pick1(n, [v \in 1..n |-> OccursAt(occ, v, o)], 1)
DrOrder(occ, n) == Members(occ, n, {"static"}) \o Members(occ, n, {"back"})
                   \o Members(occ, n, {"mixed"}) \o Members(occ, n, {"fwd"})
DcOrder(occ, n) == LET dr == DrOrder(occ, n)
                   IN  TLCEval([v \in 1..n |-> CHOOSE p \in 1..n : dr[p] = v])

(* theorems *)
Perm(s, n) == Len(s) = n /\ {s[i] : i \in 1..Len(s)} = 1..n
Partition(occ, n) == LET dr == DrOrder(occ, n)
                         dc == DcOrder(occ, n)
                     IN  Perm(dr, n) /\ Perm(dc, n) /\ \A v \in 1..n : dr[dc[v]] = v /\ dc[dr[v]] = v
(* within a class, declaration order *)
Stable(occ, n) == LET dr == DrOrder(occ, n)
                  IN  \A i, j \in 1..n : i < j /\ Class(occ, dr[i]) = Class(occ, dr[j]) => dr[i] < dr[j]
(* adding an occurrence never turns a dynamic variable into a static one, and    *)
(* never removes a variable from the states or from the forward variables         *)
Monotone(occ, occ2, n) == \A v \in 1..n :
   /\ Class(occ, v) \in {"back", "mixed"} => Class(occ2, v) \in {"back", "mixed"}
   /\ Class(occ, v) \in {"fwd", "mixed"} => Class(occ2, v) \in {"fwd", "mixed"}

(* the coefficient at a place; generic enough that columns are independent when *)
(* the pattern allows it                                                         *)
Coef(p) == << 2, 7, -3, 11, 5, -13, 17, 1, -19, 23, 4, -29, 9, 31, -8 >>[((p[1] * 17 + p[2] * 5 + p[3] * 29 + 60) % 15) + 1]
StaticCols(occ, n) ==
  LET st == Members(occ, n, {"static"})
  IN  TLCEval([r \in 1..n |-> TLCEval([j \in 1..Len(st) |->
         IF <<st[j], 0, r>> \in occ THEN I(Coef(<<st[j], 0, r>>)) ELSE Zero])])
(* the static variables can be told apart: S'S is nonsingular *)
Identified(occ, n) ==
  LET S == StaticCols(occ, n)
      m == Len(Members(occ, n, {"static"}))
      T == TransposeN(S, m)
  IN  m = 0 \/ (LET X == MMulN(T, S, m) IN Known(X) /\ ~Singular(X))

(* the equations determine the variables at all: A + B z + C z^2 is nonsingular   *)
(* at some z                                                                      *)
Pencil(occ, n, z) ==
  LET at(r, v, o) == IF <<v, o, r>> \in occ THEN Coef(<<v, o, r>>) ELSE 0
  IN  TLCEval([r \in 1..n |-> TLCEval([v \in 1..n |->
         I(at(r, v, -1) + z * at(r, v, 0) + z * z * at(r, v, 1))])])
Regular(occ, n) == \E z \in {2, 3} : LET P == InvM(Pencil(occ, n, z)) IN P # <<>> /\ Known(P)

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Record(occ, n, k) ==
  [k |-> k, n |-> n, legal |-> Legal(occ, n), ident |-> Legal(occ, n) /\ Identified(occ, n) /\ Regular(occ, n),
   places |-> LET s == SetSeq(occ) IN [i \in 1..Len(s) |-> s[i] \o <<Coef(s[i])>>],
   cls |-> [v \in 1..n |-> Class(occ, v)],
   dr |-> IF Legal(occ, n) THEN DrOrder(occ, n) ELSE <<>>,
   dc |-> IF Legal(occ, n) THEN DcOrder(occ, n) ELSE <<>>,
   static |-> Members(occ, n, {"static"}), back |-> Members(occ, n, {"back"}),
   mixed |-> Members(occ, n, {"mixed"}), fwd |-> Members(occ, n, {"fwd"}),
   state |-> Members(occ, n, {"back", "mixed"}), forward |-> Members(occ, n, {"mixed", "fwd"}),
   lag |-> AtOffset(occ, n, -1), cur |-> AtOffset(occ, n, 0), led |-> AtOffset(occ, n, 1)]
=============================================================================
