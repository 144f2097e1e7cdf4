------------------------------- MODULE MCOcc -------------------------------
(* The guess-and-verify life of a constrained path: every period a surprise    *)
(* shock arrives (the first Len(us) periods), regimes are guessed, the foreseen *)
(* path is compared with the conditions and the guess revised, until it is     *)
(* consistent; then the first period happens and the rest becomes the next     *)
(* period's first guess.  A case that leaves the horizon, a tie or a number    *)
(* that does not fit is abandoned (lost).                                      *)
EXTENDS Occ, Json
CONSTANTS Seed, First, Last, Horizon, Cons, Tries
VARIABLES c, us, y0, rows, hs, hypo, try, plan, status
vars == <<c, us, y0, rows, hs, hypo, try, plan, status>>

Periods == 6
N == Periods + 1
Shocks == << <<0,1>>, <<1,1>>, <<-1,1>>, <<2,1>>, <<-2,1>>, <<1,2>>, <<-3,2>>, <<3,1>>, <<-3,1>> >>
Inits == << <<0,1>>, <<0,1>>, <<1,2>>, <<-1,1>>, <<1,1>>, <<-1,2>> >>

Init == /\ \E k \in First..Last : c = [k |-> k]
        /\ us = <<>> /\ y0 = <<>> /\ rows = <<>> /\ hs = <<>> /\ hypo = <<>> /\ try = 0 /\ plan = <<>>
        /\ status = "new"
Build ==
  /\ status = "new"
  /\ LET k == c.k
         n == IF Cons = 2 THEN 2 ELSE << 1, 2, 2, 3 >>[(Hash(Seed, k, 1) % 4) + 1]
         m == << 1, 2 >>[(Hash(Seed, k, 2) % 2) + 1]
         T == (Hash(Seed, k, 3) % 3) + 1
         cc == Make(Seed, k, n, m, Cons, Stable)
     IN  IF cc = <<>>
         THEN /\ status' = "lost" /\ UNCHANGED <<c, us, y0, rows, hs, hypo, try, plan>>
         ELSE /\ c' = cc
              /\ us' = [t \in 1..T |-> [j \in 1..m |-> Pick(Shocks, Hash(Seed, k, 20 + 5 * t + j))]]
              /\ y0' = IF (Hash(Seed, k, 4) % 2) = 0 THEN ZeroV(cc.n)
                       ELSE TLCEval([i \in 1..cc.n |-> Pick(Inits, Hash(Seed, k, 60 + i))])
              \* every regime must determine its own variables given what comes after
              /\ status' = IF ~(Known(cc.A) /\ Known(cc.B) /\ Known(cc.C) /\ Known(cc.D)) THEN "lost"
                           ELSE IF \A r \in 1..(2 ^ Cons - 1) : Rule(cc, <<r>>) # <<>> THEN "guess" ELSE "lost"
              /\ UNCHANGED <<rows, hs, hypo, try, plan>>
Prev == IF rows = <<>> THEN y0 ELSE rows[Len(rows)]
Now == us[Len(rows) + 1]
Verify ==
  /\ status = "guess"
  /\ LET p == Plan(c, hypo, Prev, Now, N)
         g == Guess(c, hypo, p)
     IN  IF p = <<>> \/ Tie(c, hypo, p) \/ Len(g) > Horizon \/ try >= Tries
         THEN /\ status' = "lost" /\ UNCHANGED <<c, us, y0, rows, hs, hypo, try, plan>>
         ELSE IF g = hypo
         THEN /\ rows' = Append(rows, p[1])
              /\ hs' = Append(hs, hypo)
              /\ plan' = p
              /\ try' = 0
              /\ hypo' = IF hypo = <<>> THEN <<>> ELSE Tail(hypo)
              /\ status' = IF Len(rows) + 1 = Len(us) THEN "done" ELSE "guess"
              /\ UNCHANGED <<c, us, y0>>
         ELSE /\ hypo' = g /\ try' = try + 1
              /\ UNCHANGED <<c, us, y0, rows, hs, plan, status>>
Next == Build \/ Verify
Spec == Init /\ [][Next]_vars

Built == status \in {"guess", "done"}
Taken == Built /\ rows # <<>> /\ try = 0
LastPrev == IF Len(rows) = 1 THEN y0 ELSE rows[Len(rows) - 1]
(* ------------------------------ theorems ---------------------------------- *)
(* the reference rule solves the reference model, and is its own continuation  *)
Reference == (Built /\ rows = <<>> /\ try = 0) =>
               (SolvesModel(c) /\ LET b == Back1(c, 0, Rule(c, <<>>)) IN
                                  (b # <<>>) => (b = Rule(c, <<>>)))
(* an accepted plan satisfies conditions and equations                         *)
Sound == Taken => LET h == hs[Len(hs)] IN
           Consistent(c, h, plan) /\ PlanHolds(c, h, LastPrev, us[Len(rows)], plan)
(* if no constraint ever binds the path is the linear simulation               *)
Linear == (Taken /\ hs[Len(hs)] = <<>>) =>
             plan[1] = VAdd(MVec(c.G, LastPrev), MVec(c.Gu, us[Len(rows)]))
(* the accepted plan is the only consistent one (within the horizon)           *)
RECURSIVE Seqs(_)
Seqs(h) == IF h = 0 THEN {<<>>} ELSE LET S == Seqs(h - 1) IN
             S \cup {Append(q, r) : q \in {x \in S : Len(x) = h - 1}, r \in 0..(2 ^ Cons - 1)}
Cand == {q \in Seqs(Horizon) : q = Trim(q)}
Others == {q \in Cand \ {hs[Len(hs)]} :
             LET p == Plan(c, q, LastPrev, us[Len(rows)], N) IN p # <<>> /\ Consistent(c, q, p)}

Full(x) == rows \o SubSeq(x, 2, Periods - Len(rows) + 1)
Emit == (status = "done") =>
          PrintT(ToJson(c @@ [us |-> us, y0 |-> y0, path |-> Full(plan), hs |-> hs,
                              few |-> Others = {}]))
=============================================================================
