---------------------------- MODULE MCOccTrace -----------------------------
(* Judging recorded constrained paths.  A trace lists, for every date at which  *)
(* a surprise arrives, the whole path foreseen from that date on (numbers       *)
(* rounded to multiples of 1/Scale).  The machine accepts a date when what       *)
(* happens is what was foreseen for it and every foreseen period satisfies the   *)
(* equations of some regime whose conditions allow it, the last ones the         *)
(* reference regime.  Rounding is allowed for exactly.                           *)
EXTENDS OccWide, Json, IOUtils
CONSTANTS Seed, File, Scale
VARIABLES i, c, t
vars == <<i, c, t>>
Traces == ndJsonDeserialize(File)

Init == /\ i \in 1..Len(Traces) /\ c = <<>> /\ t = -2
Load == /\ t = -2 /\ c' = WideModel(Seed, Traces[i].k) /\ t' = 0 /\ i' = i

RInt(v) == TLCEval([j \in 1..Len(v) |-> I(v[j])])
AbsSum(v) == RSum(TLCEval([j \in 1..Len(v) |-> RAbs(v[j])]))
(* |residual| <= half a unit for every term, and one for floating point *)
RowOk(g, l, yl, y, yn, u) ==
  LET e == RAdd(RAdd(RAdd(Dot(g.A[l], yl), Dot(g.B[l], y)), RAdd(Dot(g.C[l], yn), Dot(g.D[l], u))),
                RMul(I(Scale), g.k[l]))
      room == RAdd(One, RHalf(RAdd(RAdd(AbsSum(g.A[l]), AbsSum(g.B[l])), AbsSum(g.C[l]))))
  IN  e[2] = 0 \/ room[2] = 0 \/ RLe(RAbs(e), room)
CondOk(r, y) == \A j \in 1..NC(c) :
   LET k == c.con[j]
       b == RMul(I(Scale), k.bound)
   IN  IF Bit(r, j) THEN RLe(RMul(k.sg, RSub(y[c.core + j], b)), One)
       ELSE RLe(<<-1, 1>>, RMul(k.sg, RSub(y[k.w], b)))
PeriodOk(regimes, yl, y, yn, u) ==
  \E r \in regimes : /\ CondOk(r, y)
                     /\ LET g == Regime(c, r) IN \A l \in 1..c.n : RowOk(g, l, yl, y, yn, u)
BadPeriods(tr, d) ==
  LET p == tr.plans[d]
      pv == IF d = 1 THEN tr.y0 ELSE tr.path[d - 1]
      all == 0..(2 ^ NC(c) - 1)
  IN  {n \in 1..(Len(p) - 1) :
         ~PeriodOk(IF n > Len(p) - 3 THEN {0} ELSE all,
                   RInt(IF n = 1 THEN pv ELSE p[n - 1]), RInt(p[n]), RInt(p[n + 1]),
                   RInt(IF n = 1 THEN tr.us[d] ELSE [j \in 1..c.m |-> 0]))}
Near(u, v) == \A j \in 1..Len(u) : Abs(u[j] - v[j]) <= 1
Accepts(d) == LET tr == Traces[i] IN Near(tr.path[d], tr.plans[d][1]) /\ BadPeriods(tr, d) = {}
Step == /\ t >= 0 /\ t < Len(Traces[i].plans)
        /\ t' = IF Accepts(t + 1) THEN t + 1 ELSE -1
        /\ UNCHANGED <<i, c>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
Emit == (t = -1 \/ (t > 0 /\ t = Len(Traces[i].plans))) => PrintT(ToJson([k |-> Traces[i].k, ok |-> t > 0]))
=============================================================================
