------------------------------ MODULE Request ------------------------------
(* Requests for constrained solutions: which of them mean something, and what   *)
(* the meaningful ones mean.  The model has two drivers                          *)
(*    z_i(t) = r_i z_i(t-1) + sum_j M[i][j] e_j(t)                              *)
(* (deviations from the steady state), each followed by  x_i = g_i z_i, which   *)
(* gives way to  x_i = c_i + a_i z_i  while z_i is beyond a bound.  The drivers  *)
(* never depend on the regime, so the constrained path is known in closed form.  *)
EXTENDS Rat

(* a request: con, exprs, exog, shocks, init, periods, models are descriptions   *)
(* of the arguments, see MCRequest                                               *)
ConFaults(q) ==
  CASE q.con = "short" -> {"ValueError"}       \* one condition without the other
    [] q.con = "long" -> {"ValueError"}        \* a third condition
    [] q.con = "half" -> {"ValueError"}        \* two pairs, the second one incomplete
    [] q.con = "text" -> {"TypeError"}         \* a bare condition
    [] q.con = "number" -> {"TypeError"}
    [] q.con = "triple" -> IF Len(q.which) = 2 THEN {"ValueError"} ELSE {"any"}   \* three pairs: one more than can be solved
    [] q.con = "broken" -> {"PynareSyntaxError"}     \* not an expression
    [] q.con = "stranger" -> {"SyntaxError"}   \* mentions a name that nothing declares
    [] OTHER -> {}
ExprFaults(q) ==
  CASE q.exprs = "none" -> {"NotImplementedError"}   \* nothing to switch to
    [] q.exprs = "sigma" -> {"NotImplementedError"}  \* other covariances are not supported
    [] q.exprs = "few" -> {"any"}                    \* two constraints, too few regimes
    [] q.exprs = "far" -> {"IndexError"}             \* an equation the model does not have
    [] q.exprs = "badeq" -> {"PynareSyntaxError"}          \* a replacement that is no equation
    [] OTHER -> {}
Names(q) == IF q.exog = <<>> THEN <<1>> ELSE q.exog        \* the first variable unless told otherwise
ExogFaults(q, m) == IF \E i \in 1..Len(Names(q)) : Names(q)[i] > m THEN {"KeyError"} ELSE {}
Width(q) == IF q.sform \in {"vector", "number"} THEN 1 ELSE q.width
ShockFaults(q) ==
  CASE q.sform \in {"words", "ragged"} -> {"TypeError"}
    [] Width(q) # Len(Names(q)) -> {"ValueError"}
    [] OTHER -> {}
InitFaults(q) == IF q.init[1] \in {"short", "long", "words"} THEN {"any"} ELSE {}
ModelFaults(q) ==
  CASE q.models \in {"endog", "moved", "stoch", "params"} -> {"ModelVarError"}   \* the regimes' variables differ
    [] q.models = "count" -> {"ValueError"}                                       \* the solver of the other number of constraints
    [] OTHER -> {}
Faults(q, m) == ConFaults(q) \cup ExprFaults(q) \cup ExogFaults(q, m) \cup ShockFaults(q) \cup InitFaults(q) \cup ModelFaults(q)

(* ---- meaning of the requests without faults ---- *)
Drawn(q) == q.sform \in {"number", "tuple"}       \* shocks to be drawn at random
Innov(q, m, t) == TLCEval([j \in 1..m |->
   LET at == {i \in 1..Len(Names(q)) : Names(q)[i] = j} IN
   IF at = {} \/ t > Len(q.u) THEN Zero ELSE I(q.u[t][CHOOSE i \in at : TRUE])])
Horizon(q) == IF q.extra < 0 THEN Len(q.u) ELSE Len(q.u) + q.extra
Start(q) == IF q.init[1] = "given" THEN q.init[2] ELSE <<Zero, Zero>>
Drive(w, r, z, e) == TLCEval([i \in 1..2 |-> RAdd(RMul(r[i], z[i]), Dot(w.M[i], e))])
RECURSIVE Drivers(_, _, _, _)
Drivers(w, r, q, t) == IF t = 0 THEN <<Start(q)>>
  ELSE LET d == Drivers(w, r, q, t - 1) IN Append(d, Drive(w, r, d[Len(d)], Innov(q, w.m, t)))
Beyond(w, i, z) == IF w.up[i] THEN RLt(w.b[i], z) ELSE RLt(z, RNeg(w.b[i]))
Watched(q) == {q.which[j] : j \in 1..Len(q.which)}
Follow(w, q, z) == TLCEval([i \in 1..2 |->
   IF i \in Watched(q) /\ Beyond(w, i, z[i]) THEN RAdd(w.c[i], RMul(w.a[i], z[i])) ELSE RMul(w.g[i], z[i])])
Path(w, r, q) == LET d == Drivers(w, r, q, Horizon(q)) IN
   TLCEval([t \in 1..Horizon(q) |-> d[t + 1] \o Follow(w, q, d[t + 1])])
(* what is expected at date t, j periods later, when no further shocks are foreseen *)
Foreseen(w, r, q, i, t, j) == RMul(RPow(r[i], j), Drivers(w, r, q, t)[t + 1][i])
(* the reference regime has to be reached within the horizon of every plan *)
Late(w, r, q, j) == \E t \in 1..Len(q.u) : \E i \in Watched(q) : Beyond(w, i, Foreseen(w, r, q, i, t, j))
Warned(w, r, q) == IF Late(w, r, q, Horizon(q) - 1) THEN "yes"
                   ELSE IF Late(w, r, q, Horizon(q)) THEN "maybe" ELSE "no"
Binds(w, r, q) == \E t \in 1..Horizon(q) : \E i \in Watched(q) : Beyond(w, i, Drivers(w, r, q, t)[t + 1][i])
=============================================================================
