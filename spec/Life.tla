-------------------------------- MODULE Life --------------------------------
(* The life of models: contents, alterations, copies, and solution orders.      *)
(*                                                                              *)
(* A content is a record                                                        *)
(*   endog, init : names of endogenous variables and their initial values       *)
(*   pars : sequence of [n, c, t]: parameter n is c + sum of t[i].k * t[i].n     *)
(*   locs : sequence of [n, v]: model-local values                              *)
(*   eqs  : sequence of [l, v, t, c, s, q]:  l * v = sum over                    *)
(*            t: k * f * n(o),  c: k * f,  s: k * f * shock n,                   *)
(*            q: k * shock n * (m(-1), or n again when m = "")                   *)
(*          where f is a parameter, a local name or "" for one                   *)
(*   stoch : sequence of [n, v], v the variance (NoVal: the default)             *)
(*   co    : sequence of [a, b, kind, v], kind "cov" or "corr"                   *)
(* A model is a content plus the set of orders its stored solution may have      *)
(* (0: not solved yet).                                                         *)
EXTENDS Rat
NoVal == <<0, 0>>
Names(s) == {s[i].n : i \in 1..Len(s)}
EndogSet(c) == {c.endog[i] : i \in 1..Len(c.endog)}
Find(s, n) == CHOOSE i \in 1..Len(s) : s[i].n = n

(* ---- values of parameters: a parameter only refers to others that have one ---- *)
RECURSIVE ParVal(_, _, _)
ParVal(ps, n, fuel) ==
  LET d == ps[Find(ps, n)]
  IN  IF fuel = 0 THEN Bad
      ELSE RAdd(d.c, RSum(TLCEval([i \in 1..Len(d.t) |-> RMul(d.t[i].k, ParVal(ps, d.t[i].n, fuel - 1))])))
Val(c, f) == IF f = "" THEN One
             ELSE IF f \in Names(c.locs) THEN c.locs[Find(c.locs, f)].v
             ELSE ParVal(c.pars, f, Len(c.pars) + 1)
ParVals(c) == TLCEval([i \in 1..Len(c.pars) |-> <<c.pars[i].n, ParVal(c.pars, c.pars[i].n, Len(c.pars) + 1)>>])

(* ---- names in use ---- *)
EqFactors(e) == {e.t[i].f : i \in 1..Len(e.t)} \cup {e.c[i].f : i \in 1..Len(e.c)} \cup {e.s[i].f : i \in 1..Len(e.s)}
Factors(c) == UNION {EqFactors(c.eqs[i]) : i \in 1..Len(c.eqs)} \ {""}
ParRefs(c) == UNION {{c.pars[i].t[j].n : j \in 1..Len(c.pars[i].t)} : i \in 1..Len(c.pars)}
EqVars(e) == ({e.v} \cup {e.t[i].n : i \in 1..Len(e.t)} \cup {e.q[i].m : i \in 1..Len(e.q)}) \ {""}
EqShocks(e) == {e.s[i].n : i \in 1..Len(e.s)} \cup {e.q[i].n : i \in 1..Len(e.q)}
WellFormed(c) ==
  /\ Len(c.eqs) = Len(c.endog) /\ Cardinality(EndogSet(c)) = Len(c.endog) /\ Len(c.init) = Len(c.endog)
  /\ Cardinality(Names(c.pars)) = Len(c.pars) /\ Cardinality(Names(c.stoch)) = Len(c.stoch)
  /\ Factors(c) \subseteq Names(c.pars) \cup Names(c.locs) /\ ParRefs(c) \subseteq Names(c.pars)
  /\ \A i \in 1..Len(c.eqs) : EqVars(c.eqs[i]) \subseteq EndogSet(c) /\ EqShocks(c.eqs[i]) \subseteq Names(c.stoch)
  /\ \A i \in 1..Len(c.co) : {c.co[i].a, c.co[i].b} \subseteq Names(c.stoch)

(* ---- what the content means ---- *)
Coef(c, e, n, o) == RSum(TLCEval([i \in 1..Len(e.t) |-> IF e.t[i].n = n /\ e.t[i].o = o THEN RMul(e.t[i].k, Val(c, e.t[i].f)) ELSE Zero]))
(* left - right = A y(-1) + B y + C y(+1) + c0 + ... *)
Mat(c, o) == Mk(Len(c.eqs), Len(c.endog), LAMBDA i, j :
                RSub(IF o = 0 /\ c.eqs[i].v = c.endog[j] THEN c.eqs[i].l ELSE Zero, Coef(c, c.eqs[i], c.endog[j], o)))
Const(c) == TLCEval([i \in 1..Len(c.eqs) |-> RNeg(RSum(TLCEval([j \in 1..Len(c.eqs[i].c) |->
                RMul(c.eqs[i].c[j].k, Val(c, c.eqs[i].c[j].f))])))])
Steady(c) == SolveV(MAdd(MAdd(Mat(c, -1), Mat(c, 0)), Mat(c, 1)), VNeg(Const(c)))
Shock(c) == Mk(Len(c.eqs), Len(c.stoch), LAMBDA i, j : RNeg(RSum(TLCEval([m \in 1..Len(c.eqs[i].s) |->
                IF c.eqs[i].s[m].n = c.stoch[j].n THEN RMul(c.eqs[i].s[m].k, Val(c, c.eqs[i].s[m].f)) ELSE Zero]))))
Variance(c, i) == IF c.stoch[i].v = NoVal THEN One ELSE c.stoch[i].v
(* stable: each equation's own coefficient outweighs all others *)
RowSum(c, e) == RSum(TLCEval([i \in 1..Len(e.t) |-> RAbs(RMul(e.t[i].k, Val(c, e.t[i].f)))]))
Dominant(c) == /\ {c.eqs[i].v : i \in 1..Len(c.eqs)} = EndogSet(c)
               /\ \A i \in 1..Len(c.eqs) : RLt(RowSum(c, c.eqs[i]), c.eqs[i].l) \/ c.eqs[i].l = One
Explosive(c) == \E i \in 1..Len(c.eqs) : c.eqs[i].l = One     \* written as  v = 2 * v(-1) + ...

(* ---- orders ---- *)
Default == 2
Settled(ord) == IF 0 \in ord THEN (ord \ {0}) \cup {Default} ELSE ord
AfterSolve(ord, o, bad) == IF bad THEN ord \cup (IF o \in {1, 2} THEN {o} ELSE IF o = 0 THEN {Default} ELSE {})
                           ELSE IF o = 0 THEN {Default} ELSE IF o \in {1, 2} THEN {o} ELSE ord
AfterSimulate(ord, o, bad) == IF o = 0 THEN (IF 0 \in ord THEN ord \cup {Default} ELSE ord) ELSE AfterSolve(ord, o, bad)
AfterUse(ord) == IF 0 \in ord THEN ord \cup {Default} ELSE ord       \* impulse responses, moments
=============================================================================
