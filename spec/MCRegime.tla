------------------------------ MODULE MCRegime ------------------------------
(* Regime-switching models: at some point of a history of MCLife one of the      *)
(* models becomes the baseline of a regime-switching model.  Each alternative    *)
(* regime is a further model with the baseline's content in which exactly the    *)
(* listed equations are replaced; afterwards every model is again on its own.    *)
EXTENDS MCLife
RG(i) == Hash(Seed + 11, k, i)
At == 1 + (RG(0) % 3)                         \* after this many steps
Base == 1 + (RG(1) % Len(models))
(* the j-th alternative: which equations, and what replaces them *)
Pieces(j, x) ==
  LET ids == {i \in 1..Len(x.eqs) : (RG(20 * j + i) % 3) # 0}
      sel == IF ids = {} /\ (RG(20 * j) % 4) # 0 THEN {1 + (RG(20 * j + 9) % Len(x.eqs))} ELSE ids
      fs == PNames(x) \o LNames(x)
      one(i) == [i |-> i, e |-> IF (RG(20 * j + i + 10) % 6) = 0 THEN Burst(x.eqs[i].v, SNames(x))
                                ELSE EqOf(x.eqs[i].v, x.endog, fs, SNames(x), LAMBDA z : RG(1000 * j + 100 * i + z))]
      up == SelectSeq([i \in 1..Len(x.eqs) |-> i], LAMBDA i : i \in sel)
  IN  TLCEval([n \in 1..Len(up) |-> one(up[n])])
RECURSIVE Put(_, _, _)
Put(x, ps, n) == IF n > Len(ps) THEN x ELSE Put([x EXCEPT !.eqs[ps[n].i] = ps[n].e], ps, n + 1)
Alternative(x, ps) == Put(x, ps, 1)
NAlt == 1 + (RG(2) % 3)
Form == IF NAlt = 1 /\ (RG(3) % 2) = 0 THEN "dict" ELSE "list"
Regimes ==
  /\ models # <<>> /\ Len(log) = At
  /\ LET b == models[Base]
         alts == TLCEval([j \in 1..NAlt |-> Pieces(j, b.c)])
         new == TLCEval([j \in 1..NAlt |-> [c |-> Alternative(b.c, alts[j]), ord |-> {0} \cup b.ord]])
     IN  /\ Form = "dict" => alts[1] # <<>>
         /\ \A j \in 1..NAlt : Sound(new[j].c)
         /\ models' = models \o new
         /\ log' = log \o [j \in 1..NAlt |-> [op |-> [act |-> "regimes", m |-> Base, at |-> j, form |-> Form, alts |-> alts],
                                              d |-> Digest(new[j])]]
  /\ UNCHANGED k
NextR == IF Len(log) = At THEN Regimes ELSE (Begin \/ Go)
SpecR == Init /\ [][NextR]_vars

IsReg(e) == e.op.act = "regimes"
(* an alternative differs from its baseline in the listed equations only, and    *)
(* nothing that existed changes                                                 *)
Only == [][(models # <<>> /\ IsReg(log'[Len(log')])) =>
             /\ \A i \in 1..Len(models) : models'[i] = models[i]
             /\ LET op == log'[Len(log')].op IN
                \A j \in 1..Len(op.alts) :
                   LET x == models'[Len(models) + j].c
                       y == models[op.m].c
                       hit == {op.alts[j][n].i : n \in 1..Len(op.alts[j])}
                   IN  /\ [x EXCEPT !.eqs = y.eqs] = y /\ Len(x.eqs) = Len(y.eqs)
                       /\ \A i \in 1..Len(x.eqs) : (i \notin hit) => (x.eqs[i] = y.eqs[i])
                       /\ \A n \in 1..Len(op.alts[j]) : x.eqs[op.alts[j][n].i] = op.alts[j][n].e]_vars
EmitR == (Len(log) > Steps /\ \E i \in 1..Len(log) : IsReg(log[i])) => PrintT(ToJson([k |-> k, log |-> log]))
=============================================================================
