------------------------------- MODULE Calib -------------------------------
(* The calibration of a model: a set of parameter definitions, each a number   *)
(* or an expression in other parameters, and the values that solve them.       *)
EXTENDS Rat

NoDef == [kind |-> "none"]
(* a definition: a constant plus multiples of parameters plus, optionally, a    *)
(* product of parameters:  c + sum co * name + prod,  the whole of it possibly  *)
(* inside a function: its absolute value, its negative, or itself written as    *)
(* the logarithm of an exponential                                              *)
Num(c) == [kind |-> "num", c |-> c, lin |-> <<>>, prod |-> <<>>, fn |-> "plain"]
FunOf(c, lin, prod, fn) == [kind |-> "fun", c |-> c, lin |-> lin, prod |-> prod, fn |-> fn]
Fun(c, lin, prod) == FunOf(c, lin, prod, "plain")
Wrap(fn, v) == CASE fn = "abs" -> <<Abs(v[1]), v[2]>>
                 [] fn = "neg" -> <<-v[1], v[2]>>
                 [] OTHER -> v

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Refs(d) == IF d.kind = "none" THEN {} ELSE {t[2] : t \in SeqSet(d.lin)} \cup SeqSet(d.prod)
Held(defs) == {n \in DOMAIN defs : defs[n].kind # "none"}

Closed(defs) == \A n \in Held(defs) : Refs(defs[n]) \subseteq Held(defs)
RECURSIVE Reach(_, _, _)
Reach(defs, S, k) == IF k = 0 THEN S
                     ELSE Reach(defs, S \cup UNION {Refs(defs[n]) : n \in S \cap DOMAIN defs}, k - 1)
Acyclic(defs) == \A n \in Held(defs) : n \notin Reach(defs, Refs(defs[n]), Cardinality(DOMAIN defs))
Solvable(defs) == Closed(defs) /\ Acyclic(defs)

RECURSIVE Val(_, _), ValLin(_, _, _), ValProd(_, _, _)
Val(defs, n) == LET d == defs[n] IN
   Wrap(d.fn, RAdd(RAdd(d.c, ValLin(defs, d.lin, Len(d.lin))),
                   IF d.prod = <<>> THEN Zero ELSE ValProd(defs, d.prod, Len(d.prod))))
ValLin(defs, l, i) == IF i = 0 THEN Zero
                      ELSE RAdd(ValLin(defs, l, i - 1), RMul(l[i][1], Val(defs, l[i][2])))
ValProd(defs, p, i) == IF i = 0 THEN One ELSE RMul(ValProd(defs, p, i - 1), Val(defs, p[i]))

(* operations: a new definition, or a deletion; rejected operations change nothing *)
After(defs, op) == CASE op.act = "set" -> [defs EXCEPT ![op.name] = op.def]
                     [] op.act = "del" -> [defs EXCEPT ![op.name] = NoDef]
Accepted(defs, op) == /\ op.act = "del" => op.name \in Held(defs)
                      /\ Solvable(After(defs, op))
Apply(defs, op) == IF Accepted(defs, op) THEN After(defs, op) ELSE defs

Values(defs) == LET h == Held(defs) IN [n \in h |-> Val(defs, n)]
(* the values solve the definitions *)
Fixpoint(defs) == LET v == Values(defs) IN
  \A n \in Held(defs) :
     LET d == defs[n]
         f[i \in 0..Len(d.lin)] == IF i = 0 THEN d.c ELSE RAdd(f[i-1], RMul(d.lin[i][1], v[d.lin[i][2]]))
         g[i \in 0..Len(d.prod)] == IF i = 0 THEN (IF d.prod = <<>> THEN Zero ELSE One) ELSE RMul(g[i-1], v[d.prod[i]])
     IN  v[n] = Wrap(d.fn, RAdd(f[Len(d.lin)], g[Len(d.prod)]))
=============================================================================
