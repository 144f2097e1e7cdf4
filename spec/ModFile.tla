------------------------------ MODULE ModFile ------------------------------
(* Model files as sequences of statements, and what reading one means.         *)
(*                                                                             *)
(* A statement is a record [op, names, e1, e2, semi]:                          *)
(*   "var" | "varexo" | "parameters"   declaration of names                    *)
(*   "set"    names[1] = e1            assignment (in the model block: equation)*)
(*   "model" | "initval" | "endval" | "histval" | "shocks" | "end"             *)
(*   "local"  # names[1] = e1                                                  *)
(*   "eq"     e1 = e2                  (e1 is never a bare name)               *)
(*   "svar" | "sdev" | "scov" | "scorr"   shock moments of names = e1          *)
(* semi = FALSE: the terminating semicolon is missing.                         *)
(* An expression is [c, t]: a constant plus terms [k, n, o, p]: k * p * n(o),   *)
(* p = "" when there is no factor.                                             *)
(*                                                                             *)
(* Read(file) is the reading machine: Declare collects all declarations, then   *)
(* Step consumes one statement after another.                                  *)
EXTENDS Rat

Exp(c, t) == [c |-> c, t |-> t]
None == Exp(Zero, <<>>)
St(op, names, e1, e2) == [op |-> op, names |-> names, e1 |-> e1, e2 |-> e2, semi |-> TRUE]
Kinds == {"var", "varexo", "parameters"}
Blocks == {"initval", "endval", "histval", "shocks"}
Moments4 == {"svar", "sdev", "scov", "scorr"}

NamesIn(e) == UNION {{e.t[i].n} \cup (IF e.t[i].p = "" THEN {} ELSE {e.t[i].p}) : i \in 1..Len(e.t)}
Offsets(e) == {e.t[i].o : i \in 1..Len(e.t)}
Plain(e) == Offsets(e) \subseteq {0}

(* ---- the declarations: hoisted, in order of appearance before the model ---- *)
RECURSIVE PreLen(_, _)
PreLen(file, i) == IF i > Len(file) \/ file[i].op = "model" THEN i - 1 ELSE PreLen(file, i + 1)
RECURSIVE Collect(_, _, _)
Collect(file, k, i) == IF i = 0 THEN <<>>
   ELSE Collect(file, k, i - 1) \o (IF file[i].op = k THEN file[i].names ELSE <<>>)
Declare(file) == LET l == PreLen(file, 1)
                 IN  [k \in Kinds |-> Collect(file, k, l)]
Range(s) == {s[i] : i \in 1..Len(s)}
KindOf(d, n) == IF n \in Range(d["var"]) THEN "var" ELSE IF n \in Range(d["varexo"]) THEN "varexo"
                ELSE IF n \in Range(d["parameters"]) THEN "parameters" ELSE "none"
Twice(d) == LET all == d["var"] \o d["varexo"] \o d["parameters"]
            IN  \E i, j \in 1..Len(all) : i < j /\ all[i] = all[j]

(* ---- values ---- *)
Empty == [x \in {} |-> Zero]
With(f, n, v) == [x \in (DOMAIN f) \cup {n} |-> IF x = n THEN v ELSE f[x]]
Eval(e, env) == RAdd(e.c, RSum([i \in 1..Len(e.t) |->
                  RMul(e.t[i].k, RMul(env[e.t[i].n], IF e.t[i].p = "" THEN One ELSE env[e.t[i].p]))]))
(* a definition with the helpers' values filled in *)
FillTerm(t, h) ==
  LET t1 == IF t.p # "" /\ t.p \in DOMAIN h THEN [t EXCEPT !.k = RMul(t.k, h[t.p]), !.p = ""] ELSE t
  IN  IF t1.n \in DOMAIN h
      THEN IF t1.p = "" THEN [k |-> RMul(t1.k, h[t1.n]), n |-> "", o |-> 0, p |-> ""]
           ELSE [k |-> RMul(t1.k, h[t1.n]), n |-> t1.p, o |-> 0, p |-> ""]
      ELSE t1
Fill(e, h) == LET ts == [i \in 1..Len(e.t) |-> FillTerm(e.t[i], h)]
              IN  Exp(RAdd(e.c, RSum([i \in 1..Len(ts) |-> IF ts[i].n = "" THEN ts[i].k ELSE Zero])),
                      SelectSeq(ts, LAMBDA t : t.n # ""))
(* values of definitions defs (a function from names); cyclic ones get none *)
RECURSIVE Solve(_, _)
Solve(defs, env) ==
  LET rdy == {n \in DOMAIN defs : n \notin DOMAIN env /\ NamesIn(defs[n]) \subseteq DOMAIN env}
  IN  IF rdy = {} THEN env
      ELSE Solve(defs, [x \in (DOMAIN env) \cup rdy |-> IF x \in rdy THEN Eval(defs[x], env) ELSE env[x]])
Values(defs) == Solve(defs, Empty)

(* ---- the reader ---- *)
Start(d) == [ph |-> "pre", ok |-> ~Twice(d), why |-> IF Twice(d) THEN "declared twice" ELSE "", open |-> FALSE,
             defs |-> Empty, helpers |-> Empty, locals |-> Empty, order |-> <<>>, eqs |-> <<>>,
             init |-> Empty, term |-> Empty, hist |-> Empty, var |-> Empty, co |-> <<>>]
Bad1(s, why) == [s EXCEPT !.ok = FALSE, !.why = why]
Unspecified(s) == [s EXCEPT !.open = TRUE]      \* a question the properties leave open
Has(s, n) == n \in DOMAIN s.defs \/ n \in DOMAIN s.helpers
ValsNow(s) == LET v == Values(s.defs) IN [x \in (DOMAIN v) \cup (DOMAIN s.helpers) |->
                 IF x \in DOMAIN s.helpers THEN s.helpers[x] ELSE v[x]]
(* names of parameters whose definitions refer, directly or not, to n *)
RECURSIVE Above(_, _)
Above(defs, S) == LET T == S \cup {x \in DOMAIN defs : NamesIn(defs[x]) \cap S # {}}
                  IN  IF T = S THEN S ELSE Above(defs, T)

SetPre(d, s, st) ==
  LET n == st.names[1]
      k == KindOf(d, n)
      used == NamesIn(st.e1)
  IN  CASE ~Plain(st.e1) -> Bad1(s, "period outside the model")
        [] k \in {"var", "varexo"} -> Bad1(s, "value for a variable")
        [] \E u \in used : ~Has(s, u) -> Bad1(s, "no value yet")
        [] k = "none" -> LET v == ValsNow(s) IN
             IF used \subseteq DOMAIN v THEN [s EXCEPT !.helpers = With(@, n, Eval(st.e1, v))] ELSE Unspecified(s)
        [] OTHER ->
             LET e == Fill(st.e1, s.helpers)
                 again == n \in DOMAIN s.defs
                 t == [s EXCEPT !.defs = With(@, n, e)]
             IN  IF n \in Above(s.defs, NamesIn(e)) \/ n \in NamesIn(e) \/ (again /\ s.defs[n] # e /\ Above(s.defs, {n}) # {n})
                 THEN Unspecified(t) ELSE t
LegalIn(d, s, e) == \A i \in 1..Len(e.t) :
   LET n == e.t[i].n
       p == e.t[i].p
       ok(x, o) == IF KindOf(d, x) = "var" THEN o \in {-1, 0, 1}
                   ELSE o = 0 /\ (KindOf(d, x) \in {"varexo", "parameters"} \/ x \in DOMAIN s.locals)
   IN  ok(n, e.t[i].o) /\ (p = "" \/ ok(p, 0))
Equation(d, s, l, r) == IF LegalIn(d, s, l) /\ LegalIn(d, s, r) THEN [s EXCEPT !.eqs = Append(@, <<l, r>>)]
                        ELSE Bad1(s, "name not for the model")
Local(d, s, st) ==
  LET n == st.names[1]
      v == Values(s.defs)
      scope == [x \in (DOMAIN v) \cup (DOMAIN s.locals) |-> IF x \in DOMAIN s.locals THEN s.locals[x] ELSE v[x]]
  IN  CASE ~Plain(st.e1) -> Bad1(s, "period of a local")
        [] KindOf(d, n) # "none" \/ n \in DOMAIN s.helpers \/ n \in DOMAIN s.locals -> Bad1(s, "local collides")
        [] \E u \in NamesIn(st.e1) : u \notin (DOMAIN s.defs) \cup (DOMAIN s.locals) -> Bad1(s, "local without value")
        [] NamesIn(st.e1) \subseteq DOMAIN scope -> [s EXCEPT !.locals = With(@, n, Eval(st.e1, scope)), !.order = Append(@, n)]
        [] OTHER -> Unspecified(s)
Boundary(d, s, st, fld) ==
  LET v == ValsNow(s) IN
  CASE ~Plain(st.e1) -> Bad1(s, "period outside the model")
    [] KindOf(d, st.names[1]) # "var" -> Bad1(s, "boundary value of no variable")
    [] \E u \in NamesIn(st.e1) : ~Has(s, u) -> Bad1(s, "boundary value unknown")
    [] NamesIn(st.e1) \subseteq DOMAIN v -> [s EXCEPT ![fld] = With(@, st.names[1], Eval(st.e1, v))]
    [] OTHER -> Unspecified(s)
Moment(d, s, st) ==
  LET v == ValsNow(s)
      x == Eval(st.e1, v)
      pr == {st.names[i] : i \in 1..Len(st.names)}
      clash == \E i \in 1..Len(s.co) : s.co[i].pair = pr /\ s.co[i].kind # st.op
      put == SelectSeq(s.co, LAMBDA c : c.pair # pr) \o <<[pair |-> pr, kind |-> st.op, v |-> x, names |-> st.names]>>
      turned == \E i \in 1..Len(s.co) : s.co[i].pair = pr /\ s.co[i].names # st.names /\ s.co[i].v # x
  IN  CASE ~Plain(st.e1) -> Bad1(s, "period outside the model")
        [] \E i \in 1..Len(st.names) : KindOf(d, st.names[i]) # "varexo" -> Bad1(s, "moment of no shock")
        [] \E u \in NamesIn(st.e1) : ~Has(s, u) -> Bad1(s, "moment unknown")
        [] ~(NamesIn(st.e1) \subseteq DOMAIN v) -> Unspecified(s)
        [] st.op = "svar" -> [s EXCEPT !.var = With(@, st.names[1], x)]
        [] st.op = "sdev" -> [s EXCEPT !.var = With(@, st.names[1], RMul(x, x))]
        [] Cardinality(pr) = 1 \/ clash \/ turned -> Unspecified(s)
        [] OTHER -> [s EXCEPT !.co = put]

Step(d, s, st) ==
  IF ~s.ok THEN s
  ELSE IF ~st.semi THEN Bad1(s, "semicolon missing")
  ELSE CASE s.ph = "pre" /\ st.op \in Kinds -> s
         [] s.ph = "pre" /\ st.op = "set" -> SetPre(d, s, st)
         [] s.ph = "pre" /\ st.op = "model" -> [s EXCEPT !.ph = "model"]
         [] s.ph = "model" /\ st.op = "eq" -> Equation(d, s, st.e1, st.e2)
         [] s.ph = "model" /\ st.op = "set" ->
              Equation(d, s, Exp(Zero, <<[k |-> One, n |-> st.names[1], o |-> 0, p |-> ""]>>), st.e1)
         [] s.ph = "model" /\ st.op = "local" -> Local(d, s, st)
         [] s.ph \in Blocks \cup {"model"} /\ st.op = "end" -> [s EXCEPT !.ph = "post"]
         [] s.ph = "post" /\ st.op \in Blocks -> [s EXCEPT !.ph = st.op]
         [] s.ph = "initval" /\ st.op = "set" -> Boundary(d, s, st, "init")
         [] s.ph = "endval" /\ st.op = "set" -> Boundary(d, s, st, "term")
         [] s.ph = "histval" /\ st.op = "set" -> Boundary(d, s, st, "hist")
         [] s.ph = "shocks" /\ st.op \in Moments4 -> Moment(d, s, st)
         [] OTHER -> Bad1(s, "statement out of place")
RECURSIVE Fold(_, _, _, _)
Fold(d, s, file, i) == IF i > Len(file) THEN s ELSE Fold(d, Step(d, s, file[i]), file, i + 1)

OccurIn(s, n) == \E i \in 1..Len(s.eqs) : n \in NamesIn(s.eqs[i][1]) \cup NamesIn(s.eqs[i][2])
Finish(d, s) ==
  LET t == IF s.ok /\ s.ph # "post" THEN Bad1(s, "the file ends inside a block or before the model") ELSE s
      u == IF t.ok /\ \E i \in 1..Len(d["var"]) : ~OccurIn(t, d["var"][i]) THEN Bad1(t, "variable occurs nowhere") ELSE t
  IN  IF u.ok /\ \/ Len(d["var"]) # Len(u.eqs) \/ d["var"] = <<>> \/ d["varexo"] = <<>>
                 \/ \E i \in 1..Len(d["parameters"]) : d["parameters"][i] \notin DOMAIN Values(u.defs)
      THEN Unspecified(u) ELSE u
Read(file) == LET d == Declare(file) IN Finish(d, Fold(d, Start(d), file, 1))

(* ---- the linear equations, as numbers ---- *)
Scope(s) == LET v == Values(s.defs) IN [x \in (DOMAIN v) \cup (DOMAIN s.locals) |->
               IF x \in DOMAIN s.locals THEN s.locals[x] ELSE v[x]]
(* coefficient of variable n at offset o in expression e *)
IsVarLike(d, n) == KindOf(d, n) \in {"var", "varexo"}
Lin(d, e, env) == Len(e.t) >= 0 /\ \A i \in 1..Len(e.t) : e.t[i].p = "" \/ ~IsVarLike(d, e.t[i].p) \/ ~IsVarLike(d, e.t[i].n)
CoefE(d, e, env, n, o) == RSum([i \in 1..Len(e.t) |->
   LET t == e.t[i] IN
   IF t.n = n /\ t.o = o /\ IsVarLike(d, n) THEN RMul(t.k, IF t.p = "" THEN One ELSE env[t.p])
   ELSE IF t.p = n /\ o = 0 /\ IsVarLike(d, n) THEN RMul(t.k, env[t.n]) ELSE Zero])
ConstE(d, e, env) == RAdd(e.c, RSum([i \in 1..Len(e.t) |->
   LET t == e.t[i] IN
   IF IsVarLike(d, t.n) \/ (t.p # "" /\ IsVarLike(d, t.p)) THEN Zero
   ELSE RMul(t.k, RMul(env[t.n], IF t.p = "" THEN One ELSE env[t.p]))]))
=============================================================================
