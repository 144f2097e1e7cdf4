------------------------------- MODULE MCLife -------------------------------
(* Histories of up to three models.  A step is an alteration of one model, a     *)
(* copy, the construction of a further model, or a query.                       *)
EXTENDS Life, Json
CONSTANTS Seed, First, Last, Steps, Free, Which   \* Which: the menu; the first Free steps are all tried, the others drawn
VARIABLES k, models, log
vars == <<k, models, log>>

Endo == <<"x", "y", "z">>
Exo == <<"e", "u">>
Par == <<"a", "b", "c", "d">>
Loc == <<"l">>
Alter == <<"value", "define", "newparam", "unparam", "local", "expr", "burst", "swap", "grow", "shock", "variance", "start">>
Menus == << Alter \o <<"solve", "simulate", "ask", "ask", "ask", "ask", "ask", "ask", "ask">>,
            Alter \o <<"copy", "copy", "copy", "build", "build", "solve", "simulate", "ask", "ask", "ask">>,
            <<"solve", "solve", "solve", "solve", "simulate", "simulate", "simulate", "ask", "ask", "ask", "ask", "value", "expr", "burst", "variance", "copy">> >>
Menu == Menus[Which]
H(kk, i) == Hash(Seed, kk, i)
Coefs == <<I(1), I(-1), I(2), <<1,2>>, <<-1,2>>, <<-2,1>>, <<3,4>> >>
Vals == << <<1,2>>, <<-1,2>>, <<1,1>>, <<1,4>>, <<-1,1>>, <<3,4>>, <<0,1>>, <<3,2>> >>
Vars4 == << <<4,1>>, <<1,1>>, <<9,4>>, <<9,1>>, <<2,1>> >>

(* a definition that may refer to the names in ns *)
DefOf(n, ns, h1, h2, h3) == [n |-> n, c |-> Pick(Vals, h1),
   t |-> IF ns = <<>> \/ (h2 % 3) = 0 THEN <<>> ELSE <<[k |-> Pick(<< <<1,2>>, <<-1,4>>, <<1,4>> >>, h3), n |-> Pick(ns, h3 \div 3)]>>]
(* the equation of variable v over the given names *)
EqOf(v, vs, fs, ss, g(_)) ==
  LET fac(i) == IF fs = <<>> \/ (g(i) % 3) = 0 THEN "" ELSE Pick(fs, g(i + 1))
      tm(j) == [k |-> Pick(Coefs, g(5 * j)), f |-> fac(5 * j + 1), n |-> Pick(vs, g(5 * j + 3)), o |-> (g(5 * j + 4) % 3) - 1]
      q == IF ss = <<>> \/ (g(40) % 3) # 0 THEN <<>>
           ELSE <<[k |-> Pick(Coefs, g(41)), n |-> Pick(ss, g(42)), m |-> IF (g(43) % 2) = 0 THEN "" ELSE Pick(vs, g(44))]>>
  IN  [l |-> I(8), v |-> v,
       t |-> <<[k |-> Pick(Coefs, g(50)), f |-> fac(51), n |-> v, o |-> IF v # "x" /\ (g(53) % 3) = 0 THEN 1 ELSE -1]>> \o [j \in 1..(g(54) % 3) |-> tm(j)],
       c |-> IF (g(45) % 2) = 0 THEN <<>> ELSE <<[k |-> Pick(Coefs, g(46)), f |-> fac(47)]>>,
       s |-> IF ss = <<>> THEN <<>> ELSE [j \in 1..(1 + (g(55) % 2)) |-> [k |-> Pick(Coefs, g(55 + 2 * j)), f |-> fac(59 + 2 * j), n |-> Pick(ss, g(56 + 2 * j))]],
       q |-> q]
Burst(v, ss) == [l |-> One, v |-> v, t |-> <<[k |-> I(2), f |-> "", n |-> v, o |-> -1]>>, c |-> <<>>,
                 s |-> <<[k |-> One, f |-> "", n |-> ss[1]]>>, q |-> <<>>]

PNames(c) == TLCEval([i \in 1..Len(c.pars) |-> c.pars[i].n])
LNames(c) == TLCEval([i \in 1..Len(c.locs) |-> c.locs[i].n])
SNames(c) == TLCEval([i \in 1..Len(c.stoch) |-> c.stoch[i].n])
StartContent(kk) ==
  LET n == 1 + (H(kk, 1) % 2)
      m == 1 + (H(kk, 2) % 2)
      p == H(kk, 3) % 4
      q == H(kk, 4) % 2
      ps == TLCEval([i \in 1..p |-> DefOf(Par[i], SubSeq(Par, 1, i - 1), H(kk, 10 + 3 * i), H(kk, 11 + 3 * i), H(kk, 12 + 3 * i))])
      ls == [i \in 1..q |-> [n |-> Loc[i], v |-> Pick(Vals, H(kk, 5))]]
      fs == SubSeq(Par, 1, p) \o SubSeq(Loc, 1, q)
  IN  [endog |-> SubSeq(Endo, 1, n), init |-> [i \in 1..n |-> Pick(<<Zero, Zero, <<1,4>> >>, H(kk, 30 + i))],
       pars |-> ps, locs |-> ls,
       eqs |-> [i \in 1..n |-> EqOf(Endo[i], SubSeq(Endo, 1, n), fs, SubSeq(Exo, 1, m), LAMBDA j : H(kk, 100 * i + j))],
       stoch |-> [i \in 1..m |-> [n |-> Exo[i], v |-> IF (H(kk, 35 + i) % 3) = 0 THEN NoVal ELSE Pick(Vars4, H(kk, 37 + i))]],
       co |-> IF m = 2 /\ (H(kk, 40) % 2) = 0 THEN <<[a |-> "e", b |-> "u", kind |-> IF (H(kk, 41) % 2) = 0 THEN "cov" ELSE "corr", v |-> <<1,2>>]>> ELSE <<>>]

(* ---- steps: [act, m, ...]; "none" when not applicable ---- *)
Ask == <<"residuals", "derivatives", "steady", "indexes", "sigma", "statespace", "solution", "first", "impulse", "moments", "order", "summary">>
G(c, i) == Hash(Seed + 7 * Len(log) + 1, k, 61 * c + i)
Target(c) == 1 + (G(c, 60) % Len(models))
Nothing == [act |-> "none", m |-> 1]
StepOf(c) ==
  LET kind == Menu[c]
      m == Target(c)
      x == models[m].c
      g(i) == G(c, 100 + i)
      ps == PNames(x)
      fs == ps \o LNames(x)
      ss == SNames(x)
      free == {n \in Names(x.pars) : n \notin Factors(x) \cup ParRefs(x)}
  IN  CASE kind = "value" -> IF ps = <<>> THEN Nothing ELSE
             LET i == 1 + (g(0) % Len(ps)) IN [act |-> "param", m |-> m, d |-> [n |-> ps[i], c |-> Pick(Vals, g(1)), t |-> <<>>]]
        [] kind = "define" -> IF ps = <<>> THEN Nothing ELSE
             LET i == 1 + (g(0) % Len(ps))
                 \* only names earlier in Par: definitions stay acyclic
                 rank(n) == CHOOSE j \in 1..Len(Par) : Par[j] = n
             IN [act |-> "param", m |-> m, d |-> DefOf(ps[i], SelectSeq(ps, LAMBDA n : rank(n) < rank(ps[i])), g(1), 1, g(2))]
        [] kind = "newparam" -> LET ns == SelectSeq(Par, LAMBDA n : n \notin Names(x.pars)) IN
             IF ns = <<>> THEN Nothing ELSE
             LET rank(n) == CHOOSE j \in 1..Len(Par) : Par[j] = n
             IN [act |-> "param", m |-> m, d |-> DefOf(ns[1], SelectSeq(ps, LAMBDA n : rank(n) < rank(ns[1])), g(1), g(2), g(3))]
        [] kind = "unparam" -> IF free = {} THEN Nothing ELSE [act |-> "unparam", m |-> m, n |-> CHOOSE n \in free : TRUE]
        [] kind = "local" -> IF x.locs = <<>> THEN Nothing ELSE [act |-> "local", m |-> m, n |-> x.locs[1].n, v |-> Pick(Vals, g(1))]
        [] kind = "expr" -> LET i == 1 + (g(0) % Len(x.endog)) IN
             [act |-> "expr", m |-> m, i |-> i, e |-> EqOf(x.eqs[i].v, x.endog, fs, ss, g)]
        [] kind = "burst" -> LET i == 1 + (g(0) % Len(x.endog)) IN [act |-> "expr", m |-> m, i |-> i, e |-> Burst(x.eqs[i].v, ss)]
        [] kind = "swap" -> IF Len(x.eqs) < 2 THEN Nothing ELSE [act |-> "swap", m |-> m, i |-> 1, j |-> 2]
        [] kind = "grow" -> IF Len(x.endog) = 3 THEN Nothing ELSE
             LET v == (CHOOSE j \in 1..3 : Endo[j] \notin EndogSet(x) /\ \A i \in 1..(j - 1) : Endo[i] \in EndogSet(x))
             IN [act |-> "grow", m |-> m, v |-> Endo[v], x |-> Pick(<<Zero, <<1,4>> >>, g(1)),
                 e |-> EqOf(Endo[v], Append(x.endog, Endo[v]), fs, ss, g)]
        [] kind = "shock" -> IF Len(x.stoch) = 2 THEN Nothing ELSE
             LET n == IF "e" \in Names(x.stoch) THEN "u" ELSE "e"
             IN [act |-> "shock", m |-> m, n |-> n, v |-> IF (g(0) % 3) = 0 THEN NoVal ELSE Pick(Vars4, g(1)),
                 co |-> IF (g(2) % 2) = 0 THEN <<>> ELSE <<[a |-> n, b |-> x.stoch[1].n, kind |-> IF (g(3) % 2) = 0 THEN "cov" ELSE "corr", v |-> <<1,2>>]>>]
        [] kind = "variance" -> LET i == 1 + (g(0) % Len(x.stoch)) IN [act |-> "variance", m |-> m, i |-> i, v |-> Pick(Vars4, g(1))]
        [] kind = "start" -> LET i == 1 + (g(0) % Len(x.endog)) IN [act |-> "start", m |-> m, i |-> i, v |-> Pick(<<Zero, <<1,4>>, <<-1,4>>, <<1,2>> >>, g(1))]
        [] kind = "copy" -> IF Len(models) = 3 THEN Nothing ELSE [act |-> "copy", m |-> m]
        [] kind = "build" -> IF Len(models) = 3 THEN Nothing ELSE [act |-> "build", m |-> 1]
        [] kind = "solve" -> [act |-> "solve", m |-> m, o |-> Pick(<<0, 1, 2, 3, 1, 2>>, g(0))]
        [] kind = "simulate" -> [act |-> "simulate", m |-> m, o |-> Pick(<<0, 1, 2, 3, 0>>, g(0))]
        [] kind = "ask" -> [act |-> "ask", m |-> m, what |-> Pick(Ask, g(0))]
        [] OTHER -> Nothing

(* ---- effects ---- *)
Replace(s, n, d) == IF n \in Names(s) THEN [s EXCEPT ![Find(s, n)] = d] ELSE Append(s, d)
NewContent(x, op) ==
  CASE op.act = "param" -> [x EXCEPT !.pars = Replace(@, op.d.n, op.d)]
    [] op.act = "unparam" -> [x EXCEPT !.pars = SelectSeq(@, LAMBDA d : d.n # op.n)]
    [] op.act = "local" -> [x EXCEPT !.locs = Replace(@, op.n, [n |-> op.n, v |-> op.v])]
    [] op.act = "expr" -> [x EXCEPT !.eqs[op.i] = op.e]
    [] op.act = "swap" -> [x EXCEPT !.eqs[op.i] = x.eqs[op.j], !.eqs[op.j] = x.eqs[op.i]]
    [] op.act = "grow" -> [x EXCEPT !.endog = Append(@, op.v), !.init = Append(@, op.x), !.eqs = Append(@, op.e)]
    [] op.act = "shock" -> [x EXCEPT !.stoch = Append(@, [n |-> op.n, v |-> op.v]), !.co = @ \o op.co]
    [] op.act = "variance" -> [x EXCEPT !.stoch[op.i].v = op.v]
    [] op.act = "start" -> [x EXCEPT !.init[op.i] = op.v]
    [] OTHER -> x
NewOrder(md, op) ==
  CASE op.act = "solve" -> AfterSolve(md.ord, op.o, Explosive(md.c))
    [] op.act = "simulate" -> AfterSimulate(md.ord, op.o, Explosive(md.c))
    [] op.act = "ask" /\ op.what = "solution" -> IF Explosive(md.c) THEN AfterUse(md.ord) ELSE Settled(md.ord)
    [] op.act = "ask" /\ op.what \in {"first", "impulse", "moments"} -> AfterUse(md.ord)
    [] OTHER -> md.ord
Effect(ms, op) ==
  CASE op.act = "copy" -> Append(ms, [c |-> ms[op.m].c, ord |-> {0} \cup ms[op.m].ord])
    [] op.act = "build" -> Append(ms, [c |-> StartContent(k), ord |-> {0}])
    [] OTHER -> [ms EXCEPT ![op.m] = [c |-> NewContent(@.c, op), ord |-> NewOrder(@, op)]]
(* contents whose answers are known to exist *)
Sound(x) == WellFormed(x) /\ Dominant(x) /\ LET y == Steady(x) IN y # <<>> /\ KnownV(y)
Digest(md) == [content |-> md.c, ord |-> md.ord, values |-> ParVals(md.c), A |-> Mat(md.c, -1), B |-> Mat(md.c, 0), C |-> Mat(md.c, 1),
               D |-> Shock(md.c), c0 |-> Const(md.c), ss |-> Steady(md.c), bad |-> Explosive(md.c)]

Init == k \in First..Last /\ models = <<>> /\ log = <<>>
Begin == /\ models = <<>>
         /\ Sound(StartContent(k))
         /\ models' = <<[c |-> StartContent(k), ord |-> {0}]>>
         /\ log' = <<[op |-> [act |-> "build", m |-> 1], d |-> Digest([c |-> StartContent(k), ord |-> {0}])]>>
         /\ UNCHANGED k
Take(op) ==
  /\ op.act # "none"
  /\ LET ms == Effect(models, op)
         t == IF op.act \in {"copy", "build"} THEN Len(ms) ELSE op.m
     IN  /\ Sound(ms[t].c)
         /\ models' = ms
         /\ log' = Append(log, [op |-> op, d |-> Digest(ms[t])])
  /\ UNCHANGED k
(* drawn steps: the first applicable entry of the menu from a drawn place on *)
Drawn == LET n == Len(Menu)
             o == Hash(Seed + 3, k, 11 * Len(log)) % n
             ok(c) == LET op == StepOf(c) IN op.act # "none" /\ LET ms == Effect(models, op) IN
                         Sound(ms[IF op.act \in {"copy", "build"} THEN Len(ms) ELSE op.m].c)
             at(j) == 1 + ((o + j) % n)
             S == {j \in 0..(n - 1) : ok(at(j))}
         IN  IF S = {} THEN 0 ELSE at(CHOOSE j \in S : \A i \in S : j <= i)
Go == /\ models # <<>> /\ Len(log) <= Steps
      /\ IF Len(log) <= Free THEN \E c \in 1..Len(Menu) : Take(StepOf(c))
         ELSE LET c == Drawn IN c # 0 /\ Take(StepOf(c))
Next == Begin \/ Go
Spec == Init /\ [][Next]_vars

(* ------------------------------- theorems -------------------------------- *)
Valid == \A i \in 1..Len(models) : WellFormed(models[i].c) /\ models[i].ord # {} /\ models[i].ord \subseteq {0, 1, 2}
(* the steady state recorded last solves the static equations of the content *)
Fresh == log # <<>> => LET d == log[Len(log)].d IN
           IsZeroV(VAdd(MVec(MAdd(MAdd(d.A, d.B), d.C), d.ss), d.c0))
Queries == {"ask", "solve", "simulate"}
(* only the model a step is about changes; queries change no content *)
Isolated == [][models # <<>> => \A i \in 1..Len(models) :
                 (i # log'[Len(log')].op.m \/ log'[Len(log')].op.act \in {"copy", "build"}) => models'[i] = models[i]]_vars
Pure == [][(models # <<>> /\ log'[Len(log')].op.act \in Queries) => models'[log'[Len(log')].op.m].c = models[log'[Len(log')].op.m].c]_vars
(* alterations keep the stored order *)
Kept == [][(models # <<>> /\ log'[Len(log')].op.act \notin Queries) => \A i \in 1..Len(models) : models'[i].ord = models[i].ord]_vars
Emit == Len(log) = Steps + 1 => PrintT(ToJson([k |-> k, log |-> log]))
=============================================================================
