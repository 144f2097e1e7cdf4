----------------------------- MODULE MCRequest -----------------------------
(* Histories of requests on one model, some of which cannot be meant.            *)
EXTENDS Request, Json
CONSTANTS Seed, First, Last, Steps
VARIABLES k, w, r, log, lin, n
vars == <<k, w, r, log, lin, n>>

H(kk, a) == Hash(Seed, kk, a)
World(kk) == [m |-> 1 + (H(kk, 1) % 3),
  M |-> TLCEval([i \in 1..2 |-> TLCEval([j \in 1..(1 + (H(kk, 1) % 3)) |-> I(Pick(<<0, 1, 1, 2, -1>>, H(kk, 10 * i + j)))])]),
  g |-> TLCEval([i \in 1..2 |-> Pick(<<I(1), I(2), I(-1)>>, H(kk, 40 + i))]),
  b |-> TLCEval([i \in 1..2 |-> Pick(<<<<1, 3>>, <<2, 3>>, <<4, 3>>>>, H(kk, 50 + i))]),
  up |-> TLCEval([i \in 1..2 |-> (H(kk, 60 + i) % 2) = 0]),
  c |-> TLCEval([i \in 1..2 |-> Pick(<<Zero, I(1), I(-1), <<1, 2>>>>, H(kk, 70 + i))]),
  a |-> TLCEval([i \in 1..2 |-> Pick(<<Zero, Zero, I(3), <<-1, 2>>>>, H(kk, 80 + i))]),
  mu |-> TLCEval([i \in 1..2 |-> Pick(<<Zero, I(1), I(-2)>>, H(kk, 90 + i))])]
Rates == <<<<1, 2>>, <<1, 2>>, <<-1, 2>>, <<1, 4>>, Zero, <<3, 4>>>>

Wrong == <<"con", "exprs", "exog", "wide", "shocks", "init", "models">>
Request(kk, s, m) ==
  LET h(a) == H(kk, 1000 * s + a)
      direct == h(1) % 4 = 0
      bad == IF h(2) % 5 < 2 THEN Pick(Wrong, h(3)) ELSE "nothing"
      bad2 == IF h(4) % 12 = 0 THEN Pick(Wrong, h(5)) ELSE "nothing"
      Is(x) == bad = x \/ bad2 = x
      two == h(6) % 2 = 0
      which == IF two THEN Pick(<<<<1, 2>>, <<2, 1>>>>, h(7)) ELSE <<1 + (h(7) % 2)>>
      \* the variables shocked
      nx == h(8) % (m + 1)
      p == 1 + (h(9) % m)
      st == 1 + (IF m = 3 THEN h(10) % 2 ELSE 0)
      ok == TLCEval([i \in 1..nx |-> 1 + ((p - 1 + st * (i - 1)) % m)])
      exog == IF ~Is("exog") THEN ok ELSE IF nx = 0 THEN <<m + 1>>
              ELSE [ok EXCEPT ![1 + (h(11) % nx)] = m + 1]
      nn == IF exog = <<>> THEN 1 ELSE Len(exog)
      ran == h(12) % 6 = 0
      width == IF Is("wide") THEN Pick(<<nn + 1, IF nn = 1 THEN 3 ELSE nn - 1>>, h(13)) ELSE nn
      sform == IF Is("shocks") THEN Pick(<<"words", "ragged">>, h(14))
               ELSE IF ran THEN (IF width = 1 THEN Pick(<<"number", "tuple">>, h(14)) ELSE "tuple")
               ELSE IF width = 1 THEN Pick(<<"vector", "column">>, h(14)) ELSE "matrix"
      T == 1 + (h(15) % 4)
      u == TLCEval([t \in 1..T |-> TLCEval([j \in 1..width |-> Pick(<<0, 1, -2, 4, -5, 7, -8>>, h(100 + 10 * t + j))])])
  IN [direct |-> direct, which |-> which,
      con |-> IF Is("con") THEN Pick(IF direct THEN <<"broken", "stranger", "short", "long", "text">>
                                     ELSE <<"short", "long", "half", "text", "number", "triple", "broken", "stranger">>, h(16)) ELSE "fine",
      exprs |-> IF Is("exprs") /\ ~direct THEN Pick(<<"none", "sigma", IF two THEN "few" ELSE "far", "far", "badeq">>, h(17)) ELSE "fine",
      models |-> IF Is("models") /\ direct THEN Pick(<<"endog", "moved", "stoch", "params", "count">>, h(18)) ELSE "fine",
      odd |-> h(19) % 3, exog |-> exog, sform |-> sform, width |-> width, u |-> u,
      init |-> IF Is("init") THEN <<Pick(<<"short", "long", "words">>, h(20))>>
               ELSE IF h(21) % 3 = 0 THEN <<"given", <<I(Pick(<<1, -3, 2>>, h(22))), I(Pick(<<-1, 3, 0>>, h(23)))>> >> ELSE <<"none">>,
      extra |-> Pick(<<-1, 0, 3, 6, 8>>, h(24))]

Init == /\ k \in First..Last /\ w = [m |-> 0] /\ r = <<>> /\ log = <<>> /\ n = 0 /\ lin = 0
Set == /\ n = 0 /\ n' = 1 /\ w' = World(k)
       /\ r' = <<Pick(Rates, H(k, 3)), Pick(Rates, H(k, 4))>> /\ UNCHANGED <<k, log, lin>>
Step(e) == log' = Append(log, e) /\ n' = n + 1 /\ UNCHANGED <<k, w>>
Kind == H(k, 5000 + n) % 8
Linear == /\ Kind \in {0, 1}
          /\ LET o == 1 + (H(k, 5100 + n) % 2)
                 q == [exog |-> TLCEval([j \in 1..w.m |-> j]), which |-> <<>>, init |-> <<"none">>, extra |-> 3,
                       u |-> <<TLCEval([j \in 1..w.m |-> Pick(<<1, -2, 3>>, H(k, 5200 + 10 * n + j))])>>]
             IN  Step([op |-> "linear", order |-> o, u |-> q.u, path |-> Path(w, r, q)]) /\ lin' = o
          /\ UNCHANGED r
BadOrder == /\ Kind = 2
            /\ Step([op |-> "order", value |-> Pick(<<3, -1, 7>>, H(k, 5300 + n)), faults |-> {"ValueError"}])
            /\ UNCHANGED <<r, lin>>
Change == /\ Kind = 3
          /\ LET i == 1 + (H(k, 5400 + n) % 2)
                 v == Pick(Rates, H(k, 5500 + n))
             IN  r' = [r EXCEPT ![i] = v] /\ Step([op |-> "set", i |-> i, value |-> v])
          /\ UNCHANGED lin
Ask == /\ Kind > 3
       /\ LET q == Request(k, n, w.m)
              F == Faults(q, w.m)
          IN  Step(IF F # {} THEN [op |-> "ask", q |-> q, faults |-> F]
                   ELSE IF Drawn(q) THEN [op |-> "ask", q |-> q, faults |-> F, drawn |-> TRUE]
                   ELSE [op |-> "ask", q |-> q, faults |-> F, drawn |-> FALSE, path |-> Path(w, r, q), warned |-> Warned(w, r, q),
                         binds |-> Binds(w, r, q)])
       /\ UNCHANGED <<r, lin>>
Next == Set \/ (n \in 1..Steps /\ (Linear \/ BadOrder \/ Change \/ Ask))
Spec == Init /\ [][Next]_vars

Last1 == log[Len(log)]
Answered == n > 1 /\ Last1.op = "ask" /\ Last1.faults = {} /\ ~Last1.drawn
(* the drivers follow their law of motion, and the followers the regime's equation *)
Obeys == Answered =>
  \A t \in 1..Len(Last1.path) : \A i \in 1..2 :
    LET q == Last1.q
        z == Last1.path[t][i]
        x == Last1.path[t][2 + i]
        z0 == IF t = 1 THEN Start(q)[i] ELSE Last1.path[t - 1][i]
    IN  /\ RSub(z, RMul(r[i], z0)) = Dot(w.M[i], Innov(q, w.m, t))
        /\ (i \notin Watched(q) \/ ~Beyond(w, i, z)) => x = RMul(w.g[i], z)
        /\ (i \in Watched(q) /\ Beyond(w, i, z)) => x = RAdd(w.c[i], RMul(w.a[i], z))
(* a bound is never met exactly: every condition is decided strictly *)
Strict == Answered => \A t \in 1..Len(Last1.path) : \A i \in 1..2 :
             Last1.path[t][i] # w.b[i] /\ Last1.path[t][i] # RNeg(w.b[i])
(* a refusal, or an answer, changes nothing else *)
Inert == [][(log' # log /\ log'[Len(log')].op \in {"ask", "order"}) => (r' = r /\ w' = w)]_vars
Emit == n = Steps + 1 => PrintT(ToJson([k |-> k, w |-> w, r0 |-> <<Pick(Rates, H(k, 3)), Pick(Rates, H(k, 4))>>, log |-> log]))
=============================================================================
