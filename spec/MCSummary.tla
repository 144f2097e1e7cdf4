----------------------------- MODULE MCSummary -----------------------------
(* A report is printed section by section: the features asked for, in the order  *)
(* asked for, without those switched off.                                        *)
EXTENDS Summary, Json
CONSTANTS Seed, First, Last, Report     \* Report = "model" | "first" | "second" | "stats"
VARIABLES c, x, mo, opt, at, doc
vars == <<c, x, mo, opt, at, doc>>

Features == CASE Report = "model" -> <<"variables", "eigen", "stoch", "params">>
              [] Report = "stats" -> <<"moments", "corr", "autocorr", "decomp">>
              [] OTHER -> <<Report>>
Hh(k, a) == Hash(Seed, k, 3000 + a)
PVals == << <<1,2>>, <<-3,4>>, <<0,1>>, <<1234,1>>, <<1,1000>>, <<-250,1>>, <<7,3>>, <<99999,10>>, <<-1,8>> >>
(* a sequence of distinct members of 1..n, possibly empty                         *)
RECURSIVE Draw(_, _, _)
Draw(k, a, left) == IF left = {} THEN <<>>
                    ELSE LET y == CHOOSE y \in left : Cardinality({z \in left : z < y}) = Hh(k, a) % Cardinality(left)
                         IN  <<y>> \o Draw(k, a + 1, left \ {y})
SubDraw(k, a, n, len) == LET d == Draw(k, a, 1..n) IN SubSeq(d, 1, len)
Options(k) ==
  LET sel == Report \in {"model", "stats"} /\ (Hh(k, 1) % 3) = 0
      want == IF sel THEN LET d == SubDraw(k, 10, 4, 1 + (Hh(k, 2) % 4)) IN TLCEval([i \in 1..Len(d) |-> Features[d[i]]])
              ELSE Features
      np == Hh(k, 3) % 5
      all == (Hh(k, 4) % 3) # 0 \/ np = 0
  IN  [sig |-> Pick(<<6, 3, 8, 2, 5, 1, 4, 9>>, IF (Hh(k, 5) % 3) = 0 THEN 0 ELSE Hh(k, 50)), pad |-> Hh(k, 6) % 6, selected |-> sel, want |-> want,
       off |-> IF Report \in {"first", "second"} \/ (Hh(k, 7) % 3) # 0 THEN {} ELSE {Features[(Hh(k, 8) % Len(Features)) + 1]},
       lags |-> 1 + (Hh(k, 9) % 5), more |-> IF (Hh(k, 20) % 2) = 0 THEN -1 ELSE Hh(k, 21) % 4,
       pars |-> [all |-> all, shown |-> IF all THEN TLCEval([i \in 1..np |-> i]) ELSE SubDraw(k, 30, np, 1 + (Hh(k, 22) % np)),
                 values |-> TLCEval([i \in 1..np |-> Pick(PVals, Hh(k, 40 + i))])],
       order |-> 1 + (Hh(k, 23) % 2)]

Init == /\ \E k \in First..Last : c = [k |-> k, built |-> FALSE]
        /\ x = <<>> /\ mo = <<>> /\ opt = <<>> /\ at = 0 /\ doc = <<>>
Build ==
   /\ ~c.built
   /\ LET k == c.k
          o == Options(k)
          sc == IF Report = "second" THEN 1 + (Hash(Seed, k, 2) % 2)
                ELSE IF Report = "first" /\ (Hh(k, 60) % 9) = 0 THEN 0 ELSE ShockCount(Seed, k)
          cc == MakeKind(Seed, k, IF Report = "model" THEN Pick(<<"ok", "ok", "unit">>, k) ELSE "ok", sc)
          quad == Report = "second" \/ (Report = "stats" /\ (k % 3) = 0 /\ sc <= 2)
          mm == IF Report = "stats" THEN Moments(cc, IF quad THEN 1 ELSE 3) ELSE [known |-> TRUE]
      IN  /\ ModelKnown(cc)
          /\ mm.known
          /\ LET xx == IF quad THEN MakeSecond(Seed, k, cc) ELSE [del |-> <<>>]
             IN  /\ quad => SecondKnown(cc, xx)
                 /\ x' = [quad |-> quad] @@ xx
                 /\ mo' = IF Report # "stats" THEN mm
                          ELSE mm @@ [mean |-> IF quad /\ o.order = 2
                                               THEN LET d == SecondMean(cc, xx, mm.cov)
                                                    IN  IF d = <<>> THEN TLCEval([i \in 1..cc.n |-> Bad]) ELSE VAdd(cc.ybar, d)
                                               ELSE cc.ybar]
          /\ c' = cc @@ [built |-> TRUE] /\ opt' = o /\ at' = 1 /\ doc' = <<>>
Section(f) ==
  CASE Report = "model" -> ModelSection(c, opt.pars, f)
    [] Report = "first" -> FirstSection(c)
    [] Report = "second" -> SecondSection(c, x, opt.sig + IF opt.more < 0 THEN 0 ELSE opt.more)
    [] OTHER -> StatSection(c, mo, mo.mean, opt.lags, f)
Show ==
   /\ c.built /\ at <= Len(opt.want)
   /\ doc' = IF opt.want[at] \in opt.off THEN doc ELSE Append(doc, Section(opt.want[at]))
   /\ at' = at + 1
   /\ UNCHANGED <<c, x, mo, opt>>
Next == Build \/ Show
Spec == Init /\ [][Next]_vars
Done == c.built /\ at > Len(opt.want)
Tables == \A i \in 1..Len(doc) : WellFormed(doc[i])
OffNeverShown == Done => Len(doc) = Len(SelectSeq(opt.want, LAMBDA f : f \notin opt.off))
(* shares of a variance sum to one and correlations with itself are one            *)
Emit == Done => PrintT(ToJson([k |-> c.k, n |-> c.n, m |-> c.m, A |-> c.A, B |-> c.B, C |-> c.C, D |-> c.D, S |-> c.S,
                               ybar |-> c.ybar, ix |-> c.ix, bs |-> BackVars(c), quad |-> x.quad, opt |-> opt, doc |-> doc]
                              @@ (IF x.quad THEN [H |-> x.H, R |-> x.R] ELSE [H |-> <<>>])))
=============================================================================
