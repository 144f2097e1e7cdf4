------------------------------ MODULE MCCalib ------------------------------
(* Histories of assignments and deletions.  Mode "all": every history of at    *)
(* most Depth operations over three parameters and a small pool; "rand":       *)
(* sampled histories over six parameters, grown step by step.                  *)
EXTENDS Calib, Json
CONSTANTS Seed, Depth, Count, Mode
VARIABLES defs, hist, k
vars == <<defs, hist, k>>

AllNames == << "a", "b", "c", "d", "e", "f" >>
Names == IF Mode = "all" THEN {"a", "b", "c"} ELSE SeqSet(AllNames)
SmallPool == { Num(<<2,1>>), FunOf(Zero, << <<One, "a">> >>, <<>>, "id"), Fun(One, << <<<<2,1>>, "b">> >>, <<>>),
               FunOf(Zero, <<>>, <<"b", "c">>, "neg") }
Consts == << <<0,1>>, <<1,1>>, <<2,1>>, <<-1,1>>, <<1,2>>, <<-3,2>>, <<1,4>>, <<3,1>> >>
Coefs == << <<1,1>>, <<-1,1>>, <<2,1>>, <<1,2>>, <<-1,2>>, <<3,1>> >>

(* the pool of the random histories: references mostly point "down" so that     *)
(* long chains occur, sometimes anywhere, so that cycles do                    *)
RandRef(h, n, g) == IF (h % 6) = 0 \/ n = 1 THEN AllNames[(g % 6) + 1] ELSE AllNames[(g % (n - 1)) + 1]
RandDef(kk, t, n) ==
  LET h(a) == Hash(Seed, kk, 100 * t + a)
      nl == h(1) % 3
      lin == [i \in 1..nl |-> << Pick(Coefs, h(10 + i)), RandRef(h(20 + i), n, h(30 + i)) >>]
      prod == IF (h(2) % 3) # 0 THEN <<>>
              ELSE << RandRef(h(41), n, h(42)), RandRef(h(43), n, h(44)) >>
  IN  IF (h(3) % 3) = 0 \/ (nl = 0 /\ prod = <<>>) THEN Num(Pick(Consts, h(4)))
      ELSE FunOf(Pick(Consts, h(4)), lin, prod,
                 Pick(<<"plain", "plain", "plain", "abs", "id", "neg">>, h(8)))
RandOp(kk, t) ==
  LET h(a) == Hash(Seed, kk, 100 * t + a)
      n == IF t <= 6 /\ (h(7) % 4) # 0 THEN t ELSE (h(5) % 6) + 1
  IN  IF (h(6) % 6) = 0 THEN [act |-> "del", name |-> AllNames[n]]
      ELSE [act |-> "set", name |-> AllNames[n], def |-> RandDef(kk, t, n)]

Init == /\ defs = [n \in Names |-> NoDef] /\ hist = <<>>
        /\ IF Mode = "all" THEN k = 0 ELSE \E kk \in 1..Count : k = kk
Do(op) == /\ defs' = Apply(defs, op)
          /\ hist' = Append(hist, op @@ [ok |-> Accepted(defs, op), values |-> Values(Apply(defs, op))])
          /\ UNCHANGED k
Next == IF Mode = "all"
        THEN /\ Len(hist) < Depth
             /\ \/ \E n \in Names, d \in SmallPool : Do([act |-> "set", name |-> n, def |-> d])
                \/ \E n \in Names : Do([act |-> "del", name |-> n])
        ELSE Len(hist) < Depth /\ Do(RandOp(k, Len(hist) + 1))
Spec == Init /\ [][Next]_vars

Solved == Solvable(defs) /\ Fixpoint(defs)
Sane == LET v == Values(defs) IN \A n \in DOMAIN v : v[n][2] # 0 /\ Abs(v[n][1]) < 1000000
RejectedKeeps == [][hist'[Len(hist')].ok \/ defs' = defs]_vars
(* assigning a parameter changes only what reaches it *)
Locality == [][ LET op == hist'[Len(hist')] IN
   \A n \in Held(defs) \cap Held(defs') : n # op.name =>
      \/ op.name \in Reach(defs', {n}, 6)
      \/ Val(defs', n) = Val(defs, n) ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson([k |-> k, hist |-> hist]))
=============================================================================
