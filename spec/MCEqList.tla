------------------------------ MODULE MCEqList -----------------------------
(* Histories of list operations.  Mode "all": every history of Depth            *)
(* operations with small indices; "rand": sampled long histories.               *)
EXTENDS EqList, Json, Rat
CONSTANTS Seed, Depth, Count, Mode
VARIABLES lst, hist, k, fresh
vars == <<lst, hist, k, fresh>>

Acts == << "insert", "append", "set", "set", "del", "pop", "extend", "setslice", "delslice", "insert" >>
RandOp(kk, t, f, n) ==
  LET h(a) == Hash(Seed, kk, 50 * t + a)
      act == Pick(Acts, h(1))
      \* early operations mostly grow the list, indices mostly are in range
      a2 == IF t <= 3 /\ (h(2) % 3) # 0 THEN "append" ELSE act
      idx(a) == IF (h(a) % 5) = 0 THEN (h(a + 1) % 13) - 6 ELSE (h(a + 1) % (2 * n + 1)) - n
      cnt == CASE a2 \in {"extend", "setslice"} -> h(3) % 4
               [] a2 \in {"insert", "append", "set"} -> 1
               [] OTHER -> 0
      how(i) == LET z == h(10 + i) % 9 IN IF z = 0 THEN 9 ELSE IF z \in {1, 2} THEN 0 ELSE 1
      xs == [i \in 1..cnt |-> <<f + i, how(i)>>]
  IN  [act |-> a2, i |-> idx(4), j |-> idx(7), xs |-> xs]
SmallOps(f, n) ==
  LET x == <<f + 1, 1>>  y == <<f + 2, 9>>
      o(a, i, j, xs) == [act |-> a, i |-> i, j |-> j, xs |-> xs]
  IN  {o("insert", i, 0, <<x>>) : i \in {-1, 0, 1}} \cup {o("append", 0, 0, <<x>>), o("append", 0, 0, <<y>>)}
      \cup {o("set", i, 0, <<x>>) : i \in {-2, 0, 1}} \cup {o("set", 0, 0, <<y>>)}
      \cup {o("del", i, 0, <<>>) : i \in {-1, 0, 1}}
      \cup {o("extend", 0, 0, << <<f + 1, 1>>, <<f + 2, 0>> >>), o("extend", 0, 0, <<x, y>>),
            o("setslice", 0, 1, <<x, <<f + 2, 1>> >>), o("setslice", 1, 2, <<>>), o("setslice", 0, 1, <<y>>),
            o("delslice", 0, 2, <<>>)}

Init == lst = <<>> /\ hist = <<>> /\ fresh = 0 /\ (IF Mode = "all" THEN k = 0 ELSE \E kk \in 1..Count : k = kk)
Do(op) == /\ lst' = Apply(lst, op)
          /\ hist' = Append(hist, op @@ [ok |-> Accepted(lst, op), list |-> Apply(lst, op)])
          /\ fresh' = fresh + Len(op.xs)
          /\ UNCHANGED k
Next == Len(hist) < Depth /\ (IF Mode = "all" THEN \E op \in SmallOps(fresh, Len(lst)) : Do(op)
                              ELSE Do(RandOp(k, Len(hist) + 1, fresh, Len(lst))))
Spec == Init /\ [][Next]_vars

OnlyEquations == AllOk(lst)
NoDuplicates == \A i, j \in 1..Len(lst) : i # j => lst[i][1] # lst[j][1]
RejectedKeeps == [][hist'[Len(hist')].ok \/ lst' = lst]_vars
LengthLaw == [][ LET op == hist'[Len(hist')] IN
   op.ok => Len(lst') - Len(lst) \in (CASE op.act \in {"insert", "append"} -> {1} [] op.act = "set" -> {0}
              [] op.act \in {"del", "pop"} -> {-1} [] op.act = "extend" -> {Len(op.xs)}
              [] OTHER -> (Len(op.xs) - Len(lst))..Len(op.xs)) ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson([k |-> k, hist |-> hist]))
=============================================================================
