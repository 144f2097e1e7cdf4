------------------------------ MODULE MCVars -------------------------------
(* Collections of variables of one kind, and looking names up in them.         *)
(* A collection is [kind, ids]; kind "" is the empty one's.                     *)
EXTENDS EqList, Json, Rat
CONSTANTS Seed, Depth, Count
VARIABLES coll, hist, k
vars == <<coll, hist, k>>

Kinds == << "endog", "stoch", "determ" >>
Kind(c) == IF c.ids = <<>> THEN "" ELSE c.kind
Mixes(c, x) == c.ids # <<>> /\ x.ids # <<>> /\ c.kind # x.kind
Cat(c, x) == IF c.ids = <<>> THEN x ELSE [c EXCEPT !.ids = @ \o x.ids]

Pos(c, id) == LET s == {i \in 1..Len(c.ids) : c.ids[i] = id}
              IN  IF s = {} THEN -1 ELSE (CHOOSE i \in s : TRUE) - 1
(* looking several names up: their positions in the order asked, or none at all  *)
Locs(c, q) == [i \in 1..Len(q) |-> Pos(c, q[i])]
Found(c, q) == \A i \in 1..Len(q) : Pos(c, q[i]) >= 0
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Evens(s) == [i \in 1..((Len(s) + 1) \div 2) |-> s[2 * i - 1]]
Rot(s, r) == [i \in 1..Len(s) |-> s[((i - 1 + r) % Len(s)) + 1]]

AcceptedV(c, op) == CASE op.act = "cat" -> ~Mixes(c, op.x) /\ ~op.junk
                     [] op.act = "mix" -> ~Mixes(c, op.x)     \* put somewhere between the others
                     [] op.act = "one" -> Valid(op.i, Len(c.ids))
                     [] OTHER -> TRUE
AfterV(c, op) ==
  LET n == Len(c.ids)
      w(s) == [c EXCEPT !.ids = s]
  IN  CASE op.act = "cat" -> Cat(c, op.x)
        [] op.act = "mix" -> LET p == Clamp(op.i, n) IN
             IF n = 0 THEN op.x ELSE w(SubSeq(c.ids, 1, p) \o op.x.ids \o SubSeq(c.ids, p + 1, n))
        [] op.act = "rev" -> w(Reverse(c.ids))
        [] op.act = "rot" -> IF n = 0 THEN c ELSE w(Rot(c.ids, op.i))
        [] op.act = "even" -> w(Evens(c.ids))
        [] op.act = "slice" -> w(Splice(<<>>, 0, 0, SubSeq(c.ids, Clamp(op.i, n) + 1, Clamp(op.j, n))))
        [] OTHER -> c
Apply2(c, op) == IF AcceptedV(c, op) THEN AfterV(c, op) ELSE c

RandOp(kk, t, c) ==
  LET h(a) == Hash(Seed, kk, 60 * t + a)
      act == IF t <= 2 THEN "cat" ELSE Pick(<< "cat", "cat", "rev", "rot", "even", "slice", "one", "cat", "mix", "mix" >>, h(1))
      kd == IF (h(2) % 4) = 0 \/ (act = "mix" /\ (h(2) % 2) = 0) THEN Pick(Kinds, h(3)) ELSE IF c.ids = <<>> THEN Pick(Kinds, kk) ELSE c.kind
      n == h(4) % 4
      base == 10 * t
  IN  [act |-> act, i |-> (h(5) % 9) - 4, j |-> (h(6) % 9) - 4, junk |-> act = "cat" /\ (h(7) % 9) = 0,
       x |-> [kind |-> kd, ids |-> [i \in 1..n |-> base + i]]]
(* names that are asked for after the operation: held ones, dropped ones, strangers *)
Ask(kk, t, c) ==
  LET h(a) == Hash(Seed, kk, 7000 + 60 * t + a)
      m == h(1) % 4
      one(i) == IF c.ids # <<>> /\ (h(10 + i) % 7) # 0 THEN c.ids[(h(20 + i) % Len(c.ids)) + 1] ELSE 10 * (h(30 + i) % (t + 2)) + 1
  IN  [i \in 1..m |-> one(i)]

Init == coll = [kind |-> "", ids |-> <<>>] /\ hist = <<>> /\ \E kk \in 1..Count : k = kk
Next == /\ Len(hist) < Depth
        /\ LET t == Len(hist) + 1
               op == RandOp(k, t, coll)
               d == Apply2(coll, op)
               a == Ask(k, t, d)
           IN  /\ coll' = d
               /\ hist' = Append(hist, op @@ [ok |-> AcceptedV(coll, op), kind |-> Kind(d), ids |-> d.ids,
                                              ask |-> a, locs |-> Locs(d, a), found |-> Found(d, a)])
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Homogeneous == \A i, j \in 1..Len(coll.ids) : i # j => coll.ids[i] # coll.ids[j]
LookupInverse == \A i \in 1..Len(coll.ids) : Pos(coll, coll.ids[i]) = i - 1
Emit == Len(hist) = Depth => PrintT(ToJson([k |-> k, hist |-> hist]))
=============================================================================
