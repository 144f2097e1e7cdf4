------------------------------- MODULE EqList ------------------------------
(* The container of equations as a sequence.  An item is <<id, how>> where how *)
(* is 1 for an equation given as text, 0 for one given as a parsed tree; an     *)
(* object that is not an equation has how = 9.                                 *)
EXTENDS Integers, Sequences, TLC

Ok(x) == x[2] # 9
(* a (possibly negative) index into a sequence of length n; clamped for slices  *)
Valid(i, n) == -n <= i /\ i < n
At(i, n) == (IF i < 0 THEN i + n ELSE i) + 1
Clamp(i, n) == LET j == IF i < 0 THEN i + n ELSE i
               IN  IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j
Take(s, k) == SubSeq(s, 1, k)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
SetAt(s, j, x) == [s EXCEPT ![j] = x]
DelAt(s, j) == Take(s, j - 1) \o Drop(s, j)
(* s[a:b] = xs *)
Splice(s, a, b, xs) == LET n == Len(s)
                           lo == Clamp(a, n)
                           hi == LET h == Clamp(b, n) IN IF h < lo THEN lo ELSE h
                       IN  Take(s, lo) \o xs \o Drop(s, hi)
AllOk(xs) == \A i \in 1..Len(xs) : Ok(xs[i])

Accepted(s, op) ==
  LET n == Len(s) IN
  CASE op.act \in {"insert", "append"} -> Ok(op.xs[1])
    [] op.act = "set" -> Valid(op.i, n) /\ Ok(op.xs[1])
    [] op.act \in {"del", "pop"} -> Valid(op.i, n)
    [] op.act \in {"extend", "setslice"} -> AllOk(op.xs)
    [] op.act = "delslice" -> TRUE
After(s, op) ==
  LET n == Len(s) IN
  CASE op.act = "insert" -> LET j == Clamp(op.i, n) IN Take(s, j) \o op.xs \o Drop(s, j)
    [] op.act = "append" -> s \o op.xs
    [] op.act = "set" -> SetAt(s, At(op.i, n), op.xs[1])
    [] op.act \in {"del", "pop"} -> DelAt(s, At(op.i, n))
    [] op.act = "extend" -> s \o op.xs
    [] op.act = "setslice" -> Splice(s, op.i, op.j, op.xs)
    [] op.act = "delslice" -> Splice(s, op.i, op.j, <<>>)
Apply(s, op) == IF Accepted(s, op) THEN After(s, op) ELSE s
=============================================================================
