-------------------------------- MODULE Plot -------------------------------
(* How many panels a figure has, and which series go where.                      *)
(*   layout  <<"rect">> <<"square">> <<"column">> <<"row">> <<"one">> <<"grid",r,c>> *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Shape(n, l) ==
  CASE l[1] = "rect" -> LET r == Max({x \in 1..n : (n % x) = 0 /\ x * x <= n}) IN <<r, n \div r>>
    [] l[1] = "square" -> LET s == Min({x \in 1..n : x * x >= n}) IN <<s, s>>
    [] l[1] = "column" -> <<n, 1>>
    [] l[1] = "row" -> <<1, n>>
    [] l[1] = "one" -> <<1, 1>>
    [] OTHER -> <<l[2], l[3]>>
Panels(n, l) == LET s == Shape(n, l) IN s[1] * s[2]
(* panels are filled in order, row after row; with fewer panels than series a panel   *)
(* shows several, none is left out                                                 *)
PanelOf(n, l, j) == ((j - 1) % Panels(n, l)) + 1
=============================================================================
