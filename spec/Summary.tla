------------------------------ MODULE Summary ------------------------------
(* What a printed summary says: sections of labelled tables.  A label names a  *)
(* quantity, a cell is that quantity, exactly.                                  *)
(*   section  [title, cols, rows, kind]       row  [lab, cells]                 *)
(*   cell     <<"q", x>>            the rational x                              *)
(*            <<"sd", x>>           the square root of x                        *)
(*            <<"over", x, a, b>>   x / sqrt(a b)                               *)
(*            <<"mod", x, y>>       sqrt(x^2 + y^2)                             *)
(*            <<"big">>             an infinite eigenvalue's entry              *)
(*            <<"none">>            undefined (a correlation without variance)  *)
(* A cell whose number the specification cannot represent is <<"any">>.         *)
EXTENDS Second

Cell(x) == IF x[2] = 0 THEN <<"any">> ELSE <<"q", x>>
Ratio(x, a, b) == IF x[2] = 0 \/ a[2] = 0 \/ b[2] = 0 THEN <<"any">>
                  ELSE IF a[1] = 0 \/ b[1] = 0 THEN <<"none">> ELSE <<"over", x, a, b>>
Sd(x) == IF x[2] = 0 THEN <<"any">> ELSE <<"sd", x>>
Row(lab, cells) == [lab |-> lab, cells |-> cells, must |-> TRUE]
VarL(i) == <<"var", i>>
LagL(i) == <<"lag", i>>
ShkL(j) == <<"shock", j>>
ParL(j) == <<"param", j>>
Word(w) == <<"word", w>>
Pair(a, b) == <<"pair", a, b>>
Vars(c) == TLCEval([i \in 1..c.n |-> VarL(i)])
Shks(c) == TLCEval([j \in 1..c.m |-> ShkL(j)])
ColCells(M, j) == TLCEval([i \in 1..Len(M) |-> Cell(M[i][j])])

(* ---- the model summary ---- *)
Counts(c) ==
  LET k(p) == Len(Where([i \in 1..c.n |-> c.ix.cls[i] \in p]))
      row(w, x) == IF x = 0 THEN <<>> ELSE << Row(Word(w), << <<"q", I(x)>> >>) >>
  IN  row("number of variables:", c.n) \o row("number of stochastic shocks:", c.m)
      \o row("number of state vars:", k({Back, Mix})) \o row("number of forward-looking vars:", k({Mix, Fwd}))
      \o row("number of static vars:", k({Stat}))
EigRow(z) == Row(Word(""), IF z = <<>> THEN << <<"any">>, <<"any">>, <<"big">> >>
                           ELSE << Cell(z[1]), Cell(z[2]), <<"mod", z[1], z[2]>> >>)
(* in ascending order of modulus (insertion; equal moduli in any order)          *)
Mod2(z) == RAdd(RMul(z[1], z[1]), RMul(z[2], z[2]))
Before(y, z) == y # <<>> /\ (z = <<>> \/ RLt(Mod2(y), Mod2(z)))
RECURSIVE Insert(_, _), SortEig(_)
Insert(z, s) == IF s = <<>> THEN <<z>> ELSE IF Before(z, s[1]) THEN <<z>> \o s ELSE <<s[1]>> \o Insert(z, Tail(s))
SortEig(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], SortEig(Tail(s)))
ModelSection(c, pars, f) ==
  CASE f = "variables" -> [title |-> "variables:", cols |-> <<>>, kind |-> "count", rows |-> Counts(c)]
    [] f = "eigen" -> [title |-> "steady-state eigenvalues:", cols |-> <<Word("real"), Word("imag"), Word("mod")>>,
                       kind |-> "eig", rows |-> LET s == SortEig(c.eig)
                                                IN  TLCEval([i \in 1..Len(s) |-> EigRow(s[i])])]
    [] f = "stoch" -> [title |-> "covariance of stoch shocks:", cols |-> Shks(c), kind |-> "table",
                       rows |-> TLCEval([j \in 1..c.m |-> Row(ShkL(j), ColCells(c.S, j))])]
    [] f = "params" -> [title |-> IF pars.all THEN "model calibration:" ELSE "partial model calibration:",
                        cols |-> <<>>, kind |-> "assign",
                        rows |-> TLCEval([i \in 1..Len(pars.shown) |->
                                   Row(ParL(pars.shown[i]), <<Cell(pars.values[pars.shown[i]])>>)])]

(* ---- policy functions ---- *)
FirstRows(c) ==
  LET b == BackVars(c)
  IN  << Row(Word("steady"), TLCEval([i \in 1..c.n |-> Cell(c.ybar[i])])) >>
      \o TLCEval([j \in 1..Len(b) |-> Row(LagL(b[j]), ColCells(c.G, b[j]))])
      \o TLCEval([j \in 1..c.m |-> Row(ShkL(j), ColCells(c.Gu, j))])
FirstSection(c) ==
  [title |-> "first order policy and transition functions:", cols |-> Vars(c), kind |-> "table", rows |-> FirstRows(c)]

(* x.Q[i] is the symmetric quadratic form of variable i in (states, shocks):      *)
(* a pair's coefficient is the form's entry, doubled for a state and a shock, as   *)
(* the other pairs are listed in both orders                                       *)
QuadRow(c, x, la, a, lb, b, times) ==
  Row(Pair(la, lb), TLCEval([i \in 1..c.n |-> Cell(RMul(times, x.Q[i][a][b]))]))
SecondRows(c, x) ==
  LET b == BackVars(c)
      nb == Len(b)
      st(p) == LagL(b[p])
      sh(p) == ShkL(p - nb)
      grid(na, o1, ob, o2, l1(_), l2(_), t) ==
         TLCEval([r \in 1..(na * ob) |->
            LET p == o1 + ((r - 1) \div ob) + 1
                q == o2 + ((r - 1) % ob) + 1
            IN  QuadRow(c, x, l1(p), p, l2(q), q, t)])
  IN  FirstRows(c)
      \o (IF nb = 0 THEN <<>> ELSE grid(nb, 0, nb, 0, st, st, One))
      \o (IF nb = 0 \/ c.m = 0 THEN <<>> ELSE grid(nb, 0, c.m, nb, st, sh, I(2)))
      \o (IF c.m = 0 THEN <<>> ELSE grid(c.m, nb, c.m, nb, sh, sh, One))
      \o << Row(Word("del2"), TLCEval([i \in 1..c.n |-> Cell(x.del[i])])) >>
(* a row may be left out when every entry is smaller than 10^-d (never the first, *)
(* last): must says which rows may not                                             *)
Visible(cell, d) == CASE cell[1] = "q" -> /\ cell[2][1] # 0
                                          /\ LET a == Abs(cell[2][1]) b == cell[2][2]
                                             IN  ((b + a - 1) \div a) <= 10 ^ d
                      [] OTHER -> FALSE
Marked(rows, d) == TLCEval([r \in 1..Len(rows) |->
                     [rows[r] EXCEPT !.must = r \in {1, Len(rows)} \/ \E i \in 1..Len(rows[r].cells) :
                                                                       Visible(rows[r].cells[i], d)]])
SecondSection(c, x, d) ==
  [title |-> "second order policy and transition functions:", cols |-> Vars(c), kind |-> "table",
   rows |-> Marked(SecondRows(c, x), IF d > 9 THEN 9 ELSE d)]

(* ---- statistics ---- *)
StatSection(c, mo, mean, p, f) ==
  LET v(i) == mo.cov[i][i]
      rows(cells(_)) == TLCEval([i \in 1..c.n |-> Row(VarL(i), cells(i))])
  IN  CASE f = "moments" -> LET ce(i) == << Cell(mean[i]), Sd(v(i)), Cell(v(i)) >>
             IN  [title |-> "model moments:", cols |-> <<Word("mean"), Word("std dev"), Word("var")>>,
                  kind |-> "table", rows |-> rows(ce)]
        [] f = "corr" -> LET ce(i) == TLCEval([j \in 1..c.n |-> Ratio(mo.cov[i][j], v(i), v(j))])
             IN  [title |-> "correlation:", cols |-> Vars(c), kind |-> "table", rows |-> rows(ce)]
        [] f = "autocorr" -> LET ce(i) == TLCEval([l \in 1..p |-> IF l > Len(mo.acov) THEN <<"any">> ELSE Ratio(mo.acov[l][i][i], v(i), v(i))])
             IN  [title |-> "autocorrelation of endogenous variables:",
                  cols |-> TLCEval([l \in 1..p |-> <<"plag", l>>]), kind |-> "table", rows |-> rows(ce)]
        [] f = "decomp" -> LET ce(i) == TLCEval([j \in 1..c.m |-> Ratio(mo.parts[i][j], v(i), v(i))])
             IN  [title |-> "variance decomposition:", cols |-> Shks(c), kind |-> "table", rows |-> rows(ce)]

(* the labels of a table are distinct, and every row has a cell per column         *)
WellFormed(s) == /\ \A r \in 1..Len(s.rows) : Len(s.rows[r].cells) = IF s.cols = <<>> THEN 1 ELSE Len(s.cols)
                 /\ s.kind = "eig" \/ \A r, t \in 1..Len(s.rows) : r # t => s.rows[r].lab # s.rows[t].lab
=============================================================================
