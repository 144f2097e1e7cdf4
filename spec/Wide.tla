-------------------------------- MODULE Wide --------------------------------
(* Larger models, put together from the models of LinRE: their block sum in    *)
(* another order of variables, equations and shocks, with the equations of the *)
(* parts added to one another, and with variables of one part redefined in     *)
(* terms of those of another (y_p + a y_q in place of y_p, where y_q appears at *)
(* every date that y_p does, so that no variable changes its class).           *)
EXTENDS Moments

(* the elements of 1..n in an order drawn from Hash *)
Order(s, k, salt, n) ==
  LET key == TLCEval([i \in 1..n |-> Hash(s, k, salt + i)])
      rank == TLCEval([i \in 1..n |-> Cardinality({j \in 1..n : key[j] < key[i] \/ (key[j] = key[i] /\ j < i)}) + 1])
  IN  TLCEval([p \in 1..n |-> CHOOSE i \in 1..n : rank[i] = p])
(* the same, but the elements that belong together stay in order *)
Merge(s, k, salt, lab) ==
  LET n == Len(lab)
      o == Order(s, k, salt, n)
      before(p) == Cardinality({l \in 1..(p - 1) : lab[o[l]] = lab[o[p]]})
  IN  TLCEval([p \in 1..n |-> CHOOSE i \in 1..n : lab[i] = lab[o[p]] /\
                 Cardinality({j \in 1..(i - 1) : lab[j] = lab[i]}) = before(p)])

Diag2(X, Y, rx, cx, ry, cy) ==
  TLCEval([i \in 1..(rx + ry) |-> TLCEval([j \in 1..(cx + cy) |->
     IF i <= rx /\ j <= cx THEN X[i][j] ELSE IF i > rx /\ j > cx THEN Y[i - rx][j - cx] ELSE Zero])])
Both(c, d) ==
  LET sq(X, Y) == Diag2(X, Y, c.n, c.n, d.n, d.n)
      nm(X, Y) == Diag2(X, Y, c.n, c.m, d.n, d.m)
      mm(X, Y) == Diag2(X, Y, c.m, c.m, d.m, d.m)
  IN  [c EXCEPT !.n = c.n + d.n, !.m = c.m + d.m, !.kind = IF c.kind = "ok" THEN d.kind ELSE c.kind,
         !.A = sq(c.A, d.A), !.B = sq(c.B, d.B), !.C = sq(c.C, d.C), !.G = sq(c.G, d.G), !.F = sq(c.F, d.F),
         !.D = nm(c.D, d.D), !.Gu = nm(c.Gu, d.Gu), !.L = mm(c.L, d.L), !.S = mm(c.S, d.S),
         !.ybar = c.ybar \o d.ybar, !.eig = c.eig \o d.eig, !.geig = c.geig \o d.geig, !.feig = c.feig \o d.feig]

Reorder(c, pv, pe, ps) ==
  LET X2(X, r, l) == TLCEval([i \in 1..Len(r) |-> TLCEval([j \in 1..Len(l) |-> X[r[i]][l[j]]])])
  IN  [c EXCEPT !.A = X2(c.A, pe, pv), !.B = X2(c.B, pe, pv), !.C = X2(c.C, pe, pv), !.D = X2(c.D, pe, ps),
         !.G = X2(c.G, pv, pv), !.F = X2(c.F, pv, pv), !.Gu = X2(c.Gu, pv, ps), !.L = X2(c.L, ps, ps),
         !.S = X2(c.S, ps, ps), !.ybar = TLCEval([i \in 1..c.n |-> c.ybar[pv[i]]])]

(* equation p plus a times equation q *)
AddEq(c, p, q, a) == [c EXCEPT !.A = AddRow(c.A, p, q, a), !.B = AddRow(c.B, p, q, a),
                               !.C = AddRow(c.C, p, q, a), !.D = AddRow(c.D, p, q, a)]
(* y_p + a y_q in place of y_p *)
AddCol(X, p, q, a) == TLCEval([i \in 1..Len(X) |-> [X[i] EXCEPT ![q] = RSub(X[i][q], RMul(a, X[i][p]))]])
Redefine(c, p, q, a) ==
  [c EXCEPT !.A = AddCol(c.A, p, q, a), !.B = AddCol(c.B, p, q, a), !.C = AddCol(c.C, p, q, a),
            !.G = AddCol(AddRow(c.G, p, q, a), p, q, a), !.F = AddCol(AddRow(c.F, p, q, a), p, q, a),
            !.Gu = AddRow(c.Gu, p, q, a)]
Within(x, y) == x = Stat \/ x = y \/ y = Mix
(* pairs of variables of different parts whose classes allow it *)
Couplings(c, lab) == {<<p, q>> \in (1..c.n) \X (1..c.n) : lab[p] # lab[q] /\ Within(c.ix.cls[p], c.ix.cls[q])}
Nth(S, j, n) == CHOOSE e \in S : Cardinality({f \in S : f[1] * n + f[2] < e[1] * n + e[2]}) = j
(* the redefinition drawn: <<p, q, a>>, or nothing *)
DrawPair(s, k, salt, c, S) ==
  IF S = {} THEN <<>>
  ELSE LET e == Nth(S, Hash(s, k, salt) % Cardinality(S), c.n + 1)
       IN  <<e[1], e[2], Pick(<<One, <<-1, 1>>, <<1, 2>>>>, Hash(s, k, salt + 1))>>
Coupled(c, d) == IF d = <<>> THEN c ELSE Redefine(c, d[1], d[2], d[3])

RECURSIVE Fold(_, _)
Fold(ps, i) == IF i = 1 THEN ps[1] ELSE Both(Fold(ps, i - 1), ps[i])
RECURSIVE Labels(_, _)
Labels(ns, i) == IF i = 0 THEN <<>> ELSE Labels(ns, i - 1) \o TLCEval([j \in 1..ns[i] |-> i])

PartCount(s, k) == 2 + (Hash(s, k, 2001) % 3)
(* at most one part has the kind asked for *)
PartsOf(s, k, want, np) ==
  LET odd == 1 + (Hash(s, k, 2002) % np)
  IN  TLCEval([i \in 1..np |->
        LET kk == Hash(s, k, 2010 + i) % 20000 IN
        Degenerate(s, MakeKind(s, kk, IF i = odd THEN want ELSE "ok", ShockCount(s, kk)))])
(* ---- one large model, and how it came about ---- *)
WideFrom(s, k, want, np) ==
  LET ps == PartsOf(s, k, want, np)
      c0 == Fold(ps, Len(ps))
      vn == Labels(TLCEval([i \in 1..Len(ps) |-> ps[i].n]), Len(ps))
      vm == Labels(TLCEval([i \in 1..Len(ps) |-> ps[i].m]), Len(ps))
      pv == Order(s, k, 2100, c0.n)
      pe == Order(s, k, 2200, c0.n)
      sh == Merge(s, k, 2300, vm)
      c1 == Reorder(c0, pv, pe, sh)
      lab == TLCEval([i \in 1..c0.n |-> vn[pv[i]]])
      r(a) == 1 + (Hash(s, k, a) % c0.n)
      e(c, a) == AddEq(c, r(a), r(a + 1), Pick(<<One, <<-1, 1>>, <<1, 2>>>>, Hash(s, k, a + 2)))
      x2 == e(e(c1, 2401), 2411)
      \* small coefficients: the search for the steady state stops where it starts
      sm(X) == TLCEval([i \in 1..c0.n |-> VScale(<<1, 8>>, X[i])])
      c2 == [x2 EXCEPT !.A = sm(x2.A), !.B = sm(x2.B), !.C = sm(x2.C), !.D = sm(x2.D)]
      c3 == [c2 EXCEPT !.ix = Classify(c2.A, c2.B, c2.C, c2.n)]
      S == IF want = "static" THEN {} ELSE Couplings(c3, lab)
      d1 == DrawPair(s, k, 2421, c3, S)
      d2 == DrawPair(s, k, 2431, c3, S)
      c4 == Coupled(Coupled(c3, d1), d2)
  IN  [c |-> [c4 EXCEPT !.k = k, !.ix = Classify(c4.A, c4.B, c4.C, c4.n)],
       ps |-> ps, pv |-> pv, sh |-> sh, vn |-> vn, vm |-> vm, ds |-> <<d1, d2>>]
WideOf(s, k, want) == WideFrom(s, k, want, PartCount(s, k))
(* redefinition and mixing can cancel a term; such a model is not a larger version of its parts *)
Proper(c) == /\ Len(c.eig) = Len(c.ix.state) + Len(c.ix.forward)
             /\ \A i \in 1..c.n : (\E r \in 1..c.n : c.G[r][i][1] # 0) <=> c.ix.cls[i] \in {Back, Mix}

(* ---- the same model with variable i measured in units 1 / UnitOf(u[i]), where a code    ----
   ---- p + 100 t stands for 2^p 3^t, so that codes add where units multiply               ---- *)
UnitPowers(s, k, n) ==
  TLCEval([i \in 1..n |-> IF (Hash(s, k, 3100) % 2) = 0 THEN 0
                           ELSE IF n > 4 THEN Pick(<<0, 3, 100, 0, 1, -100, -2>>, Hash(s, k, 3101 + i))
                           ELSE Pick(<<0, 3, 100, 6, 10, -100, -3, 101, -6, -99>>, Hash(s, k, 3101 + i))])
PowOf(b, e) == IF e >= 0 THEN <<b^e, 1>> ELSE <<1, b^(-e)>>
BinaryOf(e) == e - 100 * ((e + 50) \div 100)
UnitOf(e) == LET t == (e + 50) \div 100 IN RMul(PowOf(2, e - 100 * t), PowOf(3, t))
\* entry (i, j) times the unit of r(i) + l(j)
Weigh(X, r(_), l(_)) == TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(X[i]) |-> RMul(UnitOf(r(i) + l(j)), X[i][j])])])
InUnits(c, u) ==
  LET no(i) == 0
      up(i) == u[i]
      dn(i) == -u[i]
  IN  [c EXCEPT !.A = Weigh(c.A, no, dn), !.B = Weigh(c.B, no, dn), !.C = Weigh(c.C, no, dn),
                !.G = Weigh(c.G, up, dn), !.F = Weigh(c.F, up, dn), !.Gu = Weigh(c.Gu, up, no),
                !.ybar = TLCEval([i \in 1..c.n |-> RMul(UnitOf(u[i]), c.ybar[i])])]
CovInUnits(X, u) == LET up(i) == u[i] IN Weigh(X, up, up)
(* its rule and moments are those of the model, in these units *)
UnitFree(c, u) ==
  LET d == InUnits(c, u)
      X == MAdd(MAdd(MMul(d.C, MMul(d.G, d.G)), MMul(d.B, d.G)), d.A)
      U == MAdd(MAdd(MMulN(d.C, MMulN(d.G, d.Gu, d.m), d.m), MMulN(d.B, d.Gu, d.m)), d.D)
  IN  /\ ModelKnown(d) /\ Known(X) => IsZeroM(X)
      /\ ModelKnown(d) /\ Known(U) => IsZeroM(U)
      /\ ModelKnown(d) => Classify(d.A, d.B, d.C, d.n) = c.ix
MomentsUnitFree(c, mo, u) ==
  LET d == InUnits(c, u)
      X == CovInUnits(mo.cov, u)
  IN  ModelKnown(d) /\ Known(X) => Stationary(d, [mo EXCEPT !.cov = X])

AnyKind(s, k, want, wide) == IF wide THEN WideOf(s, k, want).c ELSE MakeKind(s, k, want, ShockCount(s, k))

(* ---- moments of a large model, from those of its parts ---- *)
Carry(X, d) == IF d = <<>> THEN X ELSE Tr(AddRow(Tr(AddRow(X, d[1], d[2], d[3])), d[1], d[2], d[3]))
WideMoments(w, lags) ==
  LET ms == TLCEval([i \in 1..Len(w.ps) |-> Moments(w.ps[i], 0)])
      known == \A i \in 1..Len(ms) : ms[i].known
      n == w.c.n
      base(i) == Cardinality({v \in 1..n : w.vn[v] < i})
      \* due to the j-th shock of the i-th part
      due(i, j) ==
        LET bs == Where([v \in 1..w.ps[i].n |-> w.ps[i].ix.cls[v] \in {Back, Mix}])
            GL == MMulN(w.ps[i].Gu, w.ps[i].L, w.ps[i].m)
            P == CovFrom(w.ps[i], bs, TLCEval([v \in 1..w.ps[i].n |-> GL[v][j]]))
            b == base(i)
            X == TLCEval([r \in 1..n |-> TLCEval([l \in 1..n |->
                   IF w.vn[w.pv[r]] = i /\ w.vn[w.pv[l]] = i THEN P[w.pv[r] - b][w.pv[l] - b] ELSE Zero])])
        IN  Carry(Carry(X, w.ds[1]), w.ds[2])
      per == TLCEval([s \in 1..w.c.m |->
               LET o == w.sh[s]
                   i == w.vm[o]
               IN  due(i, o - Cardinality({l \in 1..w.c.m : w.vm[l] < i}))])
      cov == IF known THEN MSum(per, w.c.m) ELSE << <<Bad>> >>
  IN  [known |-> known /\ Known(cov), cov |-> cov, acov |-> IF known THEN AutoCov(w.c.G, cov, lags) ELSE <<>>,
       parts |-> IF known THEN TLCEval([i \in 1..n |-> TLCEval([j \in 1..w.c.m |-> per[j][i][i]])]) ELSE <<>>]
=============================================================================
