------------------------------- MODULE Second -------------------------------
(* Nonlinear models with a known second-order solution.                        *)
(*                                                                             *)
(*   A y(-1) + B y + C y(+1) + D u + H(y(-1), y, y(+1), u) + R(x, u) = 0         *)
(*                                                                             *)
(* on top of a linear model of LinRE: H is a sparse quadratic form, x the       *)
(* lagged states, and R is the quadratic form that makes                        *)
(*   y = G y(-1) + Gu u + Q(x, u) + gss/2                                        *)
(* the exact second-order expansion of the solution for the freely chosen Q.    *)
EXTENDS Wide

Qs == << <<0,1>>, <<1,2>>, <<0,1>>, <<-1,2>>, <<1,4>>, <<0,1>>, <<1,1>>, <<-1,4>> >>
Hs == << <<1,1>>, <<-1,1>>, <<1,2>>, <<2,1>>, <<-1,2>> >>

(* the variables with a lag, declaration order *)
BackVars(c) == Where([j \in 1..c.n |-> c.ix.cls[j] \in {Back, Mix}])
FwdVars(c) == Where([j \in 1..c.n |-> c.ix.cls[j] \in {Mix, Fwd}])

(* slots <<kind, index>>: 1 lag, 2 current, 3 lead, 4 shock *)
SlotList(c) == LET b == BackVars(c) f == FwdVars(c) IN
   [i \in 1..Len(b) |-> <<1, b[i]>>] \o [i \in 1..c.n |-> <<2, i>>]
   \o [i \in 1..Len(f) |-> <<3, f[i]>>] \o [i \in 1..c.m |-> <<4, i>>]

(* one to three monomials per equation: <<coefficient, slot, slot>> *)
MakeH(s, k, c) ==
  LET sl == SlotList(c)
      one(r, t) == << Pick(Hs, Hash(s, k, 1000 + 40 * r + 5 * t)),
                      Pick(sl, Hash(s, k, 1001 + 40 * r + 5 * t)),
                      Pick(sl, Hash(s, k, 1002 + 40 * r + 5 * t)) >>
  IN  TLCEval([r \in 1..c.n |-> TLCEval([t \in 1..(Hash(s, k, 1003 + 40 * r) % 3) |-> one(r, t)])])

MakeQ(s, k, c) ==
  LET d == Len(BackVars(c)) + c.m
      v(i, a, b) == Pick(Qs, Hash(s, k, 1400 + 100 * i + 10 * a + b))
      \* few of the many terms of a large model
      w(i, a, b) == IF c.n > 5 /\ (Hash(s, k, 2500 + 150 * i + 12 * a + b) % 9) # 0 THEN Zero ELSE v(i, a, b)
  IN  TLCEval([i \in 1..c.n |-> TLCEval([a \in 1..d |-> TLCEval([b \in 1..d |->
         IF a <= b THEN w(i, a, b) ELSE w(i, b, a)])])])

(* rows over w = (x, u) of the first-order value of every slot *)
W0(c) == HCat(SubCols(c.G, BackVars(c)), c.Gu)
SlotRow(c, w0, w1, sl) ==
  LET b == BackVars(c)
      d == Len(b) + c.m
      e(p) == [q \in 1..d |-> IF q = p THEN One ELSE Zero]
  IN  CASE sl[1] = 1 -> e(CHOOSE p \in 1..Len(b) : b[p] = sl[2])
        [] sl[1] = 2 -> w0[sl[2]]
        [] sl[1] = 3 -> w1[sl[2]]
        [] OTHER -> e(Len(b) + sl[2])
SymOuter(h, u, v) == LET d == Len(u) IN
  TLCEval([a \in 1..d |-> TLCEval([b \in 1..d |->
     RMul(RMul(h, <<1, 2>>), RAdd(RMul(u[a], v[b]), RMul(v[a], u[b])))])])
RECURSIVE SumM(_, _, _)
SumM(f(_), k, z) == IF k = 0 THEN z ELSE MAdd(SumM(f, k - 1, z), f(k))

MakeR(c, H, Qq) ==
  LET b == BackVars(c)
      nb == Len(b)
      d == nb + c.m
      w0 == W0(c)
      w1 == MMulN(c.G, w0, d)
      CG == MMul(c.C, c.G)
      z == ZeroM(d, d)
      wb == SubRows(w0, b)
      \* Q_i(G x + Gu u, 0) as a form in (x, u)
      next == TLCEval([i \in 1..c.n |->
                 MMulN(TransposeN(wb, d), MMulN(Sub(Qq[i], [p \in 1..nb |-> p], [p \in 1..nb |-> p]), wb, d), d)])
      tot(r) == LET lin(i) == MAdd(MScale(RAdd(c.B[r][i], CG[r][i]), Qq[i]),
                                   IF nb = 0 THEN z ELSE MScale(c.C[r][i], next[i]))
                    quad(t) == SymOuter(H[r][t][1], SlotRow(c, w0, w1, H[r][t][2]), SlotRow(c, w0, w1, H[r][t][3]))
                IN  MAdd(SumM(lin, c.n, z), SumM(quad, Len(H[r]), z))
  IN  TLCEval([r \in 1..c.n |-> MNeg(tot(r))])

(* E Q_i(0, u) for the model's shock covariance *)
QuuBar(c, Qq) == LET nb == Len(BackVars(c)) IN
  TLCEval([i \in 1..c.n |-> RSum(TLCEval([p \in 1..(c.m * c.m) |->
     LET a == ((p - 1) \div c.m) + 1
         b == ((p - 1) % c.m) + 1
     IN  RMul(Qq[i][nb + a][nb + b], c.S[a][b])]))])
(* E H_r(0, 0, Gu u, 0) *)
HBar(c, H) ==
  LET GSG == MMulN(c.Gu, MMulN(c.S, TransposeN(c.Gu, c.m), c.n), c.n)
  IN  TLCEval([r \in 1..c.n |-> RSum([t \in 1..Len(H[r]) |->
        IF H[r][t][2][1] = 3 /\ H[r][t][3][1] = 3
        THEN RMul(H[r][t][1], GSG[H[r][t][2][2]][H[r][t][3][2]]) ELSE Zero])])
(* (B + C G + C) gss/2 + C E Q + E H = 0; returns gss/2 *)
HalfGss(c, H, Qq) ==
  SolveV(MAdd(c.B, MAdd(MMul(c.C, c.G), c.C)),
         VNeg(VAdd(MVec(c.C, QuuBar(c, Qq)), HBar(c, H))))

MakeSecond(s, k, c) ==
  LET H == MakeH(s, k, c)
      Qq == MakeQ(s, k, c)
      R == MakeR(c, H, Qq)
      g == HalfGss(c, H, Qq)
  IN  [H |-> H, Q |-> Qq, R |-> R, del |-> g]
SecondKnown(c, x) == /\ ModelKnown(c) /\ x.del # <<>> /\ KnownV(x.del)
                     /\ \A r \in 1..c.n : Known(x.R[r]) /\ Known(x.Q[r])

(* --------- theorem: the expansion solves the model to second order --------- *)
(* jets <<c0, c1, c2>> along a ray, truncated after the second power            *)
JAdd(p, q) == << RAdd(p[1], q[1]), RAdd(p[2], q[2]), RAdd(p[3], q[3]) >>
JMul(p, q) == << RMul(p[1], q[1]), RAdd(RMul(p[1], q[2]), RMul(p[2], q[1])),
                 RAdd(RAdd(RMul(p[1], q[3]), RMul(p[3], q[1])), RMul(p[2], q[2])) >>
JScale(a, p) == << RMul(a, p[1]), RMul(a, p[2]), RMul(a, p[3]) >>
JZero == << Zero, Zero, Zero >>
RECURSIVE JSum(_, _)
JSum(f(_), k) == IF k = 0 THEN JZero ELSE JAdd(JSum(f, k - 1), f(k))
JDot(row, v) == LET f(i) == JScale(row[i], v[i]) IN JSum(f, Len(row))
JForm(Qi, v) == LET d == Len(v)
                    f(p) == LET a == ((p - 1) \div d) + 1
                                b == ((p - 1) % d) + 1
                            IN JScale(Qi[a][b], JMul(v[a], v[b]))
                IN JSum(f, d * d)
JPolicy(c, Qq, y, u) ==
  LET b == BackVars(c)
      w == [i \in 1..Len(b) |-> y[b[i]]] \o u
  IN  TLCEval([i \in 1..c.n |-> JAdd(JAdd(JDot(c.G[i], y), JDot(c.Gu[i], u)), JForm(Qq[i], w))])
JEq(c, x, r, ym, y, yp, u) ==
  LET b == BackVars(c)
      w == [i \in 1..Len(b) |-> ym[b[i]]] \o u
      val(sl) == CASE sl[1] = 1 -> ym[sl[2]] [] sl[1] = 2 -> y[sl[2]] [] sl[1] = 3 -> yp[sl[2]] [] OTHER -> u[sl[2]]
      h(t) == JScale(x.H[r][t][1], JMul(val(x.H[r][t][2]), val(x.H[r][t][3])))
  IN  JAdd(JAdd(JAdd(JDot(c.A[r], ym), JDot(c.B[r], y)), JAdd(JDot(c.C[r], yp), JDot(c.D[r], u))),
           JAdd(JSum(h, Len(x.H[r])), JForm(x.R[r], w)))
Ray(v) == [i \in 1..Len(v) |-> << Zero, v[i], Zero >>]
(* deterministic part, along a few directions (x, u) *)
SolvesRays(c, x, s, dirs) ==
  \A t \in 1..dirs :
    LET ym == Ray([j \in 1..c.n |-> Pick(Hs, Hash(s, c.k, 1900 + 20 * t + j))])
        u == Ray([j \in 1..c.m |-> Pick(Hs, Hash(s, c.k, 1910 + 20 * t + j))])
        z == [j \in 1..c.m |-> JZero]
        y == JPolicy(c, x.Q, ym, u)
        yp == JPolicy(c, x.Q, y, z)
    IN  \A r \in 1..c.n : LET j == JEq(c, x, r, ym, y, yp, u)
                          IN  KnownV(j) => j = JZero
(* risk part: the sum over orthogonal shocks of the second-order effect of         *)
(* future innovations, plus the constant's own effect                              *)
SolvesRisk(c, x) ==
  LET zy == [j \in 1..c.n |-> JZero]
      z == [j \in 1..c.m |-> JZero]
      del == [i \in 1..c.n |-> << Zero, Zero, x.del[i] >>]
      base == TLCEval([i \in 1..c.n |-> JAdd(del[i], JDot(c.G[i], del))])
      res(r, l) == IF l = 0 THEN JEq(c, x, r, zy, del, base, z)
                   ELSE LET up == Ray([a \in 1..c.m |-> c.L[a][l]])
                        IN  JEq(c, x, r, zy, zy, JPolicy(c, x.Q, zy, up), z)
  IN  \A r \in 1..c.n :
        LET f(l) == res(r, l)
            tot == RAdd(res(r, 0)[3], JSum(f, c.m)[3])
        IN  tot[2] # 0 => tot = Zero

(* the parts of the second order, with variable i measured in units 2^-u[i]    *)
SecondInUnits(c, x, u) ==
  LET b == BackVars(c)
      wp(a) == IF a <= Len(b) THEN -u[b[a]] ELSE 0
      sp(sl) == IF sl[1] = 4 THEN 0 ELSE -u[sl[2]]
      form(X, e) == LET r(a) == e + wp(a) IN Weigh(X, r, wp)
  IN  [H |-> TLCEval([r \in 1..c.n |-> TLCEval([t \in 1..Len(x.H[r]) |->
               LET h == x.H[r][t] IN << RMul(UnitOf(sp(h[2]) + sp(h[3])), h[1]), h[2], h[3] >>])]),
       Q |-> TLCEval([i \in 1..c.n |-> form(x.Q[i], u[i])]),
       R |-> TLCEval([r \in 1..c.n |-> form(x.R[r], 0)]),
       del |-> TLCEval([i \in 1..c.n |-> RMul(UnitOf(u[i]), x.del[i])])]

(* ------------------------------ simulation --------------------------------- *)
QForm(Qi, w) == RSum(TLCEval([a \in 1..Len(w) |-> RMul(w[a], Dot(Qi[a], w))]))
SecondStep(c, x, y, u) ==
  LET w == SubV(y, BackVars(c)) \o u
  IN  TLCEval([i \in 1..c.n |-> RAdd(RAdd(Dot(c.G[i], y), Dot(c.Gu[i], u)), RAdd(QForm(x.Q[i], w), x.del[i]))])

(* ------------------------------- mean -------------------------------------- *)
(* mean deviation when state and shock second moments are those of the first     *)
(* order: mu = G mu + del + Qxx : Var x + Quu : Var u                             *)
Frob(P, V) == RSum([a \in 1..Len(P) |-> Dot(P[a], V[a])])
SecondMean(c, x, cov) ==
  LET b == BackVars(c)
      nb == Len(b)
      V == Sub(cov, b, b)
      xs == [p \in 1..nb |-> p]
      us == [p \in 1..c.m |-> nb + p]
      drift == TLCEval([i \in 1..c.n |->
                 RAdd(x.del[i], RAdd(Frob(Sub(x.Q[i], xs, xs), V), Frob(Sub(x.Q[i], us, us), c.S)))])
  IN  SolveV(MSub(Eye(c.n), c.G), drift)
=============================================================================
