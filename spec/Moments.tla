------------------------------ MODULE Moments ------------------------------
(* Stationary second moments of y = G y(-1) + Gu L z, z white with unit        *)
(* covariance, one orthogonalised shock at a time.                             *)
EXTENDS LinRE

PairIdx(b) == LET RECURSIVE f(_, _)
                  f(i, j) == IF i > b THEN <<>>
                             ELSE IF j > b THEN f(i + 1, i + 1) ELSE << <<i, j>> >> \o f(i, j + 1)
              IN  f(1, 1)
(* symmetric V with V = X V X' + Q, by elimination over its upper triangle      *)
Lyap(X, Qm) ==
  LET b == Len(X)
      ps == PairIdx(b)
      np == Len(ps)
      row(r) == LET i == ps[r][1] j == ps[r][2]
                IN  TLCEval([cidx \in 1..np |->
                      LET u == ps[cidx][1] v == ps[cidx][2]
                          cf == IF u = v THEN RMul(X[i][u], X[j][v])
                                ELSE RAdd(RMul(X[i][u], X[j][v]), RMul(X[i][v], X[j][u]))
                      IN  RSub(IF cidx = r THEN One ELSE Zero, cf)])
      S == IF np = 0 THEN <<>>
           ELSE SolveV(TLCEval([r \in 1..np |-> row(r)]), TLCEval([r \in 1..np |-> Qm[ps[r][1]][ps[r][2]]]))
      at(i, j) == S[CHOOSE r \in 1..np : ps[r] = IF i <= j THEN <<i, j>> ELSE <<j, i>>]
  IN  IF np = 0 THEN <<>> ELSE IF S = <<>> THEN << <<Bad>> >>
      ELSE TLCEval([i \in 1..b |-> TLCEval([j \in 1..b |-> at(i, j)])])

Outer(u, v) == TLCEval([i \in 1..Len(u) |-> TLCEval([j \in 1..Len(v) |-> RMul(u[i], v[j])])])
(* covariance matrix of all variables due to the innovation direction w          *)
CovFrom(c, bs, w) ==
  LET X == Sub(c.G, bs, bs)
      wb == SubV(w, bs)
      V == Lyap(X, Outer(wb, wb))
      GB == SubCols(c.G, bs)
      n == c.n
  IN  IF Len(bs) = 0 THEN Outer(w, w)
      ELSE IF ~Known(V) THEN << <<Bad>> >>
      ELSE MAdd(MMulN(GB, MMulN(V, TransposeN(GB, Len(bs)), n), n), Outer(w, w))
RECURSIVE MSum(_, _)
MSum(s, i) == IF i = 1 THEN s[1] ELSE MAdd(MSum(s, i - 1), s[i])
RECURSIVE AutoCov(_, _, _)
AutoCov(G, X, k) == IF k = 0 THEN <<>> ELSE LET Y == MMul(G, X) IN <<Y>> \o AutoCov(G, Y, k - 1)

Moments(c, lags) ==
  LET GL == MMulN(c.Gu, c.L, c.m)
      bs == Where([j \in 1..c.n |-> c.ix.cls[j] \in {Back, Mix}])
      per == TLCEval([j \in 1..c.m |-> CovFrom(c, bs, TLCEval([i \in 1..c.n |-> GL[i][j]]))])
      known == \A j \in 1..c.m : Known(per[j])
      cov == IF known THEN MSum(per, c.m) ELSE << <<Bad>> >>
  IN  [known |-> known /\ Known(cov), cov |-> cov,
       acov |-> IF known THEN AutoCov(c.G, cov, lags) ELSE <<>>,
       parts |-> IF known THEN TLCEval([i \in 1..c.n |-> TLCEval([j \in 1..c.m |-> per[j][i][i]])]) ELSE <<>>]

(* the covariance is a fixed point of the process, symmetric, with nonnegative    *)
(* variances; the parts add up                                                     *)
Stationary(c, mo) ==
  LET GuS == MMulN(c.Gu, MMulN(c.S, TransposeN(c.Gu, c.m), c.n), c.n)
      R == MSub(MAdd(MMul(c.G, MMul(mo.cov, Tr(c.G))), GuS), mo.cov)
  IN  Known(R) => IsZeroM(R)
Plausible(c, mo) ==
  /\ \A i, j \in 1..c.n : mo.cov[i][j] = mo.cov[j][i]
  /\ \A i \in 1..c.n : RSgn(mo.cov[i][i]) >= 0 /\ RSum(mo.parts[i]) = mo.cov[i][i]
  /\ \A i \in 1..c.n : \A j \in 1..c.m : RSgn(mo.parts[i][j]) >= 0

(* shocks f times as large: the covariances are f^2 times as large, so that         *)
(* correlations and shares are what they were                                       *)
Rescaled(c, f) == [c EXCEPT !.S = TLCEval([i \in 1..c.m |-> VScale(RMul(f, f), c.S[i])]),
                            !.L = TLCEval([i \in 1..c.m |-> VScale(f, c.L[i])])]
TimesM(f, X) == TLCEval([i \in 1..Len(X) |-> VScale(f, X[i])])
ScalesWell(c, mo, lags, f) ==
  LET m2 == Moments(Rescaled(c, f), lags)
      ff == RMul(f, f)
  IN  (m2.known /\ Known(TimesM(ff, mo.cov)) /\ \A l \in 1..lags : Known(m2.acov[l]) /\ Known(TimesM(ff, mo.acov[l]))) =>
      /\ m2.cov = TimesM(ff, mo.cov)
      /\ m2.parts = TimesM(ff, mo.parts)
      /\ \A l \in 1..lags : m2.acov[l] = TimesM(ff, mo.acov[l])
(* the power of two by which a model's covariances are multiplied in the replay      *)
ScaleOf(s, k) == Pick(<<0, -20, 0, -40, 0, -28, 6, -32>>, Hash(s, k, 3001))
=============================================================================
