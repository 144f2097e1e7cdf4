------------------------------- MODULE Sample -------------------------------
(* Statistics of a recorded path: a sequence of rows of rational numbers, of     *)
(* which the first few are dropped.  Covariances are averages over the retained  *)
(* rows of products of deviations from the retained mean; the k-th               *)
(* autocovariance averages over the pairs of retained rows k apart.              *)
EXTENDS Rat
Keep(path, drop) == SubSeq(path, drop + 1, Len(path))
Mean(p, j) == RDiv(RSum(TLCEval([t \in 1..Len(p) |-> p[t][j]])), I(Len(p)))
Cov(p, a, b) ==
  LET ma == Mean(p, a)
      mb == Mean(p, b)
  IN  RDiv(RSum(TLCEval([t \in 1..Len(p) |-> RMul(RSub(p[t][a], ma), RSub(p[t][b], mb))])), I(Len(p)))
Autocov(p, j, k) ==
  LET m == Mean(p, j)
  IN  RDiv(RSum(TLCEval([t \in 1..(Len(p) - k) |-> RMul(RSub(p[t + k][j], m), RSub(p[t][j], m))])), I(Len(p) - k))
CovM(p, n) == Mk(n, n, LAMBDA a, b : Cov(p, a, b))
AutocovM(p, n, lags) == Mk(n, lags, LAMBDA j, k : Autocov(p, j, k))
(* requests that make no sense *)
BadDrop(T, drop) == drop < 0 \/ drop > T
BadLags(T, drop, lags) == BadDrop(T, drop) \/ lags > T - drop
=============================================================================
