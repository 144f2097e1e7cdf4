------------------------------- MODULE LinRE -------------------------------
(* Linear rational-expectations models with a known solution.                 *)
(*                                                                            *)
(*   A y(-1) + B y + C y(+1) + D u = 0            (deviations from ybar)       *)
(*                                                                            *)
(* is built as  M [ (I - F L^-1)(I - G L) y - (...)u ] = 0, that is            *)
(*   A = -M G,  B = M (I + F G),  C = -M F,  D = -M Gu                         *)
(* with F, G stable.  Every model with a unique stable solution has this form, *)
(* the solution is y = G y(-1) + Gu u, and the eigenvalues of the system are   *)
(* those of G on its nonzero columns and the inverses of those of F on its     *)
(* nonzero columns.  An unstable F makes the model indeterminate, an unstable  *)
(* G leaves it without a stable solution, and putting two such models side by  *)
(* side gives one that meets the order condition but not the rank condition.   *)
EXTENDS Rat

Stat == "static"
Back == "back"
Mix == "mixed"
Fwd == "fwd"
ClassOf(d) == CASE d = 0 -> Stat [] d = 1 -> Back [] d = 2 -> Mix [] OTHER -> Fwd

(* positions (increasing) of the elements of 1..n that satisfy p *)
RECURSIVE Filter(_, _, _)
Filter(n, p, i) == IF i > n THEN <<>> ELSE (IF p[i] THEN <<i>> ELSE <<>>) \o Filter(n, p, i + 1)
Where(p) == Filter(Len(p), p, 1)

(* ------------------------------------------------------------------------- *)
(* a square matrix with known eigenvalues: block triangular, then sheared      *)
StableReal == << <<1,2>>, <<-1,2>>, <<1,4>>, <<3,4>>, <<-3,4>>, <<0,1>>, <<7,8>>, <<-1,4>> >>
UnstableReal == << <<2,1>>, <<-2,1>>, <<3,2>>, <<-5,4>>, <<4,1>> >>
StableCplx == << << <<0,1>>, <<1,2>> >>, << <<1,2>>, <<1,2>> >>, << <<-1,2>>, <<1,4>> >>,
                 << <<3,4>>, <<1,2>> >>, << <<1,4>>, <<3,4>> >>, << <<-1,4>>, <<1,2>> >> >>
UnstableCplx == << << <<0,1>>, <<2,1>> >>, << <<1,1>>, <<1,1>> >>, << <<-1,1>>, <<1,2>> >>, << <<3,4>>, <<3,4>> >> >>
Off == << <<0,1>>, <<1,2>>, <<-1,2>>, <<0,1>>, <<1,1>>, <<-1,4>> >>

(* blocks of an m x m matrix: sequence of [p, c (complex?), e] *)
RECURSIVE Blocks(_, _, _, _, _, _, _)
Blocks(s, k, salt, p, m, bad, nozero) ==
  IF p > m THEN <<>>
  ELSE LET h == Hash(s, k, salt + 11 * p)
           cx == p < m /\ (h % 3) = 0
           un == bad \in {"first", "firstreal"} /\ p = 1
           one == bad = "unit" /\ p = 1
           r0 == IF un THEN Pick(UnstableReal, Hash(s, k, salt + 11 * p + 1))
                 ELSE IF one THEN (IF (Hash(s, k, salt + 11 * p + 1) % 2) = 0 THEN One ELSE <<-1, 1>>)
                 ELSE Pick(StableReal, Hash(s, k, salt + 11 * p + 2))
           r == IF nozero /\ r0[1] = 0 THEN <<1, 2>> ELSE r0
           e == IF un THEN Pick(UnstableCplx, Hash(s, k, salt + 11 * p + 3))
                ELSE Pick(StableCplx, Hash(s, k, salt + 11 * p + 4))
       IN  IF cx /\ ~one /\ ~(un /\ bad = "firstreal")
           THEN <<[p |-> p, c |-> TRUE, e |-> e]>> \o Blocks(s, k, salt, p + 2, m, bad, nozero)
           ELSE <<[p |-> p, c |-> FALSE, e |-> <<r, Zero>>]>> \o Blocks(s, k, salt, p + 1, m, bad, nozero)

BlockAt(bl, i) == CHOOSE b \in {bl[j] : j \in 1..Len(bl)} : b.p = i \/ (b.c /\ b.p + 1 = i)
FromBlocks(s, k, salt, bl, m) ==
  TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |->
     LET b == BlockAt(bl, i) IN
     IF i = j THEN b.e[1]
     ELSE IF b.c /\ i = b.p /\ j = b.p + 1 THEN RNeg(b.e[2])
     ELSE IF b.c /\ i = b.p + 1 /\ j = b.p THEN b.e[2]
     ELSE IF j > i THEN Pick(Off, Hash(s, k, salt + 200 + 10 * i + j)) ELSE Zero])])
(* P -> E P E^-1 with E = I + c e_p e_q' *)
Shear(X, p, q, c) ==
  LET m == Len(X)
      R == [X EXCEPT ![p] = VAdd(X[p], VScale(c, X[q]))]
  IN  TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |->
        IF j = q THEN RSub(R[i][q], RMul(c, R[i][p])) ELSE R[i][j]])])
Shears(s, k, salt, X) ==
  LET m == Len(X) IN
  IF m < 2 THEN X
  ELSE LET p == (Hash(s, k, salt + 301) % m) + 1
           q == ((p + (Hash(s, k, salt + 302) % (m - 1))) % m) + 1
           c == IF (Hash(s, k, salt + 303) % 2) = 0 THEN One ELSE <<-1, 1>>
       IN  IF (Hash(s, k, salt + 304) % 3) = 0 THEN X ELSE Shear(X, p, q, c)
Eigs(bl) == IF bl = <<>> THEN <<>>
            ELSE LET f[i \in 0..Len(bl)] ==
                       IF i = 0 THEN <<>>
                       ELSE f[i-1] \o (IF bl[i].c THEN << bl[i].e, <<bl[i].e[1], RNeg(bl[i].e[2])>> >>
                                       ELSE << bl[i].e >>)
                 IN  f[Len(bl)]
(* the inverse of a complex number; <<>> for 0 *)
CInv(z) == LET d == RAdd(RMul(z[1], z[1]), RMul(z[2], z[2]))
           IN  IF d[1] = 0 THEN <<>> ELSE << RDiv(z[1], d), RNeg(RDiv(z[2], d)) >>
Unstable(z) == z = <<>> \/ RLt(One, RAdd(RMul(z[1], z[1]), RMul(z[2], z[2])))

(* n x n matrix whose nonzero columns are cs, with the square block X there and *)
(* other rows filled in so that no column of cs vanishes                        *)
Spread(s, k, salt, n, cs, X) ==
  LET m == Len(cs)
      inB == [i \in 1..n |-> \E j \in 1..m : cs[j] = i]
      pos(i) == CHOOSE j \in 1..m : cs[j] = i
      colzero(j) == \A i \in 1..m : X[i][j][1] = 0
      firstOut == IF \E i \in 1..n : ~inB[i] THEN CHOOSE i \in 1..n : ~inB[i] /\ \A l \in 1..(i-1) : inB[l] ELSE 0
  IN  TLCEval([i \in 1..n |-> TLCEval([c \in 1..n |->
        IF ~inB[c] THEN Zero
        ELSE IF inB[i] THEN X[pos(i)][pos(c)]
        ELSE LET v == Pick(Off, Hash(s, k, salt + 400 + 10 * i + c))
             IN  IF v[1] = 0 /\ i = firstOut /\ colzero(pos(c)) THEN One ELSE v])])

(* nonsingular mixing of the equations: row scalings and three row additions *)
Scales == << <<1,1>>, <<-1,1>>, <<2,1>>, <<1,2>>, <<1,1>>, <<-3,1>>, <<10,1>> >>
AddRow(X, p, q, c) == IF p = q THEN X ELSE [X EXCEPT ![p] = VAdd(X[p], VScale(c, X[q]))]
MixM(s, k, n) ==
  LET D == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
               IF i = j THEN Pick(Scales, Hash(s, k, 500 + i)) ELSE Zero])])
      r(a) == (Hash(s, k, a) % n) + 1
      c(a) == Pick(<< One, <<-1,1>>, <<2,1>>, <<1,2>> >>, Hash(s, k, a))
      X1 == AddRow(D, r(510), r(511), c(512))
      X2 == AddRow(X1, r(513), r(514), c(515))
      X3 == AddRow(X2, r(516), r(517), c(518))
  IN  IF (Hash(s, k, 519) % 4) = 0 THEN D ELSE X3

(* lower triangular factor of the shock covariance *)
CholL(s, k, m) ==
  LET diagonly == (Hash(s, k, 600) % 2) = 0
  IN  TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |->
        IF i = j THEN Pick(<< One, <<1,2>>, <<2,1>>, <<3,2>>, <<1,4>> >>, Hash(s, k, 601 + i))
        ELSE IF j > i \/ diagonly THEN Zero
        ELSE Pick(Off, Hash(s, k, 610 + 7 * i + j))])])

Gus == << <<1,1>>, <<-1,1>>, <<0,1>>, <<1,2>>, <<2,1>>, <<-1,2>>, <<1,4>> >>
Ybars == << <<1,1>>, <<0,1>>, <<2,1>>, <<-1,1>>, <<1,2>>, <<3,1>>, <<-2,1>>, <<4,1>> >>

(* --------------------------- classification ------------------------------ *)
ColNZ(A, j) == \E i \in 1..Len(A) : A[i][j][1] # 0
Classify(A, B, C, n) ==
  LET lag == [j \in 1..n |-> ColNZ(A, j)]
      cur == [j \in 1..n |-> ColNZ(B, j)]
      led == [j \in 1..n |-> ColNZ(C, j)]
      cls == TLCEval([j \in 1..n |-> IF lag[j] THEN (IF led[j] THEN Mix ELSE Back)
                             ELSE IF led[j] THEN Fwd ELSE Stat])
      w(c) == Where([j \in 1..n |-> cls[j] = c])
      dr == w(Stat) \o w(Back) \o w(Mix) \o w(Fwd)
  IN  [lag |-> Where(lag), cur |-> Where(cur), led |-> Where(led), cls |-> cls,
       static |-> w(Stat), back |-> w(Back), mixed |-> w(Mix), fwd |-> w(Fwd),
       dr |-> dr,
       dc |-> TLCEval([j \in 1..n |-> CHOOSE p \in 1..n : dr[p] = j]),
       \* states in decision-rule order
       state |-> w(Back) \o w(Mix), forward |-> w(Mix) \o w(Fwd),
       nowhere |-> Where([j \in 1..n |-> ~lag[j] /\ ~cur[j] /\ ~led[j]])]

(* ------------------------------ one model --------------------------------- *)
(* kind: "ok" | "unit" | "indet" | "expl"; classes given by digits of code      *)
Part(s, k, n, m, cl, kind) ==
  LET isB == [i \in 1..n |-> cl[i] \in {Back, Mix}]
      isF == [i \in 1..n |-> cl[i] \in {Mix, Fwd}]
      bs == Where(isB)
      fs == Where(isF)
      gbl == Blocks(s, k, 20, 1, Len(bs),
                    IF kind = "expl" THEN "first" ELSE IF kind = "expl1" THEN "firstreal" ELSE IF kind = "unit" THEN "unit" ELSE "", Len(bs) = n)
      fbl == Blocks(s, k, 70, 1, Len(fs),
                    IF kind = "indet" THEN "first" ELSE IF kind = "indet1" THEN "firstreal" ELSE IF kind = "funit" THEN "unit" ELSE "", Len(fs) = n)
      GB == Shears(s, k, 20, FromBlocks(s, k, 20, gbl, Len(bs)))
      FB == Shears(s, k, 70, FromBlocks(s, k, 70, fbl, Len(fs)))
  IN  [n |-> n, bs |-> bs, fs |-> fs,
       G |-> Spread(s, k, 20, n, bs, GB), F |-> Spread(s, k, 70, n, fs, FB),
       Gu |-> TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> Pick(Gus, Hash(s, k, 700 + 10 * i + j))])]),
       geig |-> Eigs(gbl), feig |-> Eigs(fbl)]

(* block sum of two parts with the same shocks *)
Join(p, q) ==
  LET n == p.n + q.n
      bd(X, Y) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
                    IF i <= p.n /\ j <= p.n THEN X[i][j]
                    ELSE IF i > p.n /\ j > p.n THEN Y[i - p.n][j - p.n] ELSE Zero])])
      sh(v) == [i \in 1..Len(v) |-> v[i] + p.n]
  IN  [n |-> n, bs |-> p.bs \o sh(q.bs), fs |-> p.fs \o sh(q.fs),
       G |-> bd(p.G, q.G), F |-> bd(p.F, q.F), Gu |-> p.Gu \o q.Gu,
       geig |-> p.geig \o q.geig, feig |-> p.feig \o q.feig]

Assemble(s, k, p, m, kind) ==
  LET n == p.n
      M == MixM(s, k, n)
      A == MNeg(MMul(M, p.G))
      B == MMul(M, MAdd(Eye(n), MMul(p.F, p.G)))
      C == MNeg(MMul(M, p.F))
      D == MNeg(MMulN(M, p.Gu, m))
      L == CholL(s, k, m)
      finv == [i \in 1..Len(p.feig) |-> CInv(p.feig[i])]
  IN  [k |-> k, n |-> n, m |-> m, kind |-> kind,
       A |-> A, B |-> B, C |-> C, D |-> D, G |-> p.G, Gu |-> p.Gu, F |-> p.F,
       L |-> L, S |-> MMulN(L, TransposeN(L, m), m),
       ybar |-> TLCEval([i \in 1..n |-> Pick(Ybars, Hash(s, k, 800 + i))]),
       eig |-> p.geig \o finv, geig |-> p.geig, feig |-> p.feig, ix |-> Classify(A, B, C, n)]

Digits(code, n) == TLCEval([i \in 1..n |-> ClassOf((code \div (4 ^ (i - 1))) % 4)])

(* the k-th case: all class assignments of 1..3 variables first (84), then 4    *)
(* and 5 variables by sampling; kinds cycle                                     *)
NumAll == 4 + 16 + 64
SizeOf(s, k) == LET j == k % (2 * NumAll) IN
                IF j < 4 THEN 1 ELSE IF j < 20 THEN 2 ELSE IF j < 84 THEN 3
                ELSE IF (j % 3) = 0 THEN 5 ELSE 4
CodeOf(s, k) == LET j == k % (2 * NumAll) IN
                IF j < 4 THEN j ELSE IF j < 20 THEN j - 4 ELSE IF j < 84 THEN j - 20
                ELSE Hash(s, k, 1) % 1024
ShockCount(s, k) == << 1, 2, 1, 3, 2, 1 >>[(Hash(s, k, 2) % 6) + 1]

(* two static variables that enter only through one combination of them: the    *)
(* equations cannot tell them apart, so no solution is identified               *)
Collinear(c) ==
  LET i == c.ix.static[1]
      j == c.ix.static[2]
      col(X) == TLCEval([r \in 1..c.n |-> [X[r] EXCEPT ![j] = RMul(<<2, 1>>, X[r][i])]])
      B2 == col(c.B)
  IN  [c EXCEPT !.B = B2, !.kind = "static", !.ix = Classify(c.A, B2, c.C, c.n)]

(* the requested kind, weakened to "ok" when the classes do not allow it *)
MakeKind(s, k, want, m) ==
  LET n == SizeOf(s, k)
      cl == Digits(CodeOf(s, k), n)
      hasB == \E i \in 1..n : cl[i] \in {Back, Mix}
      hasF == \E i \in 1..n : cl[i] \in {Mix, Fwd}
      kind == CASE want \in {"expl", "unit"} -> IF hasB THEN want ELSE "ok"
                [] want \in {"indet", "funit"} -> IF hasF THEN want ELSE "ok"
                [] OTHER -> want
  IN  IF want = "static"
      THEN LET c2 == Digits(Hash(s, k, 7), 4)
               c1 == [c2 EXCEPT ![(Hash(s, k, 8) % 3) + 1] = Stat, ![4] = Stat]
           IN  Collinear(Assemble(s, k, Part(s, k, 4, m, c1, "ok"), m, "ok"))
      ELSE IF want = "rank"
      THEN LET c2 == Digits(Hash(s, k, 3), 2)
               c1 == [c2 EXCEPT ![1] = Pick(<<Back, Mix>>, Hash(s, k, 4))]
               d2 == Digits(Hash(s, k, 5), 2)
               d1 == [d2 EXCEPT ![1] = Pick(<<Fwd, Mix>>, Hash(s, k, 6))]
           IN  Assemble(s, k, Join(Part(s, k, 2, m, c1, "expl1"), Part(s, k + 1, 2, m, d1, "indet1")), m, "rank")
      ELSE Assemble(s, k, Part(s, k, n, m, cl, kind), m, kind)

(* a singular covariance of the shocks: one of them has no variance, or is a       *)
(* linear combination of the earlier ones                                          *)
Degenerate(s, c) ==
  IF c.m = 0 \/ (Hash(s, c.k, 15) % 5) # 0 THEN c ELSE
  LET j == (Hash(s, c.k, 16) % c.m) + 1
      silent == j = 1 \/ (Hash(s, c.k, 17) % 2) = 0
      L == TLCEval([r \in 1..c.m |-> TLCEval([l \in 1..c.m |->
             IF l = j \/ (r = j /\ silent) THEN Zero ELSE c.L[r][l]])])
  IN  [c EXCEPT !.L = L, !.S = MMulN(L, TransposeN(L, c.m), c.m)]

(* ------------------------------ theorems ----------------------------------- *)
(* substituting the rule makes every equation zero for every state and shock   *)
SolvesModel(c) ==
  /\ IsZeroM(MAdd(MAdd(MMul(c.C, MMul(c.G, c.G)), MMul(c.B, c.G)), c.A))
  /\ IsZeroM(MAdd(MAdd(MMulN(c.C, MMulN(c.G, c.Gu, c.m), c.m), MMulN(c.B, c.Gu, c.m)), c.D))
OrdersInverse(c) ==
  /\ \A i \in 1..c.n : c.ix.dr[c.ix.dc[i]] = i /\ c.ix.dc[c.ix.dr[i]] = i
  /\ {c.ix.dr[i] : i \in 1..c.n} = 1..c.n
  /\ Len(c.ix.static) + Len(c.ix.back) + Len(c.ix.mixed) + Len(c.ix.fwd) = c.n
ModelKnown(c) == /\ Known(c.A) /\ Known(c.B) /\ Known(c.C) /\ Known(c.D) /\ Known(c.S)
                 /\ Known(c.G) /\ Known(c.F)
(* number of eigenvalues, and the order condition, agree with the kind *)
Explosive(c) == Cardinality({i \in 1..Len(c.eig) : Unstable(c.eig[i])})
BKOrder(c) == /\ Len(c.eig) = Len(c.ix.state) + Len(c.ix.forward)
              /\ CASE c.kind \in {"ok", "unit", "rank", "static"} -> Explosive(c) = Len(c.ix.forward)
                   [] c.kind \in {"indet", "funit"} -> Explosive(c) < Len(c.ix.forward)
                   [] c.kind = "expl" -> Explosive(c) > Len(c.ix.forward)
(* trace of G and of G^2 against the listed eigenvalues *)
SumRe(z) == RSum([i \in 1..Len(z) |-> z[i][1]])
SumRe2(z) == RSum([i \in 1..Len(z) |-> RSub(RMul(z[i][1], z[i][1]), RMul(z[i][2], z[i][2]))])
Trace(X) == RSum([i \in 1..Len(X) |-> X[i][i]])
EigTrace(c) == /\ Trace(c.G) = SumRe(c.geig) /\ Trace(MMul(c.G, c.G)) = SumRe2(c.geig)
               /\ Trace(c.F) = SumRe(c.feig) /\ Trace(MMul(c.F, c.F)) = SumRe2(c.feig)
=============================================================================
