-------------------------------- MODULE Occ --------------------------------
(* Occasionally binding constraints as a piecewise-linear model.               *)
(*                                                                            *)
(* A reference model (LinRE: A y(-1) + B y + C y(+1) + D u = 0 with rule G, Gu) *)
(* in which a variable v follows its notional value s; while a constraint      *)
(* binds, the equation v = s is replaced by another one (v at its bound, or    *)
(* moving with other variables), which has a constant.  A regime is a number   *)
(* whose bits say which constraints bind.                                      *)
(*                                                                            *)
(* Agents see today's shock, expect none later, and foresee a sequence of      *)
(* regimes h after which the reference rule holds for ever.  Given h the path  *)
(* is y = P_h y(-1) + D_h (+ Q_h u in the first period) with                   *)
(*   P, D, Q of <<>>      = G, 0, Gu                                           *)
(*   P, D, Q of <<r>> \o h = -X (A_r,  C_r D_h + k_r,  D_r),                   *)
(*                           X = (C_r P_h + B_r)^-1                            *)
(* A plan is consistent when, in every period, a slack constraint is not       *)
(* violated and a binding one has not become slack.                            *)
EXTENDS LinRE

Bit(r, j) == ((r \div (2 ^ (j - 1))) % 2) = 1

RECURSIVE Trim(_)
Trim(h) == IF h = <<>> THEN h ELSE IF h[Len(h)] = 0 THEN Trim(SubSeq(h, 1, Len(h) - 1)) ELSE h
RegimeAt(h, i) == IF i <= Len(h) THEN h[i] ELSE 0

(* rows of regime r: those of the reference with the bound rows replaced *)
RowsOf(c, X, alt, r) == TLCEval([i \in 1..c.n |->
   IF i > c.core /\ Bit(r, i - c.core) THEN alt[i - c.core] ELSE X[i]])
ConstOf(c, r) == TLCEval([i \in 1..c.n |->
   IF i > c.core /\ Bit(r, i - c.core) THEN c.alt[i - c.core].k ELSE Zero])
AltA(c) == TLCEval([j \in 1..Len(c.alt) |-> c.alt[j].a])
AltB(c) == TLCEval([j \in 1..Len(c.alt) |-> c.alt[j].b])
AltC(c) == TLCEval([j \in 1..Len(c.alt) |-> c.alt[j].c])
AltD(c) == TLCEval([j \in 1..Len(c.alt) |-> c.alt[j].d])
Regime(c, r) == [A |-> RowsOf(c, c.A, AltA(c), r), B |-> RowsOf(c, c.B, AltB(c), r),
                 C |-> RowsOf(c, c.C, AltC(c), r), D |-> RowsOf(c, c.D, AltD(c), r),
                 k |-> ConstOf(c, r)]

(* the rule of the first period of the regimes h, as <<P, D, Q>>; <<>> if none *)
Back1(c, r, next) ==
  IF next = <<>> THEN <<>>
  ELSE LET g == Regime(c, r)
           X == MAdd(MMul(g.C, next[1]), g.B)
           S == SolveM(X, HCat(HCat(g.A, g.D),
                               TLCEval([i \in 1..c.n |-> <<RAdd(Dot(g.C[i], next[2]), g.k[i])>>])))
           N == MNeg(S)
           seg(a, b) == TLCEval([i \in 1..c.n |-> SubSeq(N[i], a, b)])
       IN  IF ~Known(X) \/ S = <<>> THEN <<>>
           ELSE IF ~Known(S) THEN <<>>
           ELSE << seg(1, c.n), TLCEval([i \in 1..c.n |-> N[i][c.n + c.m + 1]]), seg(c.n + 1, c.n + c.m) >>
RECURSIVE Rule(_, _)
Rule(c, h) == IF h = <<>> THEN << c.G, ZeroV(c.n), c.Gu >>
              ELSE Back1(c, h[1], Rule(c, Tail(h)))

(* the foreseen path of N periods from y with today's shock u; <<>> if unknown *)
RECURSIVE Rest(_, _, _, _)
Rest(c, h, y, N) ==
  IF N = 0 THEN <<>>
  ELSE LET rl == Rule(c, h)
           z == VAdd(MVec(rl[1], y), rl[2])
       IN  <<z>> \o Rest(c, IF h = <<>> THEN h ELSE Tail(h), z, N - 1)
Plan(c, h, y, u, N) ==
  LET rl == Rule(c, h) IN
  IF rl = <<>> THEN <<>>
  ELSE LET z == VAdd(VAdd(MVec(rl[1], y), rl[2]), MVec(rl[3], u))
           p == <<z>> \o Rest(c, IF h = <<>> THEN h ELSE Tail(h), z, N - 1)
       IN  IF Known(p) THEN p ELSE <<>>

(* the conditions of constraint j: lhs is compared with zero *)
BindGap(c, j, y) == LET k == c.con[j] IN RMul(k.sg, RSub(y[k.w], k.bound))      \* binds when negative
RelaxGap(c, j, y) == LET k == c.con[j] IN RMul(k.sg, RSub(y[c.core + j], k.bound)) \* slack when positive
Binds(c, j, y) == RSgn(BindGap(c, j, y)) < 0
Relaxes(c, j, y) == RSgn(RelaxGap(c, j, y)) > 0
NC(c) == Len(c.con)
Consistent(c, h, p) == \A i \in 1..Len(p) : \A j \in 1..NC(c) :
                          IF Bit(RegimeAt(h, i), j) THEN ~Relaxes(c, j, p[i]) ELSE ~Binds(c, j, p[i])
(* a comparison that rounding could decide either way *)
Tie(c, h, p) == \E i \in 1..Len(p) : \E j \in 1..NC(c) :
                   (IF Bit(RegimeAt(h, i), j) THEN RelaxGap(c, j, p[i]) ELSE BindGap(c, j, p[i]))[1] = 0
(* the next guess of regimes: what the conditions say along the path *)
Guess(c, h, p) == Trim([i \in 1..Len(p) |->
   LET b(j) == IF j > NC(c) THEN FALSE
               ELSE IF Bit(RegimeAt(h, i), j) THEN ~Relaxes(c, j, p[i]) ELSE Binds(c, j, p[i])
   IN  (IF b(1) THEN 1 ELSE 0) + (IF b(2) THEN 2 ELSE 0)])

(* equations of the regime in force under the foreseen path hold exactly *)
ResidAt(c, r, yl, y, yn, u) ==
  LET g == Regime(c, r) IN
  VAdd(VAdd(VAdd(MVec(g.A, yl), MVec(g.B, y)), VAdd(MVec(g.C, yn), MVec(g.D, u))), g.k)
PlanHolds(c, h, y, u, p) ==
  \A i \in 1..Len(p) :
     LET nx == IF i < Len(p) THEN p[i + 1] ELSE MVec(c.G, p[i])
         e == ResidAt(c, RegimeAt(h, i), IF i = 1 THEN y ELSE p[i - 1], p[i], nx,
                      IF i = 1 THEN u ELSE ZeroV(c.m))
     IN  KnownV(e) => IsZeroV(e)

(* ------------------------------ the models -------------------------------- *)
Stable == << <<1,2>>, <<1,2>>, <<-1,2>>, <<0,1>>, <<3,4>> >>
RealBlocks(s, k, salt, m, nz, pool) == [p \in 1..m |->
   LET r == Pick(pool, Hash(s, k, salt + 3 * p)) IN
   [p |-> p, c |-> FALSE, e |-> << IF nz /\ r[1] = 0 THEN <<1, 2>> ELSE r, Zero >>]]
Wide == << <<7,8>>, <<1,2>>, <<-1,2>>, <<0,1>>, <<3,4>>, <<7,8>> >>
Core(s, k, n, m, pool) ==
  LET cl == Digits(Hash(s, k, 1000) % (4 ^ n), n)
      isF0 == [i \in 1..n |-> cl[i] \in {Mix, Fwd}]
      isB == [i \in 1..n |-> cl[i] \in {Back, Mix}]
      bs == Where(isB)
      fs == Where(isF0)
      GB == FromBlocks(s, k, 1020, RealBlocks(s, k, 1030, Len(bs), Len(bs) = n, pool), Len(bs))
      FB == FromBlocks(s, k, 1070, RealBlocks(s, k, 1080, Len(fs), Len(fs) = n, Stable), Len(fs))
  IN  [n |-> n, G |-> Spread(s, k, 1020, n, bs, GB), F |-> Spread(s, k, 1070, n, fs, FB),
       Gu |-> TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> Pick(Gus, Hash(s, k, 1100 + 10 * i + j))])])]
Mixing(s, k, n) ==
  LET D == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
              IF i = j THEN Pick(<< One, <<-1, 1>>, <<2, 1>>, One >>, Hash(s, k, 1120 + i)) ELSE Zero])])
  IN  AddRow(D, (Hash(s, k, 1130) % n) + 1, (Hash(s, k, 1131) % n) + 1, Pick(<< One, <<-1, 1>> >>, Hash(s, k, 1132)))

Bounds == << <<1,2>>, <<1,4>>, <<1,8>>, <<1,4>>, <<1,1>> >>
Coefs == << <<1,2>>, <<-1,2>>, <<1,4>>, <<1,1>> >>
UnitV(n, i, x) == TLCEval([j \in 1..n |-> IF j = i THEN x ELSE Zero])

(* nc constraints on a core of n variables *)
Make(s, k, n, m, nc, pool) ==
  LET p == Core(s, k, n, m, pool)
      M == Mixing(s, k, n)
      A == MNeg(MMul(M, p.G))
      B == MMul(M, MAdd(Eye(n), MMul(p.F, p.G)))
      C == MNeg(MMul(M, p.F))
      D == MNeg(MMulN(M, p.Gu, m))
      N == n + nc
      \* which variable, and which equation loses it to its notional value
      pairs == {x \in (1..n) \X (1..n) : B[x[1]][x[2]][1] # 0}
      hits == IF nc = 1 THEN {<<x>> : x \in pairs}
              ELSE {<<x, y>> : x \in pairs, y \in pairs} \ {z \in {<<x, y>> : x \in pairs, y \in pairs} :
                       z[1][1] = z[2][1] \/ z[1][2] = z[2][2]}
  IN  IF hits = {} THEN <<>>
      ELSE
      LET ord(z) == IF Len(z) = 1 THEN 10 * z[1][1] + z[1][2]
                    ELSE 1000 * z[1][1] + 100 * z[1][2] + 10 * z[2][1] + z[2][2]
          want == Hash(s, k, 1140) % Cardinality(hits)
          sel == CHOOSE z \in hits : Cardinality({w \in hits : ord(w) < ord(z)}) = want
          v(j) == sel[j][2]
          ext(X) == TLCEval([i \in 1..N |-> TLCEval([l \in 1..N |->
                       IF i <= n /\ l <= n THEN X[i][l] ELSE Zero])])
          B2 == TLCEval([i \in 1..N |-> TLCEval([l \in 1..N |->
                   IF i <= n
                   THEN IF l <= n THEN (IF \E j \in 1..nc : sel[j] = <<i, l>> THEN Zero ELSE B[i][l])
                        ELSE (IF sel[l - n][1] = i THEN B[i][v(l - n)] ELSE Zero)
                   ELSE IF l = v(i - n) THEN One ELSE IF l = i THEN <<-1, 1>> ELSE Zero])])
          G2 == TLCEval([i \in 1..N |-> TLCEval([l \in 1..N |->
                   IF l > n THEN Zero ELSE p.G[IF i <= n THEN i ELSE v(i - n)][l]])])
          Gu2 == TLCEval([i \in 1..N |-> p.Gu[IF i <= n THEN i ELSE v(i - n)]])
          D2 == TLCEval([i \in 1..N |-> IF i <= n THEN D[i] ELSE ZeroV(m)])
          sg(j) == IF (Hash(s, k, 1150 + j) % 2) = 0 THEN One ELSE <<-1, 1>>
          bd(j) == RMul(RNeg(sg(j)), Pick(Bounds, Hash(s, k, 1154 + j)))
          kind(j) == Hash(s, k, 1158 + j) % 6
          w(j) == (Hash(s, k, 1162 + j) % n) + 1
          cf(j) == Pick(Coefs, Hash(s, k, 1166 + j))
          oth(j) == IF w(j) = v(j) THEN ZeroV(N) ELSE UnitV(N, w(j), cf(j))
          alt(j) == [a |-> IF kind(j) = 1 THEN UnitV(N, w(j), cf(j)) ELSE ZeroV(N),
                     b |-> VAdd(UnitV(N, v(j), One), IF kind(j) = 2 THEN oth(j) ELSE ZeroV(N)),
                     c |-> IF kind(j) = 3 THEN UnitV(N, w(j), cf(j)) ELSE ZeroV(N),
                     d |-> IF kind(j) = 4 THEN UnitV(m, 1, cf(j)) ELSE ZeroV(m),
                     k |-> RNeg(bd(j))]
          A2 == ext(A)
          C2 == ext(C)
      IN  [k |-> k, n |-> N, m |-> m, core |-> n, A |-> A2, B |-> B2, C |-> C2, D |-> D2,
           G |-> G2, Gu |-> Gu2, F |-> ext(p.F),
           alt |-> TLCEval([j \in 1..nc |-> alt(j)]),
           con |-> TLCEval([j \in 1..nc |-> [sg |-> sg(j), bound |-> bd(j), v |-> v(j),
                     \* the binding condition may look at the variable or at its notional value
                     w |-> IF (Hash(s, k, 1170 + j) % 3) = 0 THEN n + j ELSE v(j)]]),
           S |-> Eye(m), ybar |-> TLCEval([i \in 1..N |-> Pick(Ybars, Hash(s, k, 1180 + i))])]
=============================================================================
