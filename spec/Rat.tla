-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers <<n, d>> (d > 0, lowest terms), vectors and          *)
(* matrices over them, and Gaussian elimination.  TLC integers are 32 bit: a    *)
(* result is exact or explicitly unknown (Bad), never rounded.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Q(n, d) == LET g == GCD(Abs(n), Abs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN  IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
I(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>

(* a product or sum that does not fit in 32 bits is Bad: a number the           *)
(* specification does not know.  Cases containing one are dropped (see Known).  *)
Bad == <<1, 0>>
Lim == 1000000000
Fits(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= Lim \div Abs(b)

RAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[2] = 0 \/ b[2] = 0 THEN Bad
              ELSE LET g == GCD(a[2], b[2])
                       m == b[2] \div g
                       l == a[2] \div g
                   IN  IF Fits(a[1], m) /\ Fits(b[1], l) /\ Fits(a[2], m)
                       THEN Q(a[1] * m + b[1] * l, a[2] * m) ELSE Bad
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero
              ELSE IF a[2] = 0 \/ b[2] = 0 THEN Bad
              ELSE LET g == GCD(Abs(a[1]), b[2])
                       h == GCD(Abs(b[1]), a[2])
                   IN  IF Fits(a[1] \div g, b[1] \div h) /\ Fits(a[2] \div h, b[2] \div g)
                       THEN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
                       ELSE Bad
RInv(a) == IF a[2] = 0 THEN Bad ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
REq(a, b) == a = b
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLt(a, b) == RSgn(RSub(a, b)) < 0
RLe(a, b) == RSgn(RSub(a, b)) <= 0
RAbs(a) == <<Abs(a[1]), a[2]>>
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RHalf(a) == RMul(a, <<1, 2>>)

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN One ELSE RMul(a, RPow(a, k - 1))

RECURSIVE RSumTo(_, _)
RSumTo(f, k) == IF k = 0 THEN Zero ELSE RAdd(RSumTo(f, k - 1), f[k])
RSum(f) == RSumTo(f, Len(f))             \* f a sequence of rationals

(* ---- vectors and matrices: sequences of sequences, row major ---- *)
Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Mk(m, n, Op(_, _)) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> Op(i, j)])])
ZeroM(m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> Zero])])
Eye(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN One ELSE Zero])])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])])])
MNeg(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> RNeg(A[i][j])])])
MSub(A, B) == MAdd(A, MNeg(B))
MScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> RMul(c, A[i][j])])])
Dot(u, v) == RSum(TLCEval([k \in 1..Len(u) |-> RMul(u[k], v[k])]))
TransposeN(A, n) == TLCEval([j \in 1..n |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])   \* n = columns of A
Tr(A) == TransposeN(A, Cols(A))
(* A is m x k, B is k x n; n must be given when k may be zero *)
MMulN(A, B, n) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..n |->
                     RSum(TLCEval([k \in 1..Len(A[i]) |-> RMul(A[i][k], B[k][j])]))])])
MMul(A, B) == MMulN(A, B, Cols(B))
MVec(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v)])
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VNeg(u) == TLCEval([i \in 1..Len(u) |-> RNeg(u[i])])
VSub(u, v) == VAdd(u, VNeg(v))
VScale(c, u) == TLCEval([i \in 1..Len(u) |-> RMul(c, u[i])])
ZeroV(n) == TLCEval([i \in 1..n |-> Zero])
IsZeroM(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : A[i][j][1] = 0
IsZeroV(v) == \A i \in 1..Len(v) : v[i][1] = 0
Sub(A, rs, cs) == TLCEval([i \in 1..Len(rs) |-> TLCEval([j \in 1..Len(cs) |-> A[rs[i]][cs[j]]])])
SubRows(A, rs) == TLCEval([i \in 1..Len(rs) |-> A[rs[i]]])
SubCols(A, cs) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(cs) |-> A[i][cs[j]]])])
SubV(v, cs) == TLCEval([j \in 1..Len(cs) |-> v[cs[j]]])
HCat(A, B) == TLCEval([i \in 1..Len(A) |-> A[i] \o B[i]])

KnownV(v) == \A i \in 1..Len(v) : v[i][2] # 0
Known(A) == \A i \in 1..Len(A) : KnownV(A[i])

(* Kronecker product of two vectors, first index slowest *)
Kron(u, v) == TLCEval([k \in 1..(Len(u) * Len(v)) |->
                 RMul(u[((k - 1) \div Len(v)) + 1], v[((k - 1) % Len(v)) + 1])])
Vec(A) == TLCEval([k \in 1..(Rows(A) * Cols(A)) |-> A[((k - 1) \div Cols(A)) + 1][((k - 1) % Cols(A)) + 1]])

(* ---- Gauss-Jordan on an augmented matrix; <<>> when singular ---- *)
RECURSIVE Elim(_, _, _)
Elim(W, k, n) ==
  IF k > n THEN W
  ELSE LET piv == {i \in k..n : W[i][k][1] # 0}
       IN  IF piv = {} THEN <<>>
           ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                    S == [W EXCEPT ![k] = W[p], ![p] = W[k]]
                    c == RInv(S[k][k])
                    R == [S EXCEPT ![k] = VScale(c, S[k])]
                    T == TLCEval([i \in 1..n |-> IF i = k \/ R[i][k][1] = 0 THEN R[i]
                                         ELSE VSub(R[i], VScale(R[i][k], R[k]))])
                IN  Elim(T, k + 1, n)
SolveM(A, B) == LET n == Len(A)
                    W == Elim(HCat(A, B), 1, n)
                IN  IF W = <<>> THEN <<>>
                    ELSE TLCEval([i \in 1..n |-> SubSeq(W[i], n + 1, Len(W[i]))])
SolveV(A, b) == LET X == SolveM(A, TLCEval([i \in 1..Len(A) |-> <<b[i]>>]))
                IN  IF X = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(A) |-> X[i][1]])
InvM(A) == SolveM(A, Eye(Len(A)))
Singular(A) == InvM(A) = <<>>

(* ---- small deterministic choice from an index (reproducible sampling) ---- *)
(* a value in 0..m-1 from salt a, index k and seed s; no 32-bit overflow *)
Hash(s, k, a) == LET x == (s * 613 + k * 997 + a * 7919 + 12345) % 30011
                     y == (x * x) % 30011
                     z == (y * 31 + x * 17 + a * 101 + k) % 30011
                     w == (z * 1103 + k * 7 + s) % 30011
                 IN  (w * 37 + ((z * z) % 30011)) % 29989
Pick(seq, h) == seq[(h % Len(seq)) + 1]
=============================================================================
