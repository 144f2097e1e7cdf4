-------------------------------- MODULE Fun --------------------------------
(* Equations as functions.  A model of n variables and m shocks has the slots  *)
(*   3(v-1)+1, 3(v-1)+2, 3(v-1)+3   variable v in the previous, current, next  *)
(*                                  period                                     *)
(*   3n+j                           shock j                                    *)
(* and an equation is a tree over slots, parameters and constants:             *)
(*   <<"N",a,b>> a/b   <<"V",s>> slot s   <<"P",i>> parameter i                *)
(*   <<"F",f,t>>  <<"u","-",t>>  <<"b",op,l,r>>                                *)
(* Derivatives are defined by the rules of calculus (D); for trees of rational *)
(* operations they are also computed as exact two-jets, and the two agree      *)
(* (theorem JetsAgree).                                                        *)
EXTENDS Rat

Num(a, b) == <<"N", a, b>>
T0 == Num(0, 1)
T1 == Num(1, 1)
IsN(t, a) == t[1] = "N" /\ t[2] = a /\ t[3] = 1
Slot(v, o) == 3 * (v - 1) + o + 2
VarOf(s) == ((s - 1) \div 3) + 1
OffOf(s) == ((s - 1) % 3) - 1

Fn(f, t) == <<"F", f, t>>
Neg(t) == IF IsN(t, 0) THEN T0 ELSE <<"u", "-", t>>
Add(a, b) == IF IsN(a, 0) THEN b ELSE IF IsN(b, 0) THEN a ELSE <<"b", "+", a, b>>
Sbt(a, b) == IF IsN(b, 0) THEN a ELSE IF IsN(a, 0) THEN Neg(b) ELSE <<"b", "-", a, b>>
Mul(a, b) == IF IsN(a, 0) \/ IsN(b, 0) THEN T0 ELSE IF IsN(a, 1) THEN b ELSE IF IsN(b, 1) THEN a
             ELSE <<"b", "*", a, b>>
Dvd(a, b) == IF IsN(a, 0) THEN T0 ELSE IF IsN(b, 1) THEN a ELSE <<"b", "/", a, b>>
Pow(a, b) == IF IsN(b, 0) THEN T1 ELSE IF IsN(b, 1) THEN a ELSE <<"b", "^", a, b>>

RECURSIVE Uses(_)
Uses(t) == CASE t[1] = "V" -> {t[2]}
             [] t[1] \in {"N", "P"} -> {}
             [] t[1] \in {"F", "u"} -> Uses(t[3])
             [] OTHER -> Uses(t[3]) \cup Uses(t[4])

(* derivative of the function f at t *)
DF(f, t) ==
  CASE f = "exp" -> Fn("exp", t)
    [] f \in {"log", "ln"} -> Dvd(T1, t)
    [] f = "log10" -> Dvd(T1, Mul(t, Fn("ln", Num(10, 1))))
    [] f = "sqrt" -> Dvd(Num(1, 2), Fn("sqrt", t))
    [] f = "abs" -> Fn("sign", t)
    [] f = "sign" -> T0
    [] f = "sin" -> Fn("cos", t)
    [] f = "cos" -> Neg(Fn("sin", t))
    [] f = "tan" -> Add(T1, Pow(Fn("tan", t), Num(2, 1)))
    [] f = "asin" -> Dvd(T1, Fn("sqrt", Sbt(T1, Pow(t, Num(2, 1)))))
    [] f = "acos" -> Neg(Dvd(T1, Fn("sqrt", Sbt(T1, Pow(t, Num(2, 1))))))
    [] f = "atan" -> Dvd(T1, Add(T1, Pow(t, Num(2, 1))))
    [] f = "erf" -> Mul(Dvd(T1, Fn("sqrt", Fn("atan", T1))), Fn("exp", Neg(Pow(t, Num(2, 1)))))   \* 2/sqrt(pi) = 1/sqrt(atan 1)

RECURSIVE D(_, _)
D(t, s) ==
  IF s \notin Uses(t) THEN T0
  ELSE CASE t[1] = "V" -> T1
         [] t[1] = "F" -> Mul(DF(t[2], t[3]), D(t[3], s))
         [] t[1] = "u" -> IF t[2] = "-" THEN Neg(D(t[3], s)) ELSE D(t[3], s)
         [] t[2] = "+" -> Add(D(t[3], s), D(t[4], s))
         [] t[2] = "-" -> Sbt(D(t[3], s), D(t[4], s))
         [] t[2] = "*" -> Add(Mul(D(t[3], s), t[4]), Mul(t[3], D(t[4], s)))
         [] t[2] = "/" -> Sbt(Dvd(D(t[3], s), t[4]), Dvd(Mul(t[3], D(t[4], s)), Pow(t[4], Num(2, 1))))
         [] OTHER ->      \* power
            LET base == IF s \in Uses(t[3])
                        THEN Mul(Mul(t[4], Pow(t[3], IF t[4][1] = "N" THEN LET q == RSub(<<t[4][2], t[4][3]>>, One) IN Num(q[1], q[2])
                                                     ELSE Sbt(t[4], T1))), D(t[3], s)) ELSE T0
                expo == IF s \in Uses(t[4]) THEN Mul(Mul(t, Fn("ln", t[3])), D(t[4], s)) ELSE T0
            IN  Add(base, expo)

(* exact value; Bad when it is not (known to be) rational *)
ROf(q, r) == IF r[2] # 1 \/ Abs(r[1]) > 4 THEN (IF q = One THEN One ELSE Bad)
             ELSE IF r[1] >= 0 THEN RPow(q, r[1]) ELSE IF q[1] = 0 THEN Bad ELSE RInv(RPow(q, -r[1]))
FVal(f, q) == CASE f = "abs" -> IF q[1] = 0 THEN Bad ELSE RAbs(q)
                [] f = "sign" -> IF q[1] = 0 THEN Bad ELSE I(RSgn(q))
                [] f \in {"exp", "cos"} -> IF q = Zero THEN One ELSE Bad
                [] f \in {"sin", "tan", "asin", "atan", "erf"} -> IF q = Zero THEN Zero ELSE Bad
                [] f \in {"log", "ln", "log10", "acos"} -> IF q = One THEN Zero ELSE Bad
                [] f = "sqrt" -> IF q = One THEN One ELSE IF q = I(4) THEN I(2) ELSE IF q = <<1, 4>> THEN <<1, 2>>
                                 ELSE IF q = <<9, 4>> THEN <<3, 2>> ELSE Bad
                [] OTHER -> Bad
RECURSIVE Val(_, _, _)
Val(t, x, p) ==
  CASE t[1] = "N" -> Q(t[2], t[3])
    [] t[1] = "V" -> x[t[2]]
    [] t[1] = "P" -> p[t[2]]
    [] t[1] = "F" -> LET a == Val(t[3], x, p) IN IF a[2] = 0 THEN Bad ELSE FVal(t[2], a)
    [] t[1] = "u" -> LET a == Val(t[3], x, p) IN IF t[2] = "-" THEN RNeg(a) ELSE a
    [] OTHER -> LET a == Val(t[3], x, p)
                    b == Val(t[4], x, p)
                IN  IF a[2] = 0 \/ b[2] = 0 THEN Bad
                    ELSE CASE t[2] = "+" -> RAdd(a, b)
                           [] t[2] = "-" -> RSub(a, b)
                           [] t[2] = "*" -> RMul(a, b)
                           [] t[2] = "/" -> IF b[1] = 0 THEN Bad ELSE RDiv(a, b)
                           [] OTHER -> ROf(a, b)

(* jets at x along the plane spanned by slots a and b:                         *)
(*   <<f, df/da, df/db, d2f/dadb>> in the algebra of (1, e1, e2, e1 e2)         *)
JC(q) == << q, Zero, Zero, Zero >>
JA(u, v) == TLCEval([i \in 1..4 |-> RAdd(u[i], v[i])])
JN(u) == TLCEval([i \in 1..4 |-> RNeg(u[i])])
JM(u, v) == << RMul(u[1], v[1]), RAdd(RMul(u[1], v[2]), RMul(u[2], v[1])),
               RAdd(RMul(u[1], v[3]), RMul(u[3], v[1])),
               RAdd(RAdd(RMul(u[1], v[4]), RMul(u[4], v[1])), RAdd(RMul(u[2], v[3]), RMul(u[3], v[2]))) >>
(* g o u where g has value g0, first and second derivative g1, g2 at u[1] *)
JG(u, g0, g1, g2) == << g0, RMul(g1, u[2]), RMul(g1, u[3]),
                        RAdd(RMul(g1, u[4]), RMul(g2, RMul(u[2], u[3]))) >>
JBad == << Bad, Bad, Bad, Bad >>
JInv(u) == IF u[1][1] = 0 THEN JBad
           ELSE LET i == RInv(u[1]) IN JG(u, i, RNeg(RMul(i, i)), RMul(I(2), RMul(i, RMul(i, i))))
RECURSIVE JPowN(_, _)
JPowN(u, k) == IF k = 0 THEN JC(One) ELSE JM(u, JPowN(u, k - 1))
JFun(f, u) ==
  LET q == u[1] IN
  CASE f = "abs" /\ q[1] # 0 -> JG(u, RAbs(q), I(RSgn(q)), Zero)
    [] f = "sign" /\ q[1] # 0 -> JC(I(RSgn(q)))
    [] f = "exp" /\ q = Zero -> JG(u, One, One, One)
    [] f \in {"sin", "tan", "asin", "atan"} /\ q = Zero -> JG(u, Zero, One, Zero)
    [] f = "cos" /\ q = Zero -> JG(u, One, Zero, I(-1))
    [] f \in {"log", "ln"} /\ q = One -> JG(u, Zero, One, I(-1))
    [] f = "sqrt" /\ FVal("sqrt", q)[2] # 0 ->
         LET r == FVal("sqrt", q)
             d == RDiv(<<1, 2>>, r)
         IN  JG(u, r, d, RNeg(RDiv(d, RMul(I(2), q))))
    [] OTHER -> JBad
RECURSIVE Jet(_, _, _, _, _)
Jet(t, x, p, a, b) ==
  CASE t[1] = "N" -> JC(Q(t[2], t[3]))
    [] t[1] = "P" -> JC(p[t[2]])
    [] t[1] = "V" -> << x[t[2]], IF t[2] = a THEN One ELSE Zero, IF t[2] = b THEN One ELSE Zero, Zero >>
    [] t[1] = "u" -> LET u == Jet(t[3], x, p, a, b) IN IF t[2] = "-" THEN JN(u) ELSE u
    [] t[1] = "F" -> LET u == Jet(t[3], x, p, a, b) IN IF u[1][2] = 0 THEN JBad ELSE JFun(t[2], u)
    [] OTHER -> LET u == Jet(t[3], x, p, a, b)
                    v == Jet(t[4], x, p, a, b)
                IN  CASE t[2] = "+" -> JA(u, v)
                      [] t[2] = "-" -> JA(u, JN(v))
                      [] t[2] = "*" -> JM(u, v)
                      [] t[2] = "/" -> IF v[1][2] = 0 THEN JBad ELSE JM(u, JInv(v))
                      [] OTHER -> IF t[4][1] = "N" /\ t[4][3] = 1 /\ t[4][2] \in 0..4 THEN JPowN(u, t[4][2]) ELSE JBad

(* theorems about one tree at one point *)
JetsAgree(t, x, p) ==
  \A a \in Uses(t) : LET da == D(t, a) IN
    \A b \in Uses(t) :
      LET j == Jet(t, x, p, a, b)
          va == Val(da, x, p)
          vab == Val(D(da, b), x, p)
      IN  /\ (j[2][2] # 0 /\ va[2] # 0 => j[2] = va)
          /\ (j[4][2] # 0 /\ vab[2] # 0 => j[4] = vab)
Symmetric(t, x, p) == \A a, b \in Uses(t) : LET u == Val(D(D(t, a), b), x, p)
                                               v == Val(D(D(t, b), a), x, p)
                                           IN  u[2] # 0 /\ v[2] # 0 => u = v
(* the static tree: every period of a variable is its current one, shocks are 0 *)
RECURSIVE Static(_, _)
Static(t, n) == CASE t[1] = "V" -> IF t[2] > 3 * n THEN T0 ELSE <<"V", Slot(VarOf(t[2]), 0)>>
                  [] t[1] \in {"N", "P"} -> t
                  [] t[1] \in {"F", "u"} -> <<t[1], t[2], Static(t[3], n)>>
                  [] OTHER -> <<"b", t[2], Static(t[3], n), Static(t[4], n)>>
(* its derivative is the sum over the periods *)
StaticSums(t, x, p, n) ==
  \A v \in 1..n :
    LET s == Val(D(Static(t, n), Slot(v, 0)), x, p)
        y == RAdd(RAdd(Val(D(t, Slot(v, -1)), x, p), Val(D(t, Slot(v, 0)), x, p)), Val(D(t, Slot(v, 1)), x, p))
    IN  s[2] # 0 /\ y[2] # 0 => s = y
(* the equation with its slots frozen at their values *)
RECURSIVE Freeze(_, _)
Freeze(t, x) == CASE t[1] = "V" -> Num(x[t[2]][1], x[t[2]][2])
                  [] t[1] \in {"N", "P"} -> t
                  [] t[1] \in {"F", "u"} -> <<t[1], t[2], Freeze(t[3], x)>>
                  [] OTHER -> <<"b", t[2], Freeze(t[3], x), Freeze(t[4], x)>>
=============================================================================
