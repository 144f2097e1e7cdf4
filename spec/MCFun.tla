------------------------------- MODULE MCFun -------------------------------
(* Models whose equations are written token by token (postfix) on a stack.     *)
(* Equation r is closed with  K (v_r - s_r)  and the frozen right-hand side     *)
(* that make s the exact steady state.                                         *)
EXTENDS Fun, Json
CONSTANTS Seed, First, Last, Derivs      \* Derivs: emit derivative trees
VARIABLES k, eqs, stack, used
vars == <<k, eqs, stack, used>>

H(i) == Hash(Seed, k, i)
N == 1 + (H(1) % 3)
M == 1 + (H(2) % 2)
NP == 2
Unary == <<"exp", "log", "ln", "log10", "sqrt", "abs", "sign", "sin", "cos", "tan", "asin", "acos", "atan", "erf",
           "-", "-", "exp", "log", "sqrt", "sq", "sq", "cube", "inv", "half">>
Binary == <<"+", "-", "*", "*", "/", "^", "*", "+">>
Consts == << <<2,1>>, <<1,2>>, <<3,1>>, <<1,1>>, <<5,4>>, <<1,4>>, <<10,1>>, <<0,1>> >>
Steadies == << <<1,1>>, <<1,2>>, <<0,1>>, <<2,1>>, <<1,4>>, <<-1,2>>, <<3,2>>, <<9,4>> >>
PVals == << <<1,2>>, <<2,1>>, <<3,4>>, <<1,4>>, <<3,1>>, <<-1,2>> >>
Base(i) == IF i > 3 * N THEN Zero ELSE Pick(Steadies, H(20 + VarOf(i)))
X0 == [i \in 1..(3 * N + M) |-> Base(i)]
Params == [i \in 1..NP |-> Pick(PVals, H(30 + i))]
Params2 == [i \in 1..NP |-> Pick(PVals, H(34 + i))]
Point(j) == [i \in 1..(3 * N + M) |-> RAdd(Base(i), Q((H(40 + 20 * j + i) % 9) - 4, 8))]

Budget(r) == 3 + (H(3 + r) % 11)
Hr(i) == Hash(Seed, k, 200 + 60 * Len(eqs) + i)      \* per-equation choices
Leaf == LET h == Hr(2 * used)
            g == Hr(2 * used + 1)
        IN  IF (h % 10) < 6 THEN <<"V", 1 + (g % (3 * N + M))>>
            ELSE IF (h % 10) < 8 THEN <<"P", 1 + (g % NP)>>
            ELSE LET c == Pick(Consts, g) IN Num(c[1], c[2])
ApplyU(f, t) == CASE f = "-" -> <<"u", "-", t>>
                  [] f = "sq" -> <<"b", "^", t, Num(2, 1)>>
                  [] f = "cube" -> <<"b", "^", t, Num(3, 1)>>
                  [] f = "inv" -> <<"b", "^", t, <<"u", "-", Num(1, 1)>>>>
                  [] f = "half" -> <<"b", "^", t, Num(1, 2)>>
                  [] OTHER -> <<"F", f, t>>

Init == /\ k \in First..Last
        /\ eqs = <<>> /\ stack = <<>> /\ used = 0
Open == Len(eqs) < N
Push == /\ Open /\ used < Budget(Len(eqs) + 1)
        /\ stack = <<>> \/ (Len(stack) < 3 /\ (Hr(30 + used) % 3) = 0)
        /\ stack' = Append(stack, Leaf)
        /\ used' = used + 1 /\ UNCHANGED <<k, eqs>>
Reduce1 == /\ Open /\ used < Budget(Len(eqs) + 1)
           /\ stack # <<>> /\ ~((Len(stack) < 3) /\ (Hr(30 + used) % 3) = 0)
           /\ Len(stack) = 1 \/ (Hr(45 + used) % 2) = 0
           /\ stack' = [stack EXCEPT ![Len(stack)] = IF Len(stack) = 1 /\ (Hr(45 + used) % 3) # 0
                          THEN <<"b", Pick(Binary, Hr(2 * used + 1)), stack[1], Leaf>>
                          ELSE ApplyU(Pick(Unary, Hr(2 * used)), stack[Len(stack)])]
           /\ used' = used + 1 /\ UNCHANGED <<k, eqs>>
Reduce2 == /\ Open /\ used < Budget(Len(eqs) + 1)
           /\ Len(stack) > 1 /\ ~((Len(stack) < 3) /\ (Hr(30 + used) % 3) = 0) /\ (Hr(45 + used) % 2) # 0
           /\ LET a == stack[Len(stack) - 1]
                  b == stack[Len(stack)]
              IN  stack' = Append(SubSeq(stack, 1, Len(stack) - 2), <<"b", Pick(Binary, Hr(2 * used)), a, b>>)
           /\ used' = used + 1 /\ UNCHANGED <<k, eqs>>
RECURSIVE Fold(_)
Fold(s) == IF Len(s) = 1 THEN s[1] ELSE <<"b", "+", Fold(SubSeq(s, 1, Len(s) - 1)), s[Len(s)]>>
Close == /\ Open /\ used = Budget(Len(eqs) + 1)
         /\ LET r == Len(eqs) + 1
                core == Fold(stack)
                o == Pick(<<0, 0, 0, -1, 1, 0>>, Hr(57))
                s == Base(Slot(r, 0))
                kk == Pick(<<3, 7, -5, 2>>, Hr(58))
                cl == <<"b", "*", Num(kk, 1), <<"b", "-", <<"V", Slot(r, o)>>, Num(s[1], s[2])>>>>
                side == (Hr(59) % 2) = 0
                l == IF side THEN <<"b", "+", core, cl>> ELSE core
                rr == IF side THEN Freeze(core, X0) ELSE <<"b", "-", Freeze(core, X0), cl>>
            IN  eqs' = Append(eqs, [l |-> l, r |-> rr, t |-> <<"b", "-", l, rr>>])
         /\ stack' = <<>> /\ used' = 0 /\ UNCHANGED k
Next == Push \/ Reduce1 \/ Reduce2 \/ Close
Spec == Init /\ [][Next]_vars

Done == Len(eqs) = N
(* each equation's theorems are checked in the state in which it has just been closed *)
Theorems == (eqs # <<>> /\ used = 0 /\ stack = <<>>) =>
   LET t == eqs[Len(eqs)].t
   IN  /\ JetsAgree(t, X0, Params) /\ Symmetric(t, X0, Params) /\ StaticSums(t, X0, Params, N)
       /\ LET v == Val(t, X0, Params) IN v[2] # 0 => v = Zero
SetSeqUp(S) == LET RECURSIVE g(_) g(U) == IF U = {} THEN <<>> ELSE
                     LET x == CHOOSE y \in U : \A z \in U : y <= z IN <<x>> \o g(U \ {x}) IN g(S)
Jac(t) == LET u == SetSeqUp(Uses(t)) IN [i \in 1..Len(u) |-> <<u[i], D(t, u[i])>>]
Hes(t) == LET u == SetSeqUp(Uses(t))
              ps == {p \in (1..Len(u)) \X (1..Len(u)) : p[1] <= p[2]}
              RECURSIVE g(_, _)
              g(i, j) == IF i > Len(u) THEN <<>> ELSE IF j > Len(u) THEN g(i + 1, i + 1)
                         ELSE << <<u[i], u[j], D(D(t, u[i]), u[j])>> >> \o g(i, j + 1)
          IN  g(1, 1)
AllUses == UNION {Uses(eqs[r].t) : r \in 1..N}
Rec ==
  [k |-> k, n |-> N, m |-> M, x0 |-> X0, params |-> Params, params2 |-> Params2,
   slots |-> SetSeqUp({s \in AllUses : s <= 3 * N}),
   eqs |-> [r \in 1..N |-> <<eqs[r].l, eqs[r].r>>],
   points |-> [j \in 1..3 |-> Point(j)],
   vals |-> [j \in 1..3 |-> [r \in 1..N |-> Val(eqs[r].t, Point(j), Params)]],
   vals2 |-> [r \in 1..N |-> Val(eqs[r].t, Point(1), Params2)],
   jac |-> IF Derivs THEN [r \in 1..N |-> Jac(eqs[r].t)] ELSE <<>>,
   hes |-> IF Derivs THEN [r \in 1..N |-> Hes(eqs[r].t)] ELSE <<>>]
Emit == Done => PrintT(ToJson(Rec))
=============================================================================
