------------------------------ MODULE MCSteady ------------------------------
(* Static systems  M y = s  with M = A + B + C (integer, nonsingular), whose    *)
(* right-hand side is moved by parameters; boundary values are given to         *)
(* variables one after the other, later ones replacing earlier ones.            *)
EXTENDS Rat, Json
CONSTANTS Seed, First, Last
VARIABLES k, sys, bounds, shifts, phase
vars == <<k, sys, bounds, shifts, phase>>
H(kk, i) == Hash(Seed, kk, i)
N(kk) == 1 + (H(kk, 1) % 4)
Small == <<0, 1, -1, 2, 0, 1, -2, 0>>
Sols == << <<0,1>>, <<1,1>>, <<-1,1>>, <<1,2>>, <<3,2>>, <<2,1>>, <<-1,2>>, <<5,2>> >>
Near == << <<1,4>>, <<-1,4>>, <<1,8>>, <<0,1>>, <<1,2>>, <<-1,2>> >>
(* coefficients at the three periods; the diagonal dominates in the static sum *)
Coef(kk, o, i, j) == Pick(Small, H(kk, 10 + 40 * (o + 1) + 8 * i + j))
Row(kk, i, j, o) == IF i = j /\ o = 0
   THEN (IF (H(kk, 3 + i) % 2) = 0 THEN 4 ELSE -4) + Coef(kk, 0, i, i)
   ELSE IF i = j \/ ((i + j + o + H(kk, 8)) % 3) = 0 THEN 0
   ELSE IF Abs(i - j) = 1 /\ ((H(kk, 200 + 8 * i + 3 * j + o) % 2) = 0) THEN (IF Coef(kk, o, i, j) > 0 THEN 1 ELSE -1) ELSE 0
Mat(kk, o) == [i \in 1..N(kk) |-> [j \in 1..N(kk) |-> I(Row(kk, i, j, o))]]
Static(kk) == MAdd(MAdd(Mat(kk, -1), Mat(kk, 0)), Mat(kk, 1))
KindsB == <<"initial", "terminal", "historical">>

Init == k \in First..Last /\ sys = <<>> /\ bounds = <<>> /\ shifts = <<>> /\ phase = "start"
Build == /\ phase = "start"
         /\ LET M == Static(k)
                y == [i \in 1..N(k) |-> Pick(Sols, H(k, 300 + i))]
                s == MVec(M, y)
            IN  /\ ~Singular(M)
                /\ sys' = [A |-> Mat(k, -1), B |-> Mat(k, 0), C |-> Mat(k, 1), M |-> M, y |-> y, s |-> s, ys |-> <<y>>]
         /\ phase' = "bounds" /\ UNCHANGED <<k, bounds, shifts>>
NB(kk) == H(kk, 310) % 6
(* values near the solution, so that the start of the search is a sensible one *)
Give == /\ phase = "bounds" /\ Len(bounds) < NB(k)
        /\ LET b == Len(bounds)
               v == 1 + (H(k, 320 + 3 * b) % N(k))
               kind == Pick(<<"initial", "initial", "terminal", "historical">>, H(k, 321 + 3 * b))
           IN  bounds' = Append(bounds, <<kind, v, RAdd(sys.y[v], Pick(Near, H(k, 322 + 3 * b)))>>)
        /\ UNCHANGED <<k, sys, shifts, phase>>
Run == phase = "bounds" /\ Len(bounds) = NB(k) /\ phase' = "run" /\ UNCHANGED <<k, sys, bounds, shifts>>
(* a parameter (the right-hand side of equation r) takes a new value *)
Shift == /\ phase = "run" /\ Len(shifts) < 2
         /\ LET r == 1 + (H(k, 350 + Len(shifts)) % N(k))
                d == Pick(<< <<1,1>>, <<-1,1>>, <<2,1>>, <<1,2>> >>, H(k, 354 + Len(shifts)))
                s2 == [sys.s EXCEPT ![r] = RAdd(@, d)]
                y2 == SolveV(sys.M, s2)
            IN  /\ KnownV(y2)
                /\ sys' = [sys EXCEPT !.s = s2, !.ys = Append(@, y2)]
                /\ shifts' = Append(shifts, <<r, s2[r]>>)
         /\ UNCHANGED <<k, bounds, phase>>
Next == Build \/ Give \/ Run \/ Shift
Spec == Init /\ [][Next]_vars

(* the steady state is the unique solution of the current static equations *)
Solves == phase = "run" => \A j \in 1..Len(sys.ys) : KnownV(sys.ys[j])
Current == phase = "run" => MVec(sys.M, sys.ys[Len(sys.ys)]) = sys.s
(* the latest value given wins *)
Latest(kind, v) == LET S == {i \in 1..Len(bounds) : bounds[i][1] = kind /\ bounds[i][2] = v}
                   IN  IF S = {} THEN <<>> ELSE bounds[CHOOSE i \in S : \A j \in S : j <= i][3]
Given(v) == \E i \in 1..Len(bounds) : bounds[i][2] = v
Vector(kind) == [v \in 1..N(k) |-> IF Latest(kind, v) # <<>> THEN Latest(kind, v)
                                  ELSE IF kind = "initial" /\ ~Given(v) THEN Zero ELSE <<0, 0>>]   \* <<0,0>>: not given
Frozen == [][bounds # bounds' => \A i \in 1..3 : \A v \in 1..N(k) :
               v # bounds'[Len(bounds')][2] => Vector(KindsB[i])[v] = Vector(KindsB[i])'[v]]_vars
Emit == (phase = "run" /\ Len(shifts) = 2) =>
   PrintT(ToJson([k |-> k, n |-> N(k), A |-> sys.A, B |-> sys.B, C |-> sys.C, y |-> sys.y, ys |-> sys.ys,
                  s |-> MVec(sys.M, sys.y), bounds |-> bounds, shifts |-> shifts,
                  initial |-> Vector("initial"), terminal |-> Vector("terminal"), historical |-> Vector("historical")]))
=============================================================================
