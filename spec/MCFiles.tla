------------------------------ MODULE MCFiles ------------------------------
(* Histories of writing, removing, moving about and loading.                    *)
EXTENDS Files, Rat, Json
CONSTANTS Seed, Depth, Count, Mode       \* Mode = "all": every history of Depth small steps; "rand": sampled
VARIABLES files, cwd, hist, k, fresh
vars == <<files, cwd, hist, k, fresh>>

Names == << <<"model", ".mod">>, <<"basic_nk", ".mod">>, <<"four_eq_nk", "">>, <<"other", ".txt">>, <<"plain", "">>,
            <<"simple_linear", ".mod">>, <<"basic_nk", "">>, <<"herbst_schorfheide", ".txt">>, <<"model", ".txt">>,
            <<"four_eq_nk", ".txt">>, <<"no_such", ".mod">>, <<"simple_linear", "">> >>
DirSeq == << <<>>, <<"a">>, <<"a", "b">>, <<"c">> >>
Steps == << <<>>, <<>>, <<>>, <<"a">>, <<"..">>, <<"b">>, <<"a", "b">>, <<"..", "c">>, <<"a", "..">>, <<"..", "..">> >>
Path(abs, steps, name) == [abs |-> abs, steps |-> steps, name |-> name]

Rand(kk, t) ==
  LET h(a) == Hash(Seed, kk, 40 * t + a)
      act == Pick(<<"write", "load", "cd", "load", "remove", "load", "write", "load">>, h(1))
      nm == IF (h(2) % 4) = 0 THEN Pick(Names, h(3)) ELSE Names[(h(3) % 4) + 1]
      abs == (h(4) % 3) = 0
      d == Pick(DirSeq, h(5))
  IN  CASE act = "write" -> [act |-> act, at |-> <<d, nm>>, id |-> IF (h(6) % 6) = 0 THEN 0 ELSE fresh + 1]
        [] act = "remove" -> IF DOMAIN files = {} THEN [act |-> "cd", to |-> d]
                             ELSE [act |-> act, at |-> CHOOSE x \in DOMAIN files : TRUE]
        [] act = "cd" -> [act |-> act, to |-> d]
        [] OTHER -> \* aim at a file there is, at one of its directory, or anywhere
             LET hit == (h(7) % 3) = 0 /\ DOMAIN files # {}
                 f == IF hit THEN CHOOSE x \in DOMAIN files : \A y \in DOMAIN files : files[x] >= files[y] ELSE <<d, nm>>
             IN  [act |-> act, obj |-> (h(8) % 2) = 0,
                  path |-> IF abs THEN Path(TRUE, f[1], f[2]) ELSE Path(FALSE, Pick(Steps, h(9)), f[2])]
Small == LET nm == {Names[1], Names[2]}
             w(d, x, i) == [act |-> "write", at |-> <<d, x>>, id |-> i]
             l(a, s, x, o) == [act |-> "load", obj |-> o, path |-> Path(a, s, x)]
         IN  {w(d, x, fresh + 1) : d \in {<<>>, <<"a">>}, x \in nm} \cup {w(<<>>, Names[2], 0)}
             \cup {[act |-> "remove", at |-> f] : f \in DOMAIN files}
             \cup {[act |-> "cd", to |-> d] : d \in {<<>>, <<"a">>}}
             \cup {l(FALSE, <<>>, x, o) : x \in nm \cup {Names[7], Names[11]}, o \in {FALSE}}
             \cup {l(TRUE, <<"a">>, x, TRUE) : x \in nm} \cup {l(FALSE, <<"..">>, Names[2], TRUE)}

Init == /\ files = << >> /\ cwd = <<>> /\ hist = <<>> /\ fresh = 0
        /\ IF Mode = "all" THEN k = 0 ELSE \E kk \in 1..Count : k = kk
Do(op) ==
   /\ CASE op.act = "write" -> files' = (op.at :> op.id) @@ files /\ fresh' = fresh + 1 /\ UNCHANGED cwd
        [] op.act = "remove" -> files' = [x \in DOMAIN files \ {op.at} |-> files[x]] /\ UNCHANGED <<cwd, fresh>>
        [] op.act = "cd" -> cwd' = op.to /\ UNCHANGED <<files, fresh>>
        [] OTHER -> UNCHANGED <<files, cwd, fresh>>
   /\ hist' = Append(hist, IF op.act = "load" THEN op @@ [res |-> Named(files, cwd, op.path)] ELSE op)
   /\ UNCHANGED k
Next == Len(hist) < Depth /\ (IF Mode = "all" THEN \E op \in Small : Do(op) ELSE Do(Rand(k, Len(hist) + 1)))
Spec == Init /\ [][Next]_vars

(* loading finds the same file however its directory is spelt, and never depends   *)
(* on the current directory for an absolute path                                    *)
SameFile == \A p \in {Path(TRUE, d, f[2]) : d \in Dirs, f \in DOMAIN files} :
              \A d \in Dirs : Named(files, d, p) = Named(files, cwd, p)
Written == \A f \in DOMAIN files : files[f] # 0 => Named(files, cwd, Path(TRUE, f[1], f[2])).id = files[f]
Unread == [][hist'[Len(hist')].act = "load" => files' = files /\ cwd' = cwd]_vars
LastLoad == hist # <<>> /\ hist[Len(hist)].act = "load"
Emit == (Len(hist) = Depth /\ (Mode = "all" => LastLoad)) => PrintT(ToJson([k |-> k, hist |-> hist]))
=============================================================================
