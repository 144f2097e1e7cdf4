------------------------------ MODULE OccWide ------------------------------
(* The larger constrained models whose paths are recorded from the code and     *)
(* judged, not predicted: up to four core variables, one or two constraints,    *)
(* slowly decaying states.                                                      *)
EXTENDS Occ
WideCons(s, k) == IF (k % 3) = 2 THEN 2 ELSE 1
WideModel(s, k) == Make(s, k, << 2, 3, 4, 3 >>[(Hash(s, k, 1) % 4) + 1], << 1, 2 >>[(Hash(s, k, 2) % 2) + 1],
                        WideCons(s, k), Wide)
Usable(c) == IF c = <<>> THEN FALSE
             ELSE /\ Known(c.A) /\ Known(c.B) /\ Known(c.C) /\ Known(c.D)
                  /\ \A r \in 1..(2 ^ NC(c) - 1) : Rule(c, <<r>>) # <<>>
=============================================================================
