------------------------------- MODULE MCPlot ------------------------------
(* Figures drawn one series at a time.                                          *)
EXTENDS Plot, Json
CONSTANTS MaxSeries, MaxSide, MaxGrid       \* grids up to MaxSide x MaxSide for up to MaxGrid series
VARIABLES n, layout, panel, drawn
vars == <<n, layout, panel, drawn>>
Layouts(k) == {<<"rect">>, <<"square">>, <<"column">>, <<"row">>, <<"one">>}
              \cup (IF k > MaxGrid THEN {} ELSE {<<"grid", r, c>> : r \in 1..MaxSide, c \in 1..MaxSide})
Init == /\ n \in 1..MaxSeries /\ layout \in Layouts(n) /\ drawn = 0
        /\ panel = [p \in 1..Panels(n, layout) |-> {}]
Draw == /\ drawn < n /\ drawn' = drawn + 1
        /\ panel' = [panel EXCEPT ![PanelOf(n, layout, drawn')] = @ \cup {drawn'}]
        /\ UNCHANGED <<n, layout>>
Spec == Init /\ [][Draw]_vars

EachOnce == /\ UNION {panel[p] : p \in DOMAIN panel} = 1..drawn
            /\ \A p, q \in DOMAIN panel : p # q => panel[p] \cap panel[q] = {}
Balanced == \A p, q \in DOMAIN panel : Cardinality(panel[p]) <= Cardinality(panel[q]) + 1
Arranged ==
  LET s == Shape(n, layout) IN
  /\ layout[1] = "rect" => /\ s[1] * s[2] = n /\ s[1] <= s[2]
                           /\ \A r, c \in 1..n : (r * c = n /\ r <= c) => c - r >= s[2] - s[1]
  /\ layout[1] = "square" => s[1] = s[2] /\ s[1] * s[1] >= n /\ (s[1] - 1) * (s[1] - 1) < n
  /\ layout[1] \in {"rect", "square", "column", "row"} => \A p \in DOMAIN panel : Cardinality(panel[p]) <= 1
Emit == drawn = n => PrintT(ToJson([n |-> n, layout |-> layout, shape |-> Shape(n, layout), panels |-> panel]))
=============================================================================
