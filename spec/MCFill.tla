------------------------------- MODULE MCFill -------------------------------
(* Model files whose gaps between tokens are filled with comments and            *)
(* whitespace, or whose tokens are disturbed.                                   *)
EXTENDS LexFiles, Rat, Json, TLC
CONSTANTS Seed, File, MaxFills, Sample, Noise
VARIABLES toks, fills, noise
vars == <<toks, fills, noise>>
Fillers == << " ", "\n", "\t", "\r\n", "  \n\t ", "/**/", "/***/", "/* a */", "/* ; end; */", "/* it's */", "/* \" */",
              "/* // */", "/* % */", "/*/ b */", "/* * / **/", "/*\n x = 1; \n*/", "//\n", "// end;\n", "// /* \n", "// it's \"\n",
              "%\n", "%%% model;\n", "% */ ~ \n", "/* ~ */ // ~\n\n", "//*\n", "///\n", "/*%*/", "% // /* '\n%\n", "/* a *//* b */", "// a\n// b\n/* c */", "\f", " \f\n" >>
(* fills: a function from gaps 0..Len(toks) to texts *)
Render(ts, fs) == FoldLeft(LAMBDA t, i : LET u == TLCEval(IF i = 0 THEN t ELSE Cat(t, ts[i]))
                                         IN  IF i \in DOMAIN fs THEN Cat(u, fs[i]) ELSE u, "", [j \in 1..(Len(ts) + 1) |-> j - 1])
Init == toks = Files[File] /\ fills = [x \in {} |-> ""] /\ noise = 0
Count == Cardinality(DOMAIN fills)
Chosen(a, b) == (Hash(Seed + 31 * Count + 7 * noise, File, 41 * a + 1009 * b) % Sample) = 0
Insert == /\ noise = 0 /\ Count < MaxFills
          /\ \E g \in 0..Len(toks) : \E f \in 1..Len(Fillers) :
               /\ (\A h \in DOMAIN fills : h < g) /\ Chosen(g, f)
               /\ fills' = [x \in (DOMAIN fills) \cup {g} |-> IF x = g THEN Fillers[f] ELSE fills[x]]
          /\ UNCHANGED <<toks, noise>>
(* no verdict on disturbed files, but reading them ends *)
Disturb == /\ Count = 0 /\ noise < Noise
           /\ \E i \in 1..Len(toks) :
                \/ Chosen(i, 100) /\ toks' = SubSeq(toks, 1, i - 1)
                \/ Chosen(i, 101) /\ toks' = SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, Len(toks))
                \/ Chosen(i, 102) /\ toks' = SubSeq(toks, 1, i) \o SubSeq(toks, i, Len(toks))
                \/ Chosen(i, 103) /\ i < Len(toks) /\ toks' = [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]]
                \/ \E j \in 1..Len(toks) : Chosen(i, 103 + j) /\ toks' = [toks EXCEPT ![i] = toks[j]]
           /\ noise' = noise + 1 /\ UNCHANGED fills
Next == Insert \/ Disturb
Spec == Init /\ [][Next]_vars

Text == Render(toks, fills)
Neutral == LET r == Feed(Begin, Text) IN ~Open(r) /\ Ended(r).toks = toks
Spaced == Tokens(Loose(toks)) = toks
Emit == PrintT(ToJson([file |-> File, base |-> Loose(Files[File]), text |-> Text, noise |-> noise, fills |-> Count]))
=============================================================================
