------------------------------- MODULE MCLex -------------------------------
(* Arbitrary short character strings typed at chosen places of a model file.    *)
EXTENDS LexFiles, Rat, Json, TLC
CONSTANTS Seed, Longest, Free, Sample     \* every string up to length Free, a sample of the longer ones
VARIABLES place, tail, h, lex
vars == <<place, tail, h, lex>>
Alphabet == <<"/", "*", "%", "\n", "'", "\"", ";", "a", "1", " ", "-">>
Places == << <<"", "var x; varexo e; parameters a b; a = 2; b = a; model; 8*x = a*x(-1) + e; end;\n">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model; 8*x = x(-1) + e; end;", "">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model; 8*x = x(-1) + e; end;\nshocks; var e = 4; end ", ";">>,
             <<"var x ", "; varexo e; parameters a b; a = 2; b = a; model; 8*x = x(-1) + e; end;\n">>,
             <<"parameters a b; a = 2; b = 3 ", " a; var x; varexo e; /* ' */ model; 8*x = b*x(-1) + e; end;\n">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model; 16*x = 4 ", " x(-1) + e; // */\n end;\n">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model;\n", "\n 8*x = b*x(-1) + e; % ' */ \n end;\n">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model; [name='", "'] 8*x = x(-1) + e; end;\n">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model; 8*x = b*x(-", "1) + e; end;\n">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model; 8*x = x(-1) + e; end; shocks; var e ", "; stderr 3; end;\n">>,
             <<"var x; varexo e; parameters a b; a = 2; b = a; model; 8*x = x(-1) + e; end; initval; x = 1 ", "; /* x */ end;\n">> >>
Init == place \in 1..Len(Places) /\ tail = "" /\ h = 0 /\ lex = Feed(Begin, Places[place][1])
Type == /\ Len(tail) < Longest
        /\ \E c \in 1..Len(Alphabet) :
             /\ tail' = tail \o Alphabet[c] /\ lex' = Step(lex, Alphabet[c]) /\ h' = ((h * 13 + c) % 30011)
             /\ Len(tail) < Free \/ (Hash(Seed, place, h') % Sample) = 0
        /\ UNCHANGED place
Next == Type
Spec == Init /\ [][Next]_vars
Text == Places[place][1] \o tail \o Places[place][2]
Final == Feed(lex, Places[place][2])
(* the machine's state after a prefix is all that matters *)
Online == lex = Feed(Begin, Places[place][1] \o tail)
(* finished tokens never change, and reading the tokens again gives the same tokens *)
Stable == [][\A i \in 1..Len(lex.toks) : lex'.toks[i] = lex.toks[i]]_vars
Again == ~Open(Final) => Tokens(Loose(Ended(Final).toks)) = Ended(Final).toks
(* comments leave nothing behind *)
Silent == [][lex.mode \in {"line", "block", "star"} => lex'.toks = lex.toks]_vars
Emit == PrintT(ToJson([place |-> place, tail |-> tail, text |-> Text, open |-> Open(Final),
                       canon |-> IF Open(Final) THEN "" ELSE Loose(Ended(Final).toks)]))
=============================================================================
