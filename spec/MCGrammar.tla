----------------------------- MODULE MCGrammar -----------------------------
(* Random files of the grammar, token by token; then disturbed; then laid out   *)
(* on lines.                                                                    *)
EXTENDS Grammar, LexFiles, Rat, Json
CONSTANTS Seed, Walks, Copies, Longest, Cuts       \* one single disturbance in Cuts times Rare
VARIABLES id, phase, toks, st, fuel, sick
vars == <<id, phase, toks, st, fuel, sick>>
Names == <<"x", "y", "z", "e", "u", "a", "b", "h", "k1", "X">>
Menu == <<"name", ";", "1", "=", "name", "+", "stderr", ")", "var", "name", ";", "*", "2", "(", "name", "end", ",", "varexo", "=", "-", ";",
          "name", "parameters", ";", "3", "initval", "log", "name", "]", ";", "#", "=", "0.5", "shocks", "name", "/", ";", "model", "[", "'s'",
          "^", "stderr", "name", "corr", ";", "exp", ")", "endval", "name", "histval", "var", ";", "12", "stderr">>
Closing == <<";", ")", "end", "eof", "1", "model", "]", "=", "stderr", "(", "+", "x", "'s'", ",">>
Odd == <<"$", "?", "1.2.3", "steady", "end", "var", "model", "exp", "log", ";", "(", ")", "=", ",", "'s'", "0.5", "7", "x", "e", "a", "w", "h", "^", "+",
         "[", "]", "#", "<", "==", ":", "{", "stderr", "corr", "shocks", "initval", "parameters", "varexo", "estimated_params", "&", "check", "*", "0.25">>
Draw(a, b) == Hash(Hash(Seed, (id % 9973), ((id \div 9973) % 9973)), a, b)
Drawn(s, a, b) == s[1 + (Draw(a, b) % Len(s))]

(* more of the language in one file *)
F5 == <<"parameters","a","b",";","var","x",",","y",";","h","=","2",";","h","=","h","/","4",";","varexo","e","u",";","a","=","h",";","b","=","-","a","^","2",";",
        "model","(","linear",",","k1","=","3",",","z","=","'s'",")",";","#","l","=","exp","(","a",")","-","1",";","[","z",",","name","=","'one'","]","x","=","a","*","x","(","-","1",")","+","l","*","e",";",
        "#","m","=","l","*","b",";","y","(","+","1",")","/","4","-","(","y","-","m",")","+","sqrt","(","1","+","u",")",";","end",";",
        "endval","(","z","=","-","1",")",";","y","=","h","+","a",";","end",";","shocks",";","corr","e",",","u","=","b",";","var","u",";","stderr","h","*","2",";","var","e","=","1",";","end",";","initval",";","x","=","a",";","end",";">>
Bases == Files \o <<F5>>
(* prefixes, and single disturbances of every token of the files *)
NamesOf(f) == SetToSeq({f[i] : i \in {k \in 1..Len(f) : Kind(f[k]) = "name"}} \cup {"q", "k1"})
Edited(f, i, op, j) ==
  LET n == Len(f) IN
  CASE op = "cut" -> SubSeq(f, 1, i - 1)
    [] op = "drop" -> SubSeq(f, 1, i - 1) \o SubSeq(f, i + 1, n)
    [] op = "twice" -> SubSeq(f, 1, i) \o SubSeq(f, i, n)
    [] op = "swap" -> IF i < n THEN [f EXCEPT ![i] = f[i + 1], ![i + 1] = f[i]] ELSE f
    [] op = "put" -> [f EXCEPT ![i] = Odd[j]]
    [] op = "add" -> SubSeq(f, 1, i) \o <<Odd[j]>> \o SubSeq(f, i + 1, n)
    [] op = "name" -> [f EXCEPT ![i] = NamesOf(f)[j]]
Ops == <<"cut", "drop", "twice", "swap", "put", "add", "name">>
Rare == <<2, 1, 3, 2, 24, 24, 5>>
Single(f, i, o, j) == /\ \/ o \in 1..4 /\ j = 1
                         \/ o \in 5..6 /\ j \in 1..Len(Odd)
                         \/ o = 7 /\ Kind(Bases[f][i]) = "name" /\ j \in 1..Len(NamesOf(Bases[f]))
                      /\ (Hash(Hash(Seed, f, o), i, j) % (Rare[o] * Cuts)) = 0
Init == \/ /\ id \in 1..(Walks + Copies) /\ sick = 0
           /\ IF id <= Walks THEN phase = "walk" /\ toks = <<>> /\ st = Start /\ fuel = 12 + (Hash(Seed, id, 5) % Longest)
              ELSE phase = "disturb" /\ toks = Bases[1 + (id % Len(Bases))] /\ st = ReadAll(toks) /\ fuel = 0
        \/ \E f \in 1..Len(Bases) : \E i \in 1..Len(Bases[f]) :
              id = 10000 * f + i /\ phase = "touch" /\ toks = Bases[f] /\ st = Start /\ fuel = 0 /\ sick = 0
Touch == /\ phase = "touch"
         /\ LET f == id \div 10000
                i == (id % 10000) IN
            \E o \in 1..7 : \E j \in 1..50 :
              /\ Single(f, i, o, j)
              /\ toks' = Edited(toks, i, Ops[o], j) /\ st' = ReadAll(Append(toks', "eof"))
              /\ id' = 1000000 + id * 500 + 50 * o + j
         /\ phase' = "done" /\ sick' = 1 /\ UNCHANGED fuel
(* the next token: at random while there is fuel, towards the end of the file afterwards *)
First(list, from) == LET ok == {i \in 0..(Len(list) - 1) : Takes(st, list[1 + ((from + i) % Len(list))])}
                     IN  IF ok = {} THEN 0 ELSE 1 + ((from + (CHOOSE i \in ok : \A j \in ok : i <= j)) % Len(list))
Try == LET n == Len(toks) IN
       IF Takes(st, "model") /\ n > 6 /\ (Draw(n, 6) % 5) = 0 THEN "model"
       ELSE IF fuel > 0 THEN LET m == First(Menu, Draw(n, 1) % Len(Menu)) IN IF m = 0 THEN "" ELSE Menu[m]
       ELSE Closing[First(Closing, 0)]
Healthy(t) == LET s == Read(st, t) IN Faults(Append(toks, t), s.events) \subseteq Faults(toks, st.events)
Choice == LET t == TLCEval(Try) IN
          IF t \in {"name", "x"}
          THEN LET from == Draw(Len(toks), 2) % Len(Names)
                   good == {i \in 0..(Len(Names) - 1) : Healthy(Names[1 + ((from + i) % Len(Names))])}
               IN  IF good = {} \/ (Draw(Len(toks), 3) % 60) = 0 THEN Names[1 + from]
                   ELSE Names[1 + ((from + (CHOOSE i \in good : \A j \in good : i <= j)) % Len(Names))]
          ELSE IF t = "(" /\ ~Healthy(t) /\ (Draw(Len(toks), 4) % 20) # 0 THEN "+" ELSE t
Walk == /\ phase = "walk" /\ ~Accepted(st)
        /\ LET t == TLCEval(Choice) IN
           IF t = "" THEN fuel' = 0 /\ UNCHANGED <<toks, st, phase>>
           ELSE /\ st' = Read(st, t) /\ fuel' = IF fuel > 0 THEN fuel - 1 ELSE 0
                /\ IF t = "eof" THEN toks' = toks /\ phase' = "disturb" ELSE toks' = Append(toks, t) /\ phase' = phase
        /\ UNCHANGED <<id, sick>>
(* none, one or two disturbances, then the file is laid out *)
Disturb == LET n == Len(toks)
               i == 1 + (Draw(sick, 11) % n)
               t == TLCEval(Drawn(Odd, sick, 12))
               how == Draw(sick, 13) % 12
           IN  CASE how = 0 -> SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, n)
                 [] how = 1 -> SubSeq(toks, 1, i) \o SubSeq(toks, i, n)
                 [] how = 2 -> IF i < n THEN [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]] ELSE toks
                 [] how = 3 -> SubSeq(toks, 1, i)
                 [] how \in {4, 5} -> [toks EXCEPT ![i] = t]
                 [] how = 6 -> SubSeq(toks, 1, i) \o <<t>> \o SubSeq(toks, i + 1, n)
                 [] how \in 7..10 -> LET ns == {j \in 1..n : Kind(toks[j]) = "name"}          \* one name for another
                                         after == {j \in ns : j >= i}
                                     IN  IF after = {} THEN toks
                                         ELSE [toks EXCEPT ![Min(after)] = Drawn(Names, sick, 15)]
                 [] OTHER -> [toks EXCEPT ![i] = toks[1 + (Draw(sick, 14) % n)]]
Turn == /\ phase = "disturb" /\ toks # <<>>
        /\ LET many == <<0, 1, 1, 1, 2, 1>>[1 + (Draw(0, 10) % 6)] IN
           IF sick >= many THEN phase' = "done" /\ UNCHANGED <<toks, st, sick>>
           ELSE LET d == TLCEval(Disturb) IN toks' = d /\ st' = ReadAll(Append(d, "eof")) /\ sick' = sick + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<id, fuel>>
Next == Walk \/ Turn \/ Touch
Spec == Init /\ [][Next]_vars

(* ---- lines ---- *)
Fillers == << " ", " ", "", "", "  ", "\n", "\n\n", "\t", " \n  ", "// end; $\n", "% ';\n", "/* a\n b; */", "/**/", "/* x */ ", "\n// 1\n// 2\n", "/*\n*/\n", " \r\n", " // */\n" >>
Breaks(u) == Cardinality({i \in 1..Len(u) : At(u, i) = "\n"})
BreaksOf == TLCEval([i \in 1..Len(Fillers) |-> Breaks(Fillers[i])])
Gap(i) == 1 + (Draw(i, 20) % Len(Fillers))
(* text and line of every token; a last filler ends the file *)
Layout == FoldLeft(LAMBDA l, i : LET u == TLCEval(Cat(l.text, Fillers[Gap(i)]))
                                     b == l.line + BreaksOf[Gap(i)]
                                 IN  TLCEval(IF i <= Len(toks) THEN [text |-> Cat(u, toks[i]), line |-> b, lines |-> Append(l.lines, b)]
                                             ELSE [text |-> u, line |-> b, lines |-> l.lines]),
                   [text |-> "", line |-> 1, lines |-> <<>>], [i \in 1..(Len(toks) + 1) |-> i])

(* ---- what has to come out ---- *)
Illegal == {i \in 1..Len(toks) : Kind(toks[i]) = "none"}
Verdict(l) ==
  LET bad == st.bad
      Lines(ps) == {l.lines[p] : p \in {q \in ps : q <= Len(toks)}}
      last == IF bad = Len(toks) + 1 THEN (IF toks = <<>> THEN 1 ELSE l.lines[Len(toks)])..l.line ELSE {}
      nf == Faults(toks, st.events)
  IN  IF bad # 0 /\ st.command /\ Illegal = {} THEN [say |-> "command", lines |-> {}, names |-> {}]
      ELSE IF bad # 0 THEN [say |-> "syntax", lines |-> Lines(Illegal \cup {bad}) \cup last, names |-> {}]
      ELSE IF Repeated(toks) THEN [say |-> "any", lines |-> {}, names |-> {}]
      ELSE IF nf # {} THEN [say |-> "names", lines |-> Lines(nf), names |-> {toks[p] : p \in nf}]
      ELSE [say |-> "accept", lines |-> {}, names |-> {}]
Emit == phase = "done" =>
        LET l == TLCEval(Layout)
            v == TLCEval(Verdict(l))
        IN  PrintT(ToJson([id |-> id, text |-> l.text, say |-> v.say, lines |-> SetToSeq(v.lines), names |-> SetToSeq(v.names),
                           sick |-> sick, tokens |-> Len(toks), bad |-> st.bad]))

(* ---- the recogniser itself ---- *)
(* whatever has been read can be completed: a fault is reported at the first token it can be seen at *)
RECURSIVE Complete(_, _)
Complete(s, n) == IF Accepted(s) THEN TRUE ELSE IF n = 0 THEN FALSE
                  ELSE LET ok == {i \in 1..Len(Closing) : Takes(s, Closing[i])}
                       IN  IF ok = {} THEN FALSE ELSE Complete(TLCEval(Read(s, Closing[CHOOSE i \in ok : \A j \in ok : i <= j])), n - 1)
Viable == phase = "walk" /\ (Len(toks) % 3) = 0 => Complete(st, 60)
Online == phase = "walk" /\ (Len(toks) % 7) = 0 => st = ReadAll(toks)
Earliest == phase = "done" /\ st.bad > 1 => LET s == ReadAll(SubSeq(toks, 1, st.bad - 1)) IN s.bad = 0 /\ Complete(s, 60)
(* the layout does not change the tokens *)
Same == phase = "done" => Tokens(Layout.text) = toks
=============================================================================
