-------------------------------- MODULE Lex --------------------------------
(* Characters to tokens.  The machine consumes one character at a time; its     *)
(* state is the mode it is in, the token in progress and the finished tokens.   *)
EXTENDS Sequences, SequencesExt, Integers, TLC
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
White == {" ", "\n", "\t", "\r", "\f"}
Quotes == {"'", "\""}
At(s, i) == SubSeq(s, i, i)
Chars(s) == LET t == TLCEval(s) IN TLCEval([i \in 1..Len(t) |-> At(t, i)])

Begin == [mode |-> "code", cur |-> "", kind |-> "", toks |-> <<>>]
Flush(s) == IF s.cur = "" THEN s ELSE [s EXCEPT !.toks = Append(@, s.cur), !.cur = "", !.kind = ""]
Grow(s, c) == [s EXCEPT !.cur = @ \o c]
New(s, c, kind) == [Flush(s) EXCEPT !.cur = c, !.kind = kind]
Code(s, c) ==
  CASE c \in White -> Flush(s)
    [] c = "%" -> [Flush(s) EXCEPT !.mode = "line"]
    [] c = "/" -> [Flush(s) EXCEPT !.mode = "slash"]
    [] c \in Quotes -> [New(s, c, "string") EXCEPT !.mode = c]
    [] c \in Letters -> IF s.kind = "name" THEN Grow(s, c) ELSE New(s, c, "name")
    [] c = "_" -> IF s.kind = "name" THEN Grow(s, c) ELSE New(s, c, "symbol")
    [] c \in Digits -> IF s.kind \in {"name", "number"} THEN Grow(s, c) ELSE New(s, c, "number")
    [] c = "." -> IF s.kind = "number" THEN Grow(s, c) ELSE New(s, c, "number")
    [] c = "=" /\ s.cur \in {"=", "<", ">"} -> Flush(Grow(s, c))
    [] OTHER -> New(s, c, "symbol")
Step(s, c) ==
  CASE s.mode = "code" -> Code(s, c)
    [] s.mode = "slash" -> IF c = "/" THEN [s EXCEPT !.mode = "line"] ELSE IF c = "*" THEN [s EXCEPT !.mode = "block"]
                           ELSE Code([s EXCEPT !.mode = "code", !.toks = Append(@, "/")], c)
    [] s.mode = "line" -> IF c = "\n" THEN [s EXCEPT !.mode = "code"] ELSE s
    [] s.mode = "block" -> IF c = "*" THEN [s EXCEPT !.mode = "star"] ELSE s
    [] s.mode = "star" -> IF c = "/" THEN [s EXCEPT !.mode = "code"] ELSE IF c = "*" THEN s ELSE [s EXCEPT !.mode = "block"]
    [] OTHER -> IF c = s.mode THEN Flush([Grow(s, c) EXCEPT !.mode = "code"]) ELSE Grow(s, c)
Step1(s, c) == TLCEval(Step(s, c))
Feed(s, text) == FoldLeft(Step1, s, Chars(text))
Ended(s) == IF s.mode = "slash" THEN [s EXCEPT !.mode = "code", !.toks = Append(@, "/")]
            ELSE IF s.mode \in {"code", "line"} THEN [Flush(s) EXCEPT !.mode = "code"] ELSE s
Open(s) == Ended(s).mode # "code"                  \* an unterminated comment or string
Tokens(text) == Ended(Feed(Begin, text)).toks
Unfinished(text) == Open(Feed(Begin, text))

(* ---- joining tokens ---- *)
Wordy(c) == c \in Letters \cup Digits \cup {"_", "."}
Glue(l, r) == LET a == At(l, Len(l))
                  b == At(r, 1)
              IN  l # "" /\ r # "" /\ ((Wordy(a) /\ Wordy(b)) \/ (a = "/" /\ b \in {"/", "*"}) \/ (a \in {"=", "<", ">"} /\ b = "="))
Cat(l, r) == LET a == TLCEval(l)
                 b == TLCEval(r)
             IN  IF Glue(a, b) THEN TLCEval(a \o " " \o b) ELSE TLCEval(a \o b)
Loose(ts) == FoldLeft(LAMBDA t, u : TLCEval(IF t = "" THEN u ELSE t \o " " \o u), "", ts)
Tight(ts) == FoldLeft(Cat, "", ts)
=============================================================================
