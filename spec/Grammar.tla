------------------------------ MODULE Grammar ------------------------------
(* The grammar of model files as a predictive pushdown recogniser.  A state is  *)
(* the stack of symbols still expected; every token either is consumed or is    *)
(* the first one after which no well-formed file can follow.  Symbols are pairs *)
(* <<symbol, role>>; the role says what a name is used for.  The consumed names *)
(* are events, from which the faults in the use of names are found.             *)
EXTENDS Lex, FiniteSets
VarTypes == {"var", "varexo", "parameters"}
Blocks == {"initval", "endval", "histval"}
Words == VarTypes \cup Blocks \cup {"model", "end", "shocks", "corr", "stderr"}
Unused == {"steady", "check", "simul", "periods", "values", "estimated_params"}   \* reserved, but nowhere in this grammar
Functions == {"exp", "log", "ln", "log10", "sqrt", "abs", "sign", "sin", "cos", "tan", "asin", "acos", "atan", "normcdf", "normpdf", "erf"}
Signs == {"+", "-"}
Operators == Signs \cup {"*", "/", "^"}
Symbols == Operators \cup {";", ",", "=", "(", ")", "[", "]", "#", ":", "<", ">", "<=", ">=", "==", "{", "}", "&", "|", "@", "!", "~"}
Kind(t) == IF t \in Words \cup Unused \cup Symbols \cup {"eof"} THEN t
           ELSE IF t \in Functions THEN "function"
           ELSE LET c == At(t, 1) IN
                IF c \in Letters THEN "name"
                ELSE IF c \in Quotes THEN "string"
                ELSE IF c \in Digits \cup {"."}
                     THEN LET dots == Cardinality({i \in 1..Len(t) : At(t, i) = "."})
                          IN  IF dots = 0 THEN "integer" ELSE IF dots = 1 /\ Len(t) > 1 THEN "decimal" ELSE "none"
                     ELSE "none"

T(s) == <<s, "">>
N(role) == <<"name", role>>
Option2 == << <<"Option", "">>, <<"Options", "more">> >>
(* what a symbol X of role r may be replaced by before a token of kind k *)
Grows(x, r, k) ==
  CASE x = "File" -> << <<"Preamble", "">>, T("model"), <<"Options", "">>, T(";"), <<"Statements", "">>, T("end"), T(";"), <<"Actions", "">> >>
    [] x = "Preamble" -> IF k \in VarTypes THEN <<T(k), <<"Names", k>>, T(";"), <<"Preamble", "">> >>
                         ELSE IF k = "name" THEN <<N("assign"), T("="), <<"Expr", "use">>, T(";"), <<"Preamble", "">> >>
                         ELSE <<>>
    [] x = "Names" -> IF k = "," THEN <<T(","), N(r), <<"Names", r>> >> ELSE IF k = "name" THEN <<N(r), <<"Names", r>> >> ELSE <<>>
    [] x = "Options" -> IF r = "" THEN (IF k = "(" THEN <<T("(")>> \o Option2 \o <<T(")")>> ELSE <<>>)
                        ELSE IF k = "," THEN <<T(",")>> \o Option2 ELSE <<>>
    [] x = "Option" -> <<N("word"), <<"Value", "">> >>
    [] x = "Value" -> IF k = "=" THEN <<T("="), <<"Value2", "">> >> ELSE <<>>
    [] x = "Value2" -> IF k = "string" THEN <<T("string")>> ELSE IF k = "name" THEN <<N("word")>> ELSE << <<"Expr", "word">> >>
    [] x = "Statements" -> IF k = "end" THEN <<>> ELSE << <<"Statement", "">>, T(";"), <<"Statements", "">> >>
    [] x = "Statement" -> IF k = "#" THEN <<T("#"), N("local"), T("="), <<"Expr", "model">> >>
                          ELSE IF k = "[" THEN <<T("["), <<"Tag", "">>, <<"Tags", "">>, T("]"), <<"Equation", "">> >>
                          ELSE << <<"Equation", "">> >>
    [] x = "Tags" -> IF k = "," THEN <<T(","), <<"Tag", "">>, <<"Tags", "">> >> ELSE <<>>
    [] x = "Tag" -> <<N("word"), <<"TagValue", "">> >>
    [] x = "TagValue" -> IF k = "=" THEN <<T("="), T("string")>> ELSE <<>>
    [] x = "Equation" -> << <<"Expr", "model">>, <<"Right", "">> >>
    [] x = "Right" -> IF k = "=" THEN <<T("="), <<"Expr", "model">> >> ELSE <<>>
    [] x = "Expr" -> << <<"Operand", r>>, <<"Tail", r>> >>
    [] x = "Tail" -> IF k \in Operators THEN <<T(k), <<"Operand", r>>, <<"Tail", r>> >> ELSE <<>>
    [] x = "Operand" -> IF k \in Signs THEN <<T(k), <<"Operand", r>> >>
                        ELSE IF k = "(" THEN <<T("("), <<"Expr", r>>, T(")")>>
                        ELSE IF k = "function" THEN <<T("function"), T("("), <<"Expr", r>>, T(")")>>
                        ELSE IF k \in {"integer", "decimal"} THEN <<T(k)>>
                        ELSE IF r = "model" THEN <<N(r), <<"Shift", "">> >> ELSE <<N(r)>>
    [] x = "Shift" -> IF k = "(" THEN <<T("("), <<"Sign", "">>, T("integer"), T(")")>> ELSE <<>>
    [] x = "Sign" -> IF k = "-" THEN <<T("-")>> ELSE <<T("+")>>
    [] x = "Actions" -> IF k \in Blocks THEN <<T(k), <<"Options", "">>, T(";"), <<"Bounds", "">>, T("end"), T(";"), <<"Actions", "">> >>
                        ELSE IF k = "shocks" THEN <<T(k), <<"Options", "">>, T(";"), <<"Shocks", "">>, T("end"), T(";"), <<"Actions", "">> >>
                        ELSE <<T("eof")>>
    [] x = "Bounds" -> IF k = "end" THEN <<>> ELSE <<N("bound"), T("="), <<"Expr", "use">>, T(";"), <<"Bounds", "">> >>
    [] x = "Shocks" -> IF k = "var" THEN <<T(k), N("shock"), <<"Moment", "">>, T(";"), <<"Shocks", "">> >>
                       ELSE IF k = "corr" THEN <<T(k), N("shock"), T(","), N("shock"), T("="), <<"Expr", "use">>, T(";"), <<"Shocks", "">> >>
                       ELSE <<>>
    [] x = "Moment" -> IF k = "," THEN <<T(","), N("shock"), T("="), <<"Expr", "use">> >>
                       ELSE IF k = "=" THEN <<T("="), <<"Expr", "use">> >>
                       ELSE <<T(";"), T("stderr"), <<"Expr", "use">> >>
NonTerminals == {"File", "Preamble", "Names", "Options", "Option", "Value", "Value2", "Statements", "Statement", "Tags", "Tag", "TagValue",
                 "Equation", "Right", "Expr", "Tail", "Operand", "Shift", "Sign", "Actions", "Bounds", "Shocks", "Moment"}

(* n tokens are read; bad is the first one that cannot be read, command says     *)
(* that it stands where the commands of the language would                       *)
Start == [stack |-> << <<"File", "">> >>, events |-> <<>>, n |-> 0, bad |-> 0, command |-> FALSE]
RECURSIVE Take(_, _, _, _)
Take(stack, events, k, i) ==
  IF stack = <<>> THEN [ok |-> FALSE, command |-> FALSE]
  ELSE LET x == stack[1][1]
           r == stack[1][2]
       IN  IF x \in NonTerminals
           THEN IF x = "Actions" /\ ~(k \in Blocks \cup {"shocks", "eof"}) THEN [ok |-> FALSE, command |-> TRUE]
                ELSE Take(TLCEval(Grows(x, r, k) \o Tail(stack)), IF x = "Shift" /\ k = "(" THEN Append(events, <<"shift", i - 1>>) ELSE events, k, i)
           ELSE IF x = k THEN [ok |-> TRUE, stack |-> Tail(stack), events |-> IF r = "" THEN events ELSE Append(events, <<r, i>>)]
           ELSE [ok |-> FALSE, command |-> FALSE]
Read(s, t) == IF s.bad # 0 THEN s
              ELSE LET r == Take(s.stack, s.events, Kind(t), s.n + 1)
                   IN  IF r.ok THEN [s EXCEPT !.stack = r.stack, !.events = r.events, !.n = @ + 1]
                       ELSE [s EXCEPT !.bad = s.n + 1, !.command = r.command]
ReadAll(ts) == FoldLeft(LAMBDA s, t : TLCEval(Read(s, t)), Start, ts)
Accepted(s) == s.bad = 0 /\ s.stack = <<>>
Takes(s, t) == s.bad = 0 /\ Take(s.stack, s.events, Kind(t), s.n + 1).ok

(* ---- faults in the use of names: the places of names that may be blamed ---- *)
Faults(ts, events) ==
  LET At2(roles) == {e[2] : e \in {events[i] : i \in {j \in 1..Len(events) : events[j][1] \in roles}}}
      decls == At2(VarTypes)
      assigns == At2({"assign"})
      locals == At2({"local"})
      RoleAt(p) == (CHOOSE i \in 1..Len(events) : events[i][2] = p /\ events[i][1] \in VarTypes)
      Of(n) == LET ps == {p \in decls : ts[p] = n}
               IN  IF ps = {} THEN "none" ELSE events[RoleAt(CHOOSE p \in ps : \A o \in ps : p <= o)][1]
      Done(q, p) == q < p /\ \E j \in q..p : ts[j] = ";"           \* the statement of q ends before p
      Helper(n, p) == \E q \in assigns : ts[q] = n /\ Done(q, p)
      Local(n, p) == \E q \in locals : ts[q] = n /\ Done(q, p)
  IN  {p \in decls : \E o \in decls : o < p /\ ts[o] = ts[p]}
      \cup {p \in assigns : Of(ts[p]) \in {"var", "varexo"}}
      \cup {p \in At2({"use"}) : Of(ts[p]) = "none" /\ ~Helper(ts[p], p)}
      \cup {p \in At2({"model"}) : Of(ts[p]) = "none" /\ ~Local(ts[p], p)}
      \cup {p \in locals : Of(ts[p]) # "none" \/ Helper(ts[p], p) \/ Local(ts[p], p)}
      \cup {p \in At2({"shift", "bound"}) : Of(ts[p]) # "var"}
      \cup {p \in At2({"shock"}) : Of(ts[p]) # "varexo"}
(* a block given twice *)
Repeated(ts) == \E b \in Blocks \cup {"shocks"} : Cardinality({i \in 1..Len(ts) : ts[i] = b}) > 1
=============================================================================
