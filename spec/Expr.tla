-------------------------------- MODULE Expr --------------------------------
(* The expression language.  A string of abstract tokens                      *)
(*   N (operand)  F (function name)  + - * / ^ ( )  C (comparison)             *)
(* is either the text of exactly one syntax tree or it is rejected:            *)
(*   comp  ::= expr [C expr]                                                   *)
(*   expr  ::= term {(+|-) term}            left associative                   *)
(*   term  ::= unary {( * | / ) unary}      left associative                   *)
(*   unary ::= (+|-) unary | power                                             *)
(*   power ::= atom [^ unary]               right associative                  *)
(*   atom  ::= N | F ( expr ) | ( expr )                                       *)
(* Trees are sequences: <<"N", i>> (i-th operand), <<"F", i, t>> (i-th         *)
(* function), <<"u", op, t>>, <<"b", op, l, r>>.                               *)
EXTENDS Integers, Sequences, TLC

Tokens == {"N", "F", "+", "-", "*", "/", "^", "(", ")", "C"}

Tok(s, p) == IF p <= Len(s) THEN s[p] ELSE "EOF"
Ok(t, p) == [ok |-> TRUE, t |-> t, p |-> p]
Fail(p) == [ok |-> FALSE, t |-> <<>>, p |-> p]     \* p = position of the offending token

RECURSIVE PExpr(_, _), PExprTail(_, _), PTerm(_, _), PTermTail(_, _), PUnary(_, _), PPower(_, _), PAtom(_, _)
PAtom(s, p) ==
  CASE Tok(s, p) = "N" -> Ok(<<"N", p>>, p + 1)
    [] Tok(s, p) = "(" -> LET e == PExpr(s, p + 1)
                          IN  IF ~e.ok THEN e
                              ELSE IF Tok(s, e.p) = ")" THEN Ok(e.t, e.p + 1) ELSE Fail(e.p)
    [] Tok(s, p) = "F" -> IF Tok(s, p + 1) # "(" THEN Fail(p + 1)
                          ELSE LET e == PExpr(s, p + 2)
                               IN  IF ~e.ok THEN e
                                   ELSE IF Tok(s, e.p) = ")" THEN Ok(<<"F", p, e.t>>, e.p + 1)
                                        ELSE Fail(e.p)
    [] OTHER -> Fail(p)
PPower(s, p) == LET a == PAtom(s, p)
                IN  IF ~a.ok \/ Tok(s, a.p) # "^" THEN a
                    ELSE LET e == PUnary(s, a.p + 1)
                         IN  IF ~e.ok THEN e ELSE Ok(<<"b", "^", a.t, e.t>>, e.p)
PUnary(s, p) == IF Tok(s, p) \in {"+", "-"}
                THEN LET e == PUnary(s, p + 1)
                     IN  IF ~e.ok THEN e ELSE Ok(<<"u", s[p], e.t>>, e.p)
                ELSE PPower(s, p)
PTermTail(s, l) == IF ~l.ok \/ Tok(s, l.p) \notin {"*", "/"} THEN l
                   ELSE LET r == PUnary(s, l.p + 1)
                        IN  IF ~r.ok THEN r
                            ELSE PTermTail(s, Ok(<<"b", s[l.p], l.t, r.t>>, r.p))
PTerm(s, p) == PTermTail(s, PUnary(s, p))
PExprTail(s, l) == IF ~l.ok \/ Tok(s, l.p) \notin {"+", "-"} THEN l
                   ELSE LET r == PTerm(s, l.p + 1)
                        IN  IF ~r.ok THEN r
                            ELSE PExprTail(s, Ok(<<"b", s[l.p], l.t, r.t>>, r.p))
PExpr(s, p) == PExprTail(s, PTerm(s, p))

(* a complete text: comp followed by the end of the text *)
Parse(s) == LET l == PExpr(s, 1)
                c == IF l.ok /\ Tok(s, l.p) = "C"
                     THEN LET r == PExpr(s, l.p + 1)
                          IN  IF r.ok THEN Ok(<<"b", "C", l.t, r.t>>, r.p) ELSE r
                     ELSE l
            IN  IF c.ok /\ c.p <= Len(s) THEN Fail(c.p) ELSE c

Accepted(s) == Parse(s).ok
(* some continuation of s may be accepted: the error, if any, is at its end *)
Viable(s) == LET r == Parse(s) IN r.ok \/ r.p > Len(s)

(* rendering with every operation parenthesised, for the round-trip invariant *)
RECURSIVE Render(_), Strip(_)
Render(t) == CASE t[1] = "N" -> <<"N">>
               [] t[1] = "F" -> <<"F", "(">> \o Render(t[3]) \o <<")">>
               [] t[1] = "u" -> <<"(", t[2]>> \o Render(t[3]) \o <<")">>
               [] OTHER -> IF t[2] = "C" THEN Render(t[3]) \o <<"C">> \o Render(t[4])
                           ELSE <<"(">> \o Render(t[3]) \o <<t[2]>> \o Render(t[4]) \o <<")">>
(* trees without operand positions *)
Strip(t) == CASE t[1] = "N" -> <<"N">>
              [] t[1] = "F" -> <<"F", Strip(t[3])>>
              [] t[1] = "u" -> <<"u", t[2], Strip(t[3])>>
              [] OTHER -> <<"b", t[2], Strip(t[3]), Strip(t[4])>>
RECURSIVE Count(_, _)
Count(s, c) == IF s = <<>> THEN 0 ELSE (IF Head(s) = c THEN 1 ELSE 0) + Count(Tail(s), c)
=============================================================================
