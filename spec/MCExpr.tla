------------------------------ MODULE MCExpr ------------------------------
(* Exhaustive enumeration of token strings: every viable prefix up to MaxLen  *)
(* and every shortest non-viable extension of one.                             *)
EXTENDS Expr, Json
CONSTANTS MaxLen
VARIABLE toks
Init == toks = <<>>
Next == /\ Len(toks) < MaxLen
        /\ Viable(toks)
        /\ \E t \in Tokens : toks' = Append(toks, t)

RoundTrip == LET r == Parse(toks)
             IN  r.ok => LET q == Parse(Render(r.t)) IN q.ok /\ Strip(q.t) = Strip(r.t)
Balanced == Accepted(toks) => /\ Count(toks, "(") = Count(toks, ")")
                              /\ Count(toks, "C") <= 1
(* sign binds tighter than or as tight as product, looser than power *)
Laws == LET T(s) == Strip(Parse(s).t)
        IN  /\ T(<<"-","N","^","N">>) = <<"u","-",<<"b","^",<<"N">>,<<"N">>>>>>
            /\ T(<<"N","^","-","N","*","N">>) = <<"b","*",<<"b","^",<<"N">>,<<"u","-",<<"N">>>>>>,<<"N">>>>
            /\ T(<<"N","/","-","N","*","N">>) = <<"b","*",<<"b","/",<<"N">>,<<"u","-",<<"N">>>>>>,<<"N">>>>
            /\ T(<<"N","-","N","-","N">>) = <<"b","-",<<"b","-",<<"N">>,<<"N">>>>,<<"N">>>>
ASSUME Laws
Emit == LET r == Parse(toks)
        IN  PrintT(ToJson([s |-> toks, ok |-> r.ok, t |-> r.t]))
=============================================================================
