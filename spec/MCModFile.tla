----------------------------- MODULE MCModFile -----------------------------
(* A well-formed file is written (deterministically, from k), then edited: a    *)
(* statement is deleted, repeated, moved down or loses its semicolon, a name    *)
(* or period is replaced.  Every file, edited or not, is read by ModFile.       *)
EXTENDS ModFile, Json
CONSTANTS Seed, First, Last, MaxEdits, Sample    \* Sample: one edit in Sample is tried
VARIABLES k, file, edits, trace
vars == <<k, file, edits, trace>>

H(kk, i) == Hash(Seed, kk, i)
Endo == <<"x", "y", "w">>
Exo == <<"e", "u">>
Par == <<"a", "b", "d">>
Hel == <<"h", "g">>
Loc == <<"z", "v">>
Pool == Range(Endo) \cup Range(Exo) \cup Range(Par) \cup Range(Hel) \cup Range(Loc) \cup {"q"}
Co == << <<1,1>>, <<2,1>>, <<-1,1>>, <<1,2>>, <<-3,2>>, <<1,4>> >>
Vs == << <<1,2>>, <<1,4>>, <<1,1>>, <<2,1>>, <<-1,2>>, <<3,4>>, <<0,1>> >>
Term(kc, n, o, p) == [k |-> kc, n |-> n, o |-> o, p |-> p]

N(kk) == 1 + (H(kk, 1) % 3)
M(kk) == 1 + (H(kk, 2) % 2)
P(kk) == (H(kk, 3) % 4)
G(kk) == (H(kk, 4) % 3)
L(kk) == (H(kk, 5) % 3)

(* a random interleaving of two sequences *)
RECURSIVE Mix(_, _, _, _)
Mix(kk, s, t, i) == IF s = <<>> THEN t ELSE IF t = <<>> THEN s
   ELSE IF (H(kk, i) % (Len(s) + Len(t))) < Len(s) THEN <<Head(s)>> \o Mix(kk, Tail(s), t, i + 1)
   ELSE <<Head(t)>> \o Mix(kk, s, Tail(t), i + 1)
Split(kk, op, ns, i) == IF Len(ns) > 1 /\ (H(kk, i) % 2) = 0
   THEN <<St(op, SubSeq(ns, 1, 1), None, None), St(op, SubSeq(ns, 2, Len(ns)), None, None)>>
   ELSE IF ns = <<>> THEN <<>> ELSE <<St(op, ns, None, None)>>
(* a value expression over the given names *)
ValueOf(kk, ns, i) ==
  LET c == Pick(Vs, H(kk, i))
      one(j) == Term(Pick(Co, H(kk, i + j)), Pick(ns, H(kk, i + j + 3)), 0,
                     IF (H(kk, i + j + 6) % 4) = 0 THEN Pick(ns, H(kk, i + j + 8)) ELSE "")
      m == IF ns = <<>> THEN 0 ELSE (H(kk, i + 9) % 3)
  IN  Exp(c, [j \in 1..m |-> one(j)])
Assigns(kk) == LET ps == SubSeq(Par, 1, P(kk))
                   hs == SubSeq(Hel, 1, G(kk))
                   ord == Mix(kk, ps, hs, 40) \o (IF hs # <<>> /\ (H(kk, 44) % 3) = 0 THEN <<hs[1]>> ELSE <<>>)   \* a helper can change
               IN  [i \in 1..Len(ord) |-> St("set", <<ord[i]>>, ValueOf(kk, SubSeq(ord, 1, i - 1), 60 + 20 * i), None)]
Decls(kk) == LET v == Split(kk, "var", SubSeq(Endo, 1, N(kk)), 10)
                 e == Split(kk, "varexo", SubSeq(Exo, 1, M(kk)), 11)
                 p == Split(kk, "parameters", SubSeq(Par, 1, P(kk)), 12)
             IN  Mix(kk, Mix(kk, v, e, 20), p, 26)
Body(kk) ==
  LET ps == SubSeq(Par, 1, P(kk))
      lo == SubSeq(Loc, 1, L(kk))
      locs == [i \in 1..Len(lo) |-> St("local", <<lo[i]>>, ValueOf(kk, ps \o SubSeq(lo, 1, i - 1), 200 + 20 * i), None)]
      vs == SubSeq(Endo, 1, N(kk)) \o SubSeq(Exo, 1, M(kk))
      eq(r, known) ==
        LET fac(i) == IF known = <<>> \/ (H(kk, i) % 2) = 0 THEN "" ELSE Pick(known, H(kk, i + 1))
            v(i) == Pick(vs, H(kk, i))
            tm(j) == LET n == v(300 + 40 * r + 5 * j)
                     IN  Term(Pick(Co, H(kk, 301 + 40 * r + 5 * j)), n,
                              IF n \in Range(Endo) THEN (H(kk, 302 + 40 * r + 5 * j) % 3) - 1 ELSE 0, fac(303 + 40 * r + 5 * j))
            m == 1 + (H(kk, 330 + r) % 3)
        IN  IF (H(kk, 334 + r) % 4) = 0
            THEN St("set", <<Endo[r]>>, Exp(Pick(Vs, H(kk, 338 + r)), [j \in 1..1 |-> [tm(j) EXCEPT !.k = <<1,4>>]]), None)
            ELSE St("eq", <<>>, Exp(Zero, <<Term(I(8), Endo[r], 0, "")>>),
                    Exp(Pick(Vs, H(kk, 338 + r)), [j \in 1..m |-> tm(j)]
                        \o (IF ps # <<>> /\ (H(kk, 342 + r) % 3) = 0 THEN <<Term(I(2), Pick(ps, H(kk, 345 + r)), 0, "")>> ELSE <<>>)))
      \* the first equation may stand before the locals
      early == (H(kk, 350) % 3) = 0
      eqs(known, from) == [r \in 1..(N(kk) - from + 1) |-> eq(r + from - 1, known)]
  IN  IF early THEN <<eq(1, ps)>> \o locs \o eqs(ps \o lo, 2) ELSE locs \o eqs(ps \o lo, 1)
Close(op, b) == <<St(op, <<>>, None, None)>> \o b \o <<St("end", <<>>, None, None)>>
Bound(kk, op, i) ==
  LET known == SubSeq(Par, 1, P(kk)) \o SubSeq(Hel, 1, G(kk))
      m == (H(kk, i) % (N(kk) + 1))
  IN  IF (H(kk, i + 1) % 3) = 0 THEN <<>>
      ELSE <<Close(op, [j \in 1..m |-> St("set", <<Pick(SubSeq(Endo, 1, N(kk)), H(kk, i + 1 + j))>>,
                                        ValueOf(kk, known, i + 20 * j), None)])>>
ShockBlock(kk) ==
  LET known == SubSeq(Par, 1, P(kk)) \o SubSeq(Hel, 1, G(kk))
      small(i) == IF known # <<>> /\ (H(kk, i) % 2) = 0 THEN <<Term(<<1,8>>, Pick(known, H(kk, i + 1)), 0, "")>> ELSE <<>>
      one(j) == IF (H(kk, 500 + j) % 4) = 0 THEN <<>>
                ELSE IF (H(kk, 500 + j) % 4) = 1 THEN <<St("sdev", <<Exo[j]>>, Exp(Pick(<< <<2,1>>, <<3,2>>, <<1,1>> >>, H(kk, 503 + j)), small(506 + j)), None)>>
                ELSE <<St("svar", <<Exo[j]>>, Exp(Pick(<< <<4,1>>, <<9,4>>, <<2,1>> >>, H(kk, 503 + j)), small(506 + j)), None)>>
      pr == IF M(kk) = 1 \/ (H(kk, 512) % 3) = 0 THEN <<>>
            ELSE LET a == IF (H(kk, 513) % 2) = 0 THEN <<"e", "u">> ELSE <<"u", "e">>
                 IN  <<St(IF (H(kk, 514) % 2) = 0 THEN "scov" ELSE "scorr", a, Exp(<<1,4>>, small(515)), None)>>
      all == one(1) \o (IF M(kk) = 2 THEN one(2) ELSE <<>>)
  IN  IF (H(kk, 520) % 4) = 0 THEN <<>> ELSE <<Close("shocks", IF (H(kk, 521) % 2) = 0 THEN all \o pr ELSE pr \o all)>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Post(kk) == LET a == Bound(kk, "initval", 400) \o (IF (H(kk, 470) % 4) = 0 THEN Bound(kk, "initval", 600) ELSE <<>>)
                b == Bound(kk, "endval", 420) \o Bound(kk, "histval", 440)
            IN  Flat(Mix(kk, Mix(kk, a, b, 530), ShockBlock(kk), 540))
MakeFile(kk) == LET as == Assigns(kk)
                    hoist == (H(kk, 30) % 3) = 0
                IN  (IF hoist THEN Mix(kk, Decls(kk), as, 550) ELSE Decls(kk) \o as)
                    \o Close("model", Body(kk)) \o Post(kk)

Init == k \in First..Last /\ file = <<>> /\ edits = 0 /\ trace = <<>>
Write == file = <<>> /\ file' = MakeFile(k) /\ UNCHANGED <<k, edits, trace>>
Chosen(i, j, x) == (Hash(Seed + 17 * edits, k, 7 * i + 131 * j + 977 * x) % Sample) = 0
Did(t) == trace' = Append(trace, t) /\ edits' = edits + 1 /\ UNCHANGED k
Can == file # <<>> /\ edits < MaxEdits
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Delete == Can /\ \E i \in 1..Len(file) : Chosen(i, 1, 0) /\ file' = Cut(file, i) /\ Len(file) > 1 /\ Did(<<"delete", i, 0>>)
Repeat == Can /\ \E i \in 1..Len(file) : Chosen(i, 2, 0) /\ file' = SubSeq(file, 1, i) \o SubSeq(file, i, Len(file)) /\ Did(<<"repeat", i, 0>>)
Swap == Can /\ \E i \in 1..(Len(file) - 1) : Chosen(i, 3, 0)
            /\ file' = [file EXCEPT ![i] = file[i + 1], ![i + 1] = file[i]] /\ Did(<<"swap", i, 0>>)
NoSemi == Can /\ \E i \in 1..Len(file) : Chosen(i, 4, 0) /\ file[i].semi /\ file' = [file EXCEPT ![i].semi = FALSE] /\ Did(<<"semicolon", i, 0>>)
(* the places of names in a statement *)
PoolSeq == <<"x", "y", "w", "e", "u", "a", "b", "d", "h", "g", "z", "v", "q">>
Rename == Can /\ \E i \in 1..Len(file) : \E m \in 1..Len(PoolSeq) :
   \/ \E j \in 1..Len(file[i].names) : Chosen(i, 5 + j, m) /\ file[i].names[j] # PoolSeq[m]
        /\ file' = [file EXCEPT ![i].names[j] = PoolSeq[m]] /\ Did(<<"name", i, j>>)
   \/ \E j \in 1..Len(file[i].e1.t) : Chosen(i, 9 + j, m) /\ file[i].e1.t[j].n # PoolSeq[m]
        /\ file' = [file EXCEPT ![i].e1.t[j].n = PoolSeq[m]] /\ Did(<<"left", i, j>>)
   \/ \E j \in 1..Len(file[i].e2.t) : Chosen(i, 14 + j, m) /\ file[i].e2.t[j].n # PoolSeq[m]
        /\ file' = [file EXCEPT ![i].e2.t[j].n = PoolSeq[m]] /\ Did(<<"right", i, j>>)
   \/ \E j \in 1..Len(file[i].e2.t) : Chosen(i, 20 + j, m) /\ file[i].e2.t[j].p # PoolSeq[m]
        /\ file' = [file EXCEPT ![i].e2.t[j].p = PoolSeq[m]] /\ Did(<<"factor", i, j>>)
Period == Can /\ \E i \in 1..Len(file) : \E o \in {-2, -1, 1, 2} :
   \/ \E j \in 1..Len(file[i].e1.t) : Chosen(i, 26 + j, o + 2) /\ file[i].e1.t[j].o # o
        /\ file' = [file EXCEPT ![i].e1.t[j].o = o] /\ Did(<<"period", i, j>>)
   \/ \E j \in 1..Len(file[i].e2.t) : Chosen(i, 31 + j, o + 2) /\ file[i].e2.t[j].o # o
        /\ file' = [file EXCEPT ![i].e2.t[j].o = o] /\ Did(<<"period", i, j>>)
Next == Write \/ Delete \/ Repeat \/ Swap \/ NoSemi \/ Rename \/ Period
Spec == Init /\ [][Next]_vars

(* ------------------------------- theorems -------------------------------- *)
Same(r1, r2) == /\ r1.ok = r2.ok /\ r1.open = r2.open
                /\ r1.ok /\ ~r1.open => /\ Values(r1.defs) = Values(r2.defs) /\ r1.helpers = r2.helpers /\ r1.eqs = r2.eqs
                                        /\ r1.init = r2.init /\ r1.term = r2.term /\ r1.hist = r2.hist /\ r1.var = r2.var
WellFormed == (file # <<>> /\ edits = 0) => Read(file).ok
(* declarations may stand anywhere in the preamble *)
Hoisted == LET l == PreLen(file, 1) IN
  \A i \in 1..(l - 1) : (file[i].op \in Kinds /\ file[i + 1].op = "set")
      => Same(Read(file), Read([file EXCEPT ![i] = file[i + 1], ![i + 1] = file[i]]))
(* whole blocks after the model commute unless they are of the same kind *)
Starts == {i \in 1..Len(file) : file[i].op \in Blocks}
EndOf(i) == CHOOSE j \in i..Len(file) : file[j].op = "end" /\ \A m \in i..(j - 1) : file[m].op # "end"
Commute == (file # <<>> /\ Read(file).ok) =>
  \A i \in Starts : LET j == EndOf(i) + 1 IN
     (j \in Starts /\ file[i].op # file[j].op) =>
        LET e == EndOf(j)
            f2 == SubSeq(file, 1, i - 1) \o SubSeq(file, j, e) \o SubSeq(file, i, j - 1) \o SubSeq(file, e + 1, Len(file))
        IN  Same(Read(file), Read(f2))
(* optional blocks can be left out *)
Optional == (file # <<>> /\ Read(file).ok) =>
  \A i \in Starts : LET j == EndOf(i) IN Read(SubSeq(file, 1, i - 1) \o SubSeq(file, j + 1, Len(file))).ok

Pairs(f) == LET RECURSIVE g(_) g(S) == IF S = {} THEN <<>> ELSE
                 LET x == CHOOSE y \in S : TRUE IN << <<x, f[x]>> >> \o g(S \ {x}) IN g(DOMAIN f)
Rec ==
  LET r == Read(file)
      d == Declare(file)
      env == Scope(r)
      good == r.ok /\ ~r.open
      lin == good /\ \A i \in 1..Len(r.eqs) : Lin(d, r.eqs[i][1], env) /\ Lin(d, r.eqs[i][2], env)
      vs == d["var"]
      es == d["varexo"]
      co(i, n, o) == RSub(CoefE(d, r.eqs[i][1], env, n, o), CoefE(d, r.eqs[i][2], env, n, o))
      A(o) == [i \in 1..Len(r.eqs) |-> [j \in 1..Len(vs) |-> co(i, vs[j], o)]]
  IN  [k |-> k, file |-> file, edits |-> trace, ok |-> r.ok, why |-> r.why, open |-> r.open, decl |-> d, lin |-> lin,
       params |-> IF good THEN Pairs(Values(r.defs)) ELSE <<>>, locals |-> Pairs(r.locals),
       init |-> Pairs(r.init), term |-> Pairs(r.term), hist |-> Pairs(r.hist),
       var |-> Pairs(r.var), co |-> [i \in 1..Len(r.co) |-> <<r.co[i].names[1], r.co[i].names[2], r.co[i].kind, r.co[i].v>>],
       A |-> IF lin THEN A(-1) ELSE <<>>, B |-> IF lin THEN A(0) ELSE <<>>, C |-> IF lin THEN A(1) ELSE <<>>,
       D |-> IF lin THEN [i \in 1..Len(r.eqs) |-> [j \in 1..Len(es) |-> co(i, es[j], 0)]] ELSE <<>>,
       c0 |-> IF lin THEN [i \in 1..Len(r.eqs) |-> RSub(ConstE(d, r.eqs[i][1], env), ConstE(d, r.eqs[i][2], env))] ELSE <<>>]
Emit == file # <<>> => PrintT(ToJson(Rec))
=============================================================================
