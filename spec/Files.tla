------------------------------- MODULE Files -------------------------------
(* Which model a path names.  A tree of directories with files, a current        *)
(* directory, and the models that come with the package.                         *)
(*   name    <<stem, ending>>                                                    *)
(*   path    [abs, steps, name]: absolute or relative, the directories passed     *)
(*           ("..": up), the file's name                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dirs == { <<>>, <<"a">>, <<"a", "b">>, <<"c">> }
Bundled == {"simple_linear", "basic_nk", "four_eq_nk", "herbst_schorfheide"}
Nowhere == <<"?">>
Front(s) == SubSeq(s, 1, Len(s) - 1)

RECURSIVE Walk(_, _)
Walk(d, steps) ==
  IF steps = <<>> THEN d
  ELSE LET e == IF steps[1] = ".." THEN (IF d = <<>> THEN Nowhere ELSE Front(d)) ELSE Append(d, steps[1])
       IN  IF e \in Dirs THEN Walk(e, Tail(steps)) ELSE Nowhere
Place(cwd, p) == <<Walk(IF p.abs THEN <<>> ELSE cwd, p.steps), p.name>>

(* files: function from places to contents.  A file that exists is what its path  *)
(* names; otherwise a bare name, with or without an ending, may name a bundled     *)
(* model; otherwise nothing is found.  The model is called by the name's stem.     *)
Named(files, cwd, p) ==
  LET at == Place(cwd, p)
  IN  IF at \in DOMAIN files
      THEN IF files[at] = 0 THEN [kind |-> "broken"] ELSE [kind |-> "file", id |-> files[at], name |-> p.name[1]]
      ELSE IF ~p.abs /\ p.steps = <<>> /\ p.name[1] \in Bundled
           THEN [kind |-> "bundled", id |-> p.name[1], name |-> p.name[1]]
           ELSE [kind |-> "missing"]
=============================================================================
