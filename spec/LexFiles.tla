------------------------------ MODULE LexFiles ------------------------------
(* well-formed model files as token sequences *)
EXTENDS Lex
F1 == <<"var","x","y",";","varexo","e",";","parameters","a","b",";","a","=","0.5",";","b","=","a","*","2","/","4",";",
        "model",";","x","=","a","*","x","(","-","1",")","+","e",";","[","name","=","'two; eq'","]","y","=","b","*","y","(","+","1",")","+","x",";","end",";",
        "initval",";","x","=","0",";","y","=","a","-","b","/","2",";","end",";","shocks",";","var","e",";","stderr","2",";","end",";">>
F2 == <<"a","=","1",";","parameters","a",",","b_1",";","helper","=","(","a","+","1",")","/","4",";","b_1","=","helper","^","2",";",
        "varexo","e1",",","e2",";","var","k",",","c",",","z9",";","model","(","linear",")",";","#","loc","=","a","/","b_1",";",
        "8","*","k","-","k","(","-","1",")","=","e1","+","b_1",";","c","+","c","(","-","1",")","/","4","=","exp","(","e2",")","-","1",";","z9","=","loc","/","2","*","k",";","end",";",
        "shocks",";","var","e1","=","4",";","var","e2","=","2.25",";","corr","e1",",","e2","=","0.5",";","end",";",
        "histval",";","k","=","helper",";","end",";","endval",";","c","=","-","2",";","end",";">>
F3 == <<"var","x",";","varexo","u",";","parameters",";","model",";","[","name","=","\"one // two /* three\"","]","4","*","x","=","x","(","-","1",")","+","u",";","end",";">>
F4 == <<"var","p","q",";","var","r",";","varexo","e","f",";","parameters","rho",";","rho","=",".5",";","model",";",
        "p","-","rho","*","p","(","-","1",")","-","e","=","0",";","q","=","p","+","r","/","2","+","log","(","1",")",";","-","r","+","rho","*","r","(","-","1",")","+","f",";","end",";",
        "initval",";","p","=","1","/","2",";","end",";","shocks",";","var","e",",","f","=","0.25",";","var","f",";","stderr","1.5",";","end",";">>
Files == <<F1, F2, F3, F4>>
=============================================================================
