------------------------------ MODULE ExpLog ------------------------------
(* Log files of two JSON loggers (1, 2) and two HTML loggers (3, 4). Files    *)
(* 1..3 are for any of them, 3 + L is the file logger L uses on its own.      *)
(*   log[L]   the file logger L has open (0: none), and the calls logged into *)
(*            it since it was created                                         *)
(*   disk[f]  the document a closed file holds: its kind and calls            *)
(*   call     [line, file, args]; argument [expr, tok]                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Loggers == 1..4
Files == 1..7
Kind(L) == IF L < 3 THEN "json" ELSE "html"
Default(L) == 3 + L
Fresh == [log |-> [L \in Loggers |-> [open |-> 0, calls |-> <<>>]], disk |-> [f \in Files |-> [kind |-> "none", calls |-> <<>>]]]
Opened(s) == {s.log[L].open : L \in Loggers} \ {0}
Closed(s, L) == IF s.log[L].open = 0 THEN s
                ELSE [log |-> [s.log EXCEPT ![L] = [open |-> 0, calls |-> <<>>]], disk |-> [s.disk EXCEPT ![s.log[L].open] = [kind |-> Kind(L), calls |-> s.log[L].calls]]]
Created(s, L, f) == [Closed(s, L) EXCEPT !.log[L] = [open |-> f, calls |-> <<>>]]
Logged(s, L, call) == LET o == IF s.log[L].open = 0 THEN Created(s, L, Default(L)) ELSE s IN [o EXCEPT !.log[L].calls = Append(@, call)]
Ended(s) == FoldLeft(LAMBDA a, L : Closed(a, L), s, <<1, 2, 3, 4>>)
\* what a document has to say about its calls: the entries in order, a common group for the entries of a call and only for them
Flat(calls) == FlattenSeq([c \in DOMAIN calls |-> [j \in DOMAIN calls[c].args |-> [c |-> c, line |-> calls[c].line, file |-> calls[c].file, expr |-> calls[c].args[j].expr, tok |-> calls[c].args[j].tok]]])
Records(entries, calls) ==
    LET F == Flat(calls) IN
    /\ Len(entries) = Len(F)
    /\ \A j \in DOMAIN F : entries[j].line = F[j].line /\ entries[j].file = F[j].file /\ entries[j].expr = F[j].expr /\ entries[j].tok = F[j].tok
    /\ \A j, k \in DOMAIN F : (entries[j].g = entries[k].g) <=> (F[j].c = F[k].c)
=============================================================================
