---------------------------- MODULE ExpLogTrace ----------------------------
EXTENDS TraceBase, ExpLog, ExpRender
VARIABLES ty, sites, val, s, opt, quiet
Opt0 == [colored |-> TRUE, short |-> FALSE, func |-> TRUE, once |-> TRUE, bars |-> TRUE]
TraceInit == i = 1 /\ ty = <<>> /\ sites = <<>> /\ val = <<>> /\ s = Fresh /\ opt = Opt0 /\ quiet = FALSE
Args(j) == [a \in DOMAIN sites[j].args |-> [expr |-> sites[j].args[a].expr, tok |-> Render(ty[sites[j].args[a].k].t, val[sites[j].args[a].k], <<>>)]]
OnDisk(r, st) == \A d \in Files \ Opened(st) :
    /\ Expect(r.files[d].kind = st.disk[d].kind, IF st.disk[d].kind = "none" THEN "file" ELSE st.disk[d].kind \o " document")
    /\ Expect(st.disk[d].kind = "none" \/ Records(r.files[d].entries, st.disk[d].calls), "entries of the log")
Evals(r) == Expect(r.evals = (IF r.c = 3 \/ (quiet /\ r.a # 8) THEN 0 ELSE Sum([a \in DOMAIN sites[r.b].args |-> sites[r.b].args[a].p])), "evaluations of the logged expressions")
\* printed: all names with their values, in order; the place of the call as the settings say
Printed(r) ==
    LET A == IF r.c = 3 \/ quiet THEN <<>> ELSE Args(r.b)
        n == Len(A)
        places == IF r.a = 5 /\ opt.once /\ n > 0 THEN 1 ELSE n
        short == r.a # 6 /\ opt.short IN
    /\ Expect([a \in DOMAIN r.entries |-> r.entries[a].tok] = [a \in DOMAIN A |-> A[a].tok], "printed values")
    /\ Expect(r.a = 7 \/ [a \in DOMAIN r.entries |-> r.entries[a].expr] = [a \in DOMAIN A |-> A[a].expr], "printed names")
    /\ Expect(r.colored = (r.a # 6 /\ opt.colored /\ n > 0), "colours")
    /\ Expect(IF short THEN r.short = places /\ (sites[r.b].slash => r.full = 0) ELSE r.full = places, "place of the call")
    /\ Expect(r.func = (IF r.a = 6 \/ opt.func THEN places ELSE 0), "function")
    /\ Expect(r.bars = (IF r.a = 5 /\ opt.once /\ opt.bars THEN n ELSE 0) /\ r.dots = (IF r.a = 5 /\ opt.once /\ ~opt.bars THEN n ELSE 0), "indentation")
\* a program that ends with an exception: the reason is printed, the logs are closed
Thrown(r) ==
    /\ Expect(r.said, "reason of the exception")
    /\ Expect(IF opt.short THEN r.short = 1 /\ (sites[r.b].slash => r.full = 0) ELSE r.full = 1, "place of the exception")
NewOpt(r) == CASE r.a = 1 -> [opt EXCEPT !.colored = (r.b = 1)]
               [] r.a = 2 -> [opt EXCEPT !.short = (r.b = 1)]
               [] r.a = 3 -> [opt EXCEPT !.func = (r.b = 1)]
               [] r.a = 4 -> [opt EXCEPT !.once = (r.b = 1)]
               [] r.a = 5 -> [opt EXCEPT !.bars = (r.b = 0)]
               [] OTHER -> Opt0
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       CASE r.op = "new" -> ty' = r.types /\ sites' = r.sites /\ val' = r.vals /\ s' = Fresh /\ opt' = Opt0 /\ quiet' = r.quiet
         [] r.op = "p" -> val' = r.vals /\ UNCHANGED <<ty, sites, s, opt, quiet>>
         [] r.op = "create" -> s' = Created(s, r.a, r.b) /\ OnDisk(r, s') /\ UNCHANGED <<ty, sites, val, opt, quiet>>
         [] r.op = "close" -> s' = Closed(s, r.a) /\ OnDisk(r, s') /\ UNCHANGED <<ty, sites, val, opt, quiet>>
         [] r.op = "end" -> s' = Ended(s) /\ OnDisk(r, s') /\ UNCHANGED <<ty, sites, val, opt, quiet>>
         [] r.op = "throw" -> Thrown(r) /\ s' = Ended(s) /\ OnDisk(r, s') /\ UNCHANGED <<ty, sites, val, opt, quiet>>
         [] r.op = "opt" -> LET o == NewOpt(r) IN
                            /\ Expect(r.opts = <<o.colored, o.short, o.func, o.once>> /\ r.ident = (IF o.bars THEN "||     " ELSE "..."), "settings")
                            /\ opt' = o /\ UNCHANGED <<ty, sites, val, s, quiet>>
         [] OTHER ->
            /\ Expect(~r.elsewhere, "text somewhere else")
            /\ Evals(r)
            /\ IF r.a > 4 THEN (IF r.a = 8 THEN TRUE ELSE Printed(r)) /\ UNCHANGED s
               ELSE s' = (IF r.c = 3 \/ quiet THEN s ELSE Logged(s, r.a, [line |-> sites[r.b].line, file |-> sites[r.b].file, args |-> Args(r.b)]))
            /\ UNCHANGED <<ty, sites, val, opt, quiet>>
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, ty, sites, val, s, opt, quiet>>
=============================================================================
