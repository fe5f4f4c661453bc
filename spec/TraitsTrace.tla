---------------------------- MODULE TraitsTrace ----------------------------
EXTENDS TraceBase, TraitsRW
VARIABLES s, reg
TraceInit == i = 1 /\ s = <<>> /\ reg = <<>>
Start(n) == <<[k \in 1..n |-> 2 * k], [k \in 1..n |-> 3 * k]>>
\* what the code shows of the traits t of the two objects
ViewOK(g, x, t, r) == LET atts == View(g, t) IN
    /\ Expect(r.size = Len(atts), "number of attributes")
    /\ Expect(r.direct = [k \in DOMAIN atts |-> atts[k].acc \in DirectKinds], "direct access")
    /\ Expect(r.const = [k \in DOMAIN atts |-> atts[k].acc \in ConstKinds], "constant access")
    /\ \A o \in {1, 2} :
        /\ Expect(r.obj[o].names = [k \in DOMAIN atts |-> atts[k].name], "names of the attributes")
        /\ Expect(\A k \in DOMAIN atts : \A w \in DOMAIN r.obj[o].vals[k] : r.obj[o].vals[k][w] = Value(x[o], atts[k]), "value of an attribute")
        /\ Expect(Len(r.obj[o].vals) = Len(atts), "number of values")
        /\ Expect(\A w \in DOMAIN r.obj[o].app : r.obj[o].app[w] = Shown(x[o], atts), "attributes given to a functor")
Holds(g, x, r) ==
    /\ Expect(r.cells = x, "members of the objects")
    /\ \A k \in DOMAIN r.views : ViewOK(g, x, r.views[k].t, r.views[k])
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       IF r.op[1] = "sel"     \* selection among bound traits
       THEN /\ LET e == Selected(r.bound, r.cl, r.default) IN
               /\ Expect(r.valid = (e # <<>>), "traits available for the class")
               /\ Expect(r.sel = e, "traits selected for the class")
               /\ Expect(r.shown = (IF e = <<>> THEN <<>> ELSE [k \in DOMAIN r.names[e[2]] |-> r.names[e[2]][k]]), "attributes of the selected traits")
            /\ UNCHANGED <<s, reg>>
       ELSE IF r.op[1] = "new"
       THEN /\ Holds(r.reg, Start(r.ncell), r)
            /\ Expect({r.views[k].t : k \in DOMAIN r.views} = {t \in {"D", "I", "A", "L"} : View(r.reg, t) # <<>>}, "traits of the class")
            /\ Expect(r.has = [D |-> r.reg["D"] # <<>>, I |-> View(r.reg, "I") # <<>>, A |-> View(r.reg, "A") # <<>>], "default traits of the class")
            /\ s' = Start(r.ncell) /\ reg' = r.reg
       ELSE LET x == Do(reg, s, r.op) IN
            /\ Holds(reg, x, r)
            /\ s' = x /\ UNCHANGED reg
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, s, reg>>
=============================================================================
