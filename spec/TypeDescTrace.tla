--------------------------- MODULE TypeDescTrace ----------------------------
(* What the library said about generated types (see TypeDesc).                *)
EXTENDS TraceBase, TypeDesc
TraceInit == i = 1 /\ what = "" /\ cls = <<>> /\ sig = <<>> /\ conds = <<>> /\ before = <<>>
Same(a, b) == \A x \in DOMAIN b : Expect(a[x] = b[x], x)
\* top-level const of a parameter is no part of a signature
Plain(t) == IF t = "const int" THEN "int" ELSE t
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] p == r.p IN
       CASE p.k = "class" -> Same(r.plain, Capabilities(p.f, FALSE)) /\ Same(r.const, Capabilities(p.f, TRUE))
         [] p.k = "sig" -> LET s == Signature(p.s) IN
              /\ Expect(r.arity = s.arity, "number of arguments")
              /\ Expect(r.ret = s.ret, "type of the result")
              /\ Expect(r.args = [j \in DOMAIN s.args |-> Plain(s.args[j])], "types of the arguments")
         [] p.k = "list" -> Expect(r.sel = Selected(p.c), "the first class that meets the condition")
    /\ i' = i + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, tvars>>
=============================================================================
