------------------------------ MODULE TypeDesc ------------------------------
(* What the library says about a type (U03): the capabilities of a class by   *)
(* its members, the signature of something callable, the class selected from *)
(* a list by a condition.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS MaxMembers, MaxArgs, Types, Weak

\* ---- classes as their members: how each is there ----------------------------------------------
\* no: not at all; plain: callable on a changeable object; const: callable on every object;
\* private: not accessible; other: something of this name that cannot be called so
Members == <<"begin", "end", "index", "size", "resize", "getSize", "setSize", "out">>
Ways == {"no", "plain", "const", "private", "other"}
Reads(f, m) == f[m] = "const"
Changes(f, m, const) == f[m] = "const" \/ (~const /\ f[m] = "plain")
\* of a class with the members f, itself const or not
Capabilities(f, const) == [
    iterable |-> Reads(f, "begin") /\ Reads(f, "end"),
    indexable |-> Reads(f, "index") /\ Reads(f, "size"),
    resizable |-> Changes(f, "resize", const),
    tnlIndexable |-> Reads(f, "index") /\ Reads(f, "getSize"),
    tnlResizable |-> Changes(f, "setSize", const),
    exportable |-> Reads(f, "out")]

\* ---- signatures -------------------------------------------------------------------------------
\* s: form (function, pointer, functor, mutable, lambda, method, constMethod, member), args, ret; ref ("", "&", "&&")
OwnClass(s) == CASE s.form = "method" -> <<"C&">> [] s.form = "member" -> <<"C&">> [] s.form = "constMethod" -> <<"const C&">> [] OTHER -> <<>>
Signature(s) == [ret |-> s.ret, args |-> OwnClass(s) \o s.args, arity |-> Len(OwnClass(s)) + Len(s.args)]

\* ---- selection --------------------------------------------------------------------------------
\* c: whether the condition holds for the classes of the list; the last one needs no condition
Selected(c) == LET hit == {j \in DOMAIN c : c[j]} IN IF hit = {} THEN Len(c) ELSE CHOOSE j \in hit : \A q \in hit : j <= q

\* ---- building them step by step -----------------------------------------------------------------
VARIABLES what, cls, sig, conds, before
tvars == <<what, cls, sig, conds, before>>
NoMembers == [m \in ToSet(Members) |-> "no"]
NoSig == [form |-> "function", args |-> <<>>, ret |-> "void", ref |-> ""]
Init == /\ what \in {"class", "sig", "list"} /\ cls = NoMembers /\ conds = <<>> /\ before = <<>>
        /\ sig \in IF what = "sig" THEN {[NoSig EXCEPT !.ret = t] : t \in Types} ELSE {NoSig}
Count == Cardinality({m \in DOMAIN cls : cls[m] # "no"})
AddMember == /\ what = "class" /\ Count < MaxMembers
             /\ \E m \in DOMAIN cls, w \in Ways \ {"no"} : cls[m] = "no" /\ cls' = [cls EXCEPT ![m] = w]
             /\ before' = cls /\ UNCHANGED <<what, sig, conds>>
AddArg == /\ what = "sig" /\ sig.form = "function" /\ Len(sig.args) < MaxArgs
          /\ \E t \in Types \ {"void"} : sig' = [sig EXCEPT !.args = Append(@, t)]
          /\ before' = <<>> /\ UNCHANGED <<what, cls, conds>>
Wrap == /\ what = "sig" /\ sig.form = "function"
        /\ \E f \in {"pointer", "functor", "mutable", "lambda", "method", "constMethod", "member"} :
             /\ f = "member" => sig.args = <<>> /\ sig.ret # "void"
             /\ sig' = [sig EXCEPT !.form = f]
        /\ before' = sig /\ UNCHANGED <<what, cls, conds>>
Refer == /\ what = "sig" /\ sig.ref = "" /\ \E r \in {"&", "&&"} : sig' = [sig EXCEPT !.ref = r] /\ before' = sig /\ UNCHANGED <<what, cls, conds>>
AddCond == /\ what = "list" /\ Len(conds) < 5 /\ \E b \in BOOLEAN : conds' = Append(conds, b) /\ before' = conds /\ UNCHANGED <<what, cls, sig>>
Next == AddMember \/ AddArg \/ Wrap \/ Refer \/ AddCond
Spec == Init /\ [][Next]_tvars

\* a member more takes no capability away; what a const class can, the changeable one can, too
Grows == (what = "class" /\ before # <<>>) => \A c \in BOOLEAN : LET a == Capabilities(before, c) b == Capabilities(cls, c) IN \A x \in DOMAIN a : a[x] => b[x]
ConstIsLess == what = "class" => LET a == Capabilities(cls, TRUE) b == Capabilities(cls, FALSE) IN \A x \in DOMAIN a : a[x] => b[x]
\* the return type and the arguments are those of the function it was made from; references change nothing
Keeps == (what = "sig" /\ before # <<>>) => LET a == Signature(before) b == Signature(sig) IN
    /\ a.ret = b.ret
    /\ IF before.form = sig.form THEN a = b
       ELSE b.args = (IF sig.form \in {"method", "constMethod", "member"} /\ Weak # "noclass" THEN <<b.args[1]>> ELSE <<>>) \o a.args
\* a class stays selected when the list grows behind it
Stays == (what = "list" /\ before # <<>>) => (TRUE \in ToSet(before) => Selected(conds) = Selected(before))
Emit == CASE what = "class" -> PrintT(ToJson([k |-> "class", f |-> cls])) [] what = "sig" -> PrintT(ToJson([k |-> "sig", s |-> sig])) [] OTHER -> conds # <<>> => PrintT(ToJson([k |-> "list", c |-> conds]))
=============================================================================
