----------------------------- MODULE Singleton -----------------------------
(* One object per class for the whole program (U01): threads request the      *)
(* instances of classes; the first request constructs the object. A           *)
(* constructor may request other instances and may fail; after a failure the  *)
(* next request constructs again.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

\* ---- what can be observed: calls, begins and ends of constructors, returns ------------------
\* s: owner (thread constructing), obj (constructed object), bad (first broken expectation)
Fresh(classes) == [owner |-> [c \in classes |-> 0], obj |-> [c \in classes |-> 0], fails |-> 0, bad |-> ""]
Bad(s, why) == [s EXCEPT !.bad = why]
Observe(s, e) ==
    IF s.bad # "" THEN s
    ELSE CASE e.k = "call" -> s
           [] e.k = "begin" -> IF s.obj[e.c] # 0 THEN Bad(s, "constructed once") ELSE IF s.owner[e.c] # 0 THEN Bad(s, "one constructor at a time") ELSE [s EXCEPT !.owner[e.c] = e.o]
           [] e.k = "end" -> IF s.owner[e.c] # e.o THEN Bad(s, "one constructor at a time") ELSE [s EXCEPT !.owner[e.c] = 0, !.obj[e.c] = e.o]
           [] e.k = "fail" -> IF s.owner[e.c] # e.o THEN Bad(s, "one constructor at a time") ELSE [s EXCEPT !.owner[e.c] = 0, !.fails = @ + 1]
           [] e.k = "ret" -> IF s.obj[e.c] = 0 THEN Bad(s, "the object is constructed before it is returned") ELSE IF s.obj[e.c] # e.o THEN Bad(s, "always the same object") ELSE s
           [] e.k = "exc" -> IF s.fails = 0 THEN Bad(s, "no exception without a failed constructor") ELSE [s EXCEPT !.fails = @ - 1]
           [] e.k = "del" -> Bad(s, "the object lives as long as the program")
Watch(classes, ev) == FoldLeft(Observe, Fresh(classes), ev)

\* ---- designs ---------------------------------------------------------------------------------
\* once: the first request constructs, the others wait for it
\* lazy: looks for the object, constructs and publishes it without synchronisation
\* early: as once, but published before the constructor has ended
\* biglock: one lock for all classes, not to be taken twice by a thread
CONSTANTS Threads, Classes, MaxReq, Design
VARIABLES prog, needs, fails, owner, obj, ids, lock, stack, pos, mon, hist
vars == <<prog, needs, fails, owner, obj, ids, lock, stack, pos, mon, hist>>
Programs == UNION {[1..n -> Classes] : n \in 1..MaxReq}
Start(progs) ==
    /\ prog \in progs
    /\ needs \in {[c \in Classes |-> {}], [c \in Classes |-> IF c = 1 THEN Classes \ {1} ELSE {}]}
    /\ fails \in {[c \in Classes |-> 0], [c \in Classes |-> IF c = 1 THEN 1 ELSE 0]}
    /\ owner = [c \in Classes |-> 0] /\ obj = [c \in Classes |-> 0] /\ ids = 0 /\ lock = 0
    /\ stack = [t \in Threads |-> <<>>] /\ pos = [t \in Threads |-> 1]
    /\ mon = Fresh(Classes) /\ hist = <<>>
Init == Start([Threads -> Programs])
Frame(t) == stack[t][Len(stack[t])]
SetTop(t, f) == stack' = [stack EXCEPT ![t][Len(stack[t])] = f]
Pop(t) == stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
See(k, c, o) == mon' = Observe(mon, [k |-> k, c |-> c, o |-> o])
Call(t) ==
    /\ \/ stack[t] = <<>> /\ pos[t] <= Len(prog[t]) /\ LET c == prog[t][pos[t]] IN
             /\ stack' = [stack EXCEPT ![t] = <<[c |-> c, ph |-> "in", o |-> 0, rest |-> needs[c]]>>]
             /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ hist' = Append(hist, <<"call", t, c>>)
       \/ stack[t] # <<>> /\ Frame(t).ph = "ctor" /\ Frame(t).rest # {} /\ LET c == CHOOSE x \in Frame(t).rest : \A y \in Frame(t).rest : x <= y IN
             /\ stack' = [stack EXCEPT ![t] = Append([stack[t] EXCEPT ![Len(stack[t])].rest = @ \ {c}], [c |-> c, ph |-> "in", o |-> 0, rest |-> needs[c]])]
             /\ pos' = pos /\ hist' = Append(hist, <<"call", t, c>>)
    /\ UNCHANGED <<prog, needs, fails, owner, obj, ids, lock, mon>>
Enter(t) ==
    /\ stack[t] # <<>> /\ Frame(t).ph = "in"
    /\ LET c == Frame(t).c IN
       IF obj[c] # 0 THEN SetTop(t, [Frame(t) EXCEPT !.ph = "ret", !.o = obj[c]]) /\ UNCHANGED <<owner, obj, ids, lock, mon>>
       ELSE /\ Design \in {"once", "early"} => owner[c] = 0
            /\ Design = "biglock" => lock = 0
            /\ ids' = ids + 1 /\ SetTop(t, [Frame(t) EXCEPT !.ph = "ctor", !.o = ids + 1])
            /\ owner' = [owner EXCEPT ![c] = t]
            /\ obj' = IF Design = "early" THEN [obj EXCEPT ![c] = ids + 1] ELSE obj
            /\ lock' = IF Design = "biglock" THEN t ELSE lock
            /\ See("begin", c, ids + 1)
    /\ UNCHANGED <<prog, needs, fails, pos, hist>>
End(t) ==
    /\ stack[t] # <<>> /\ Frame(t).ph = "ctor" /\ Frame(t).rest = {}
    /\ LET c == Frame(t).c IN
       /\ owner' = [owner EXCEPT ![c] = 0] /\ lock' = 0 /\ hist' = Append(hist, <<"end", t, c>>)
       /\ IF fails[c] > 0 THEN /\ fails' = [fails EXCEPT ![c] = @ - 1] /\ See("fail", c, Frame(t).o) /\ SetTop(t, [Frame(t) EXCEPT !.ph = "exc"])
                               /\ obj' = IF Design = "early" THEN [obj EXCEPT ![c] = 0] ELSE obj
          ELSE fails' = fails /\ See("end", c, Frame(t).o) /\ SetTop(t, [Frame(t) EXCEPT !.ph = "ret"]) /\ obj' = [obj EXCEPT ![c] = Frame(t).o]
    /\ UNCHANGED <<prog, needs, ids, pos>>
Return(t) ==
    /\ stack[t] # <<>> /\ Frame(t).ph \in {"ret", "exc"}
    /\ See(Frame(t).ph, Frame(t).c, Frame(t).o) /\ Pop(t)
    /\ UNCHANGED <<prog, needs, fails, owner, obj, ids, lock, pos, hist>>
Next == \E t \in Threads : Call(t) \/ Enter(t) \/ End(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

AsExpected == mon.bad = ""
Finished == \A t \in Threads : stack[t] = <<>> /\ pos[t] > Len(prog[t])
NeverStuck == Finished \/ ENABLED Next
NoHist == <<prog, needs, fails, owner, obj, ids, lock, stack, pos, mon>>
NeedsOne == \E c \in Classes : needs[c] # {}
=============================================================================
