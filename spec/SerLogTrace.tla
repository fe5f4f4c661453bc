---------------------------- MODULE SerLogTrace ----------------------------
(* Items of the trace: [k: kind, v: its value as text, n: its size in bytes]; *)
(* data, files: the bytes held by the serializers and the files.              *)
EXTENDS TraceBase, SerLog
VARIABLES st, data, files
TraceInit == i = 1 /\ st = Start /\ data = <<>> /\ files = <<>>
Items(r) == [j \in DOMAIN r.vals |-> [k |-> r.ks[j][1], v |-> r.vals[j]]]
Do(r) ==
    CASE r.op = "w" -> Write(st, r.a, Items(r))
      [] r.op = "r" -> Read(st, r.a, r.g)
      [] r.op = "b" -> Rewind(st, r.a)
      [] r.op = "c" -> Clear(st, r.a)
      [] r.op = "s" -> Save(st, r.a, r.g)
      [] r.op = "l" -> Load(st, r.a, r.g)
      [] r.op = "=" -> Copy(st, r.a)
      [] r.op = "~" -> Swap(st)
      [] OTHER -> st
Bytes(r) ==
    CASE r.op = "w" -> Len(r.data[r.a]) > Len(data[r.a]) /\ SubSeq(r.data[r.a], 1, Len(data[r.a])) = data[r.a] /\ r.data[3 - r.a] = data[3 - r.a]
      [] r.op = "c" -> r.data = [data EXCEPT ![r.a] = <<>>]
      [] r.op = "l" -> r.data = [data EXCEPT ![r.a] = files[r.g]]
      [] r.op = "=" -> r.data = [data EXCEPT ![r.a] = data[3 - r.a]]
      [] r.op = "~" -> r.data = <<data[2], data[1]>>
      [] OTHER -> r.data = data
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       IF r.op = "new" THEN st' = Start /\ Expect(r.data = <<<<>>, <<>>>> /\ r.valid = <<FALSE, FALSE>>, "new serializers") /\ data' = r.data /\ files' = r.files
       ELSE LET n == TLCEval(Do(r)) IN
            /\ Expect(r.op # "r" \/ Items(r) = ReadItems(st, r.a, r.g), "values read")
            /\ Expect(r.threw = (r.op = "x"), IF r.op = "x" THEN "an unwritable file is not reported" ELSE "unexpected exception")
            /\ Expect(Bytes(r), "data held by the serializers")
            /\ Expect(r.files = IF r.op = "s" THEN [files EXCEPT ![r.g] = data[r.a]] ELSE files, "content of the files")
            /\ Expect(r.valid = [a \in 1..2 |-> n.s[a].rd < Len(n.s[a].log)], "whether there is something to read")
            /\ st' = n /\ data' = r.data /\ files' = r.files
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, st, data, files>>
=============================================================================
