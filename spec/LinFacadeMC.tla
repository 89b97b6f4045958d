---------------------------- MODULE LinFacadeMC ----------------------------
(* An object that remembers its answers, keyed by the question with all its    *)
(* arguments: every answer it gives in any history of questions, assignments   *)
(* and copies is the answer of a fresh object.  With Depth the histories are   *)
(* printed as scripts.                                                          *)
EXTENDS LinFacade, TLC, Json
CONSTANTS Depth, KeyWithTol, Kinds, NM
S2 == <<<<2, 1>>, <<1, 3>>>>
U2 == <<<<1, "1/16">>, <<0, 2>>>>
R2 == <<<<1, 2>>, <<2, 4>>>>
M2 == <<<<1, 2>>, <<"3/2", 4>>>>
W2 == <<<<1, 0, 2>>, <<0, 1, 1>>>>
T2 == <<<<1, 1>>, <<0, 2>>, <<1, 0>>>>
Mats == <<S2, U2, R2, M2, W2, T2>>
Tols == <<0, "1/8", 1>>
Answer(A, q) ==
  LET t == Tols[q[2]] IN
  CASE q[1] = "sym" -> SymTol(A, t)
    [] q[1] = "pd" -> SymTol(A, t) /\ PosDef(SymPart(A))
    [] q[1] = "upper" -> UpperTol(A, t)
    [] q[1] = "lower" -> LowerTol(A, t)
    [] q[1] = "sparse" -> ZerosUpTo(A, t)
VARIABLES objs, last, hist
vars == <<objs, last, hist>>
Objs == 1..2
Key(q) == IF KeyWithTol THEN q ELSE <<q[1], 0>>
Init == objs = [i \in Objs |-> [sys |-> i, memo |-> NoMemo]] /\ last = <<>> /\ hist = <<>>
Log(x) == hist' = IF Depth = 0 THEN <<>> ELSE Append(hist, x)
Ask(i, q) ==
  LET o == objs[i] A == Mats[o.sys] k == Key(q)
      a == IF Knows(o.memo, k) THEN Recall(o.memo, k).a ELSE Answer(A, q)
  IN /\ last' = <<i, q, a>>
     /\ objs' = [objs EXCEPT ![i].memo = IF Knows(@, k) THEN @ ELSE @ \cup {[q |-> k, a |-> a]}]
     /\ Log(<<"ask", i, q[1], q[2]>>)
Assign(i, m) == objs' = [objs EXCEPT ![i] = [sys |-> m, memo |-> NoMemo]] /\ last' = <<>> /\ Log(<<"assign", i, "", m>>)
Copy(i, j) == i # j /\ objs' = [objs EXCEPT ![i] = objs[j]] /\ last' = <<>> /\ Log(<<"copy", i, "", j>>)
Next == \/ \E i \in Objs, q \in Kinds \X DOMAIN Tols : Ask(i, q)
        \/ \E i \in Objs, m \in 1..NM : Assign(i, m)
        \/ \E i, j \in Objs : Copy(i, j)
Spec == Init /\ [][Next]_vars
Fresh == last # <<>> => last[3] = Answer(Mats[objs[last[1]].sys], last[2])
MemoTrue == \A i \in Objs : \A m \in objs[i].memo : m.a = Answer(Mats[objs[i].sys], m.q)
Small == \A i \in Objs : Cardinality(objs[i].memo) <= 2
\* the first object is asked the most
Emit == (Depth > 0 /\ Len(hist) = Depth) => PrintT("SCRIPT|" \o ToJson(hist))
Bounded == Depth = 0 \/ Len(hist) <= Depth
ASSUME PLU(M2, <<1, 2>>, <<<<1, 0>>, <<"3/2", 1>>>>, <<<<1, 2>>, <<0, 1>>>>) /\ PLU(M2, <<2, 1>>, <<<<1, 0>>, <<"2/3", 1>>>>, <<<<"3/2", 4>>, <<0, "-2/3">>>>)
ASSUME ~PLU(M2, <<2, 1>>, <<<<1, 0>>, <<"3/2", 1>>>>, <<<<1, 2>>, <<0, 1>>>>)
ASSUME Digits(3, 5000) /\ ~Digits(3, 500) /\ ~Digits(3, 10000)
ASSUME RankAt(<<3, 1, "1/4">>, "1/2") = 2 /\ Dominant(S2) /\ ~Dominant(R2)
=============================================================================
