----------------------------- MODULE MCDiagram -------------------------------
(* All small trees of spans; the diagram tells every call (lemmas); printed for replay. *)
EXTENDS Diagram, TLC, Json
CONSTANTS MaxN, Show
Svcs == {"a", "b"}
VARIABLE p
Init == p = <<[dep |-> 0, svc |-> "r"]>>
Next == Len(p) < MaxN /\ \E s \in Svcs, k \in 1..(Last(p).dep + 1) : p' = Append(p, [dep |-> k, svc |-> s])
Spec == Init /\ [][Next]_p
RECURSIVE Forest(_, _, _, _)
Forest(q, lo, hi, dep) ==
  IF lo > hi THEN <<>>
  ELSE LET later == {i \in (lo + 1)..hi : q[i].dep = dep}
           nx == IF later = {} THEN hi + 1 ELSE CHOOSE i \in later : \A j \in later : i <= j
       IN <<[svc |-> q[lo].svc, kids |-> Forest(q, lo + 1, nx - 1, dep + 1)]>> \o Forest(q, nx, hi, dep)
Tree == Forest(p, 1, Len(p), 0)[1]
Count(d, f(_)) == FoldLeft(LAMBDA a, e : a + f(e), 0, d)
Lemma == LET d == Whole(Tree) n == Len(p)
             parents == Cardinality({i \in 2..(n - 1) : p[i + 1].dep > p[i].dep})
             calls(e) == IF e.k = "call" THEN (IF e.n > 0 THEN e.n ELSE 1) ELSE 0
             acts(e) == IF e.k = "act" THEN 1 ELSE 0
             deacts(e) == IF e.k = "deact" THEN 1 ELSE 0
         IN /\ n > 1 => Count(d, calls) = (n - 1) + parents       \* every call, and the return of those which call others
            /\ Count(d, acts) = parents /\ Count(d, deacts) = parents
Emit == Show /\ Len(p) = MaxN => PrintT(<<"TREE", ToJson(p)>>)
=============================================================================
