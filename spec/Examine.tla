------------------------------ MODULE Examine ------------------------------
(***************************************************************************)
(* One run of  gr db suggest <backend> [--with-examine] [-i ...]           *)
(* against a server that may fail any statement.  The state is what the    *)
(* program has sent and got so far and what temporary indexes the server   *)
(* holds.  The fault plan is chosen in the initial state.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Backends,     \* subset of {"mysql", "postgres", "hasura"}
          MaxTargets,   \* how many indexes are examined at most
          MaxFaults     \* how many statements fail at most

VARIABLES be, examine, n,       \* configuration: backend, --with-examine, number of targets
          plan,                 \* set of [kind, nth, mode]
          pc, cur, hist, live, err, result

vars == <<be, examine, n, plan, pc, cur, hist, live, err, result>>

Modes == {"err", "close", "close_after"}
(* statements that can occur in a run with m targets *)
StmtIds(ex, m) ==
  {<<"explain", 1>>, <<"columns", 1>>, <<"indexes", 1>>}
  \cup (IF ex THEN {<<"exec", i>> : i \in 1..(m+1)} \cup {<<k, i>> : k \in {"create", "drop"}, i \in 1..m} ELSE {})

Plans(ex, m) ==
  LET one == [id : StmtIds(ex, m), mode : Modes]
  IN {{}} \cup {{a} : a \in one}
     \cup (IF MaxFaults >= 2 THEN {{p[1], p[2]} : p \in {q \in one \X one : q[1].id # q[2].id}} ELSE {})

Idx(i) == [table |-> "t", name |-> i]

Count(k) == Cardinality({i \in DOMAIN hist : hist[i].k = k})
ModeOf(k) == LET m == {f \in plan : f.id = <<k, Count(k) + 1>>}
             IN IF m = {} THEN "ok" ELSE (CHOOSE f \in m : TRUE).mode

Init == /\ be \in Backends
        /\ examine \in BOOLEAN
        /\ n \in 0..MaxTargets
        /\ (~examine => n = 0)
        /\ plan \in Plans(examine, n)
        /\ pc = "explain" /\ cur = 0 /\ hist = <<>> /\ live = {} /\ err = FALSE /\ result = "running"

Ev(k, i, res) == [k |-> k, same |-> k \in {"exec", "explain"}, an |-> be # "hasura" /\ k = "explain", ro |-> FALSE,
                  multi |-> FALSE,
                  name |-> i, table |-> IF i = 0 THEN "" ELSE "t", cols |-> <<i>>, res |-> res, live |-> live,
                  t0 |-> 0, t1 |-> 0]

(* The server's side of one statement: outcome and effect. *)
Serve(k, i, res) ==
  LET m == ModeOf(k)
      dup == k = "create" /\ Idx(i) \in live
      gone == k = "drop" /\ Idx(i) \notin live
      applied == m \in {"ok", "close_after"} /\ ~dup /\ ~gone
  IN /\ res = (IF m = "ok" THEN (IF dup \/ gone THEN "err" ELSE "ok") ELSE IF m = "err" THEN "err" ELSE "lost")
     /\ hist' = Append(hist, Ev(k, i, res))
     /\ live' = IF k = "create" /\ applied THEN live \cup {Idx(i)}
                ELSE IF k = "drop" /\ applied THEN live \ {Idx(i)} ELSE live

(* The driver may repeat a statement whose connection broke, at most twice
   (database/sql does so if the driver reports a bad connection). *)
Attempts(k) == LET S == {j \in DOMAIN hist : \A l \in j..Len(hist) : hist[l].k = k /\ hist[l].res = "lost"}
               IN Cardinality(S)
CanRetry(k) == be # "hasura" /\ Attempts(k) < 2

Send(k, i, onok, onfail) ==
  \E res \in {"ok", "err", "lost"} :
    /\ Serve(k, i, res)
    /\ \/ res = "ok" /\ onok
       \/ res = "lost" /\ CanRetry(k) /\ UNCHANGED <<pc, cur, err, result>>
       \/ res # "ok" /\ onfail

Stop == pc' = "done" /\ err' = TRUE /\ result' = "error" /\ UNCHANGED cur
Go(p) == pc' = p /\ UNCHANGED <<cur, err, result>>
Finish == pc' = "done" /\ result' = "report" /\ UNCHANGED <<cur, err>>

Explain == pc = "explain" /\ Send("explain", 0, Go("columns"), Stop)
(* with no candidate there is no existing index to compare with *)
Columns == /\ pc = "columns"
           /\ \/ Send("columns", 0, Go("indexes"), Stop)
              \/ Send("columns", 0, IF examine THEN Go("base") ELSE Finish, Stop)
Indexes == pc = "indexes" /\ Send("indexes", 0, IF examine THEN Go("base") ELSE Finish, Stop)
Base    == pc = "base" /\ Send("exec", 0, IF n = 0 THEN Finish ELSE pc' = "create" /\ cur' = 1 /\ UNCHANGED <<err, result>>, Stop)
Create  == pc = "create" /\ Send("create", cur, Go("measure"), Stop)
Measure == pc = "measure" /\ Send("exec", 0, Go("drop"), pc' = "drop" /\ err' = TRUE /\ UNCHANGED <<cur, result>>)
Drop    == pc = "drop"
           /\ Send("drop", cur,
                   IF err THEN Stop
                   ELSE IF cur = n THEN Finish
                   ELSE pc' = "create" /\ cur' = cur + 1 /\ UNCHANGED <<err, result>>,
                   Stop)

Next == (Explain \/ Columns \/ Indexes \/ Base \/ Create \/ Measure \/ Drop) /\ UNCHANGED <<be, examine, n, plan>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(pc = "done")
=============================================================================
