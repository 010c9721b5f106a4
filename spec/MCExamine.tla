----------------------------- MODULE MCExamine -----------------------------
(* Exhaustive check of the design, and source of the fault plans replayed
   into the real program. *)
EXTENDS Examine, Json
H == INSTANCE History

TypeOK == /\ pc \in {"explain", "columns", "indexes", "base", "create", "measure", "drop", "done"}
          /\ result \in {"running", "report", "error"}
          /\ (result = "running") = (pc # "done")

InvC01 == pc = "done" => H!C01(be, hist, live)
InvC02 == H!C02(be, hist) /\ (result = "report" /\ examine => H!C02Success(hist))
InvC03 == result # "running" => H!NoReportWhenFailed(hist, IF result = "error" THEN 1 ELSE 0,
                                                     IF result = "report" THEN "written" ELSE "absent")
InvC04 == H!OnlyAllowed(hist, examine)
InvC05 == H!ExaminedExactly(hist, [i \in 1..n |-> [table |-> "t", cols |-> <<i>>]], result = "report")

Emit == pc = "done" =>
  PrintT(<<"SCN", ToJson([be |-> be, ex |-> examine, n |-> n,
                          plan |-> {[kind |-> f.id[1], nth |-> f.id[2], mode |-> f.mode] : f \in plan},
                          h |-> [i \in DOMAIN hist |-> <<hist[i].k, hist[i].name, hist[i].res>>],
                          result |-> result])>>)
=============================================================================
