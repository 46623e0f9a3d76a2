------------------------------ MODULE TppTrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions: every trace of the batch must be a   *)
(* behaviour of Tpp.  A trace is accepted when all its events have been    *)
(* consumed; acceptance is printed and the caller compares with the number *)
(* of traces in the batch.                                                 *)
(***************************************************************************)
EXTENDS Tpp, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TPP_TRACES)

Diag == IOEnv.TPP_DIAG = "1"   \* tell how far a trace can be followed

VARIABLES tr, l
vars == <<S, tr, l>>

Ev(i, j) == Traces[i].ev[j]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ S = InitState

Consume ==
    /\ l <= Len(Traces[tr].ev)
    /\ S' \in Visible(S, Ev(tr, l))
    /\ l' = l + 1
    /\ tr' = tr
    /\ l = Len(Traces[tr].ev) => PrintT(<<"OK", Traces[tr].id>>)
    /\ Diag => PrintT(<<"AT", l>>)

Silent ==
    /\ l <= Len(Traces[tr].ev)
    /\ S' \in Hidden(S, Ev(tr, l).n)
    /\ UNCHANGED <<tr, l>>

Next == Consume \/ Silent
Spec == Init /\ [][Next]_vars

=============================================================================
