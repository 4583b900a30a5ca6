------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: are the recorded traces of the implementation behaviours   *)
(* of the session specification that violate nothing?                      *)
(*                                                                         *)
(* The file named by the environment variable TRACES has one trace per     *)
(* line, a record with the fields                                          *)
(*    id, w ("f64" or "f32"), memo, adv (see Session), ev (the calls).     *)
(* There is one initial state for each trace, and one step for each call.  *)
(* PROP names the property that is enforced ("ALL": all of them).         *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, l

Init == \E t \in DOMAIN Traces :
    /\ tid = t /\ l = 1
    /\ SessionInit([w |-> Traces[t].w, memo |-> Traces[t].memo, adv |-> Traces[t].adv])

Ev == Traces[tid].ev[l]
Is(ops) == l <= Len(Traces[tid].ev) /\ Ev.op \in ops
Consume == Call(Ev) /\ l' = l + 1 /\ UNCHANGED tid

MakePose       == Is({"extr_rc", "extr_pose", "extr_view", "extr_repose", "extr_rerc", "extr_of"}) /\ Consume
MakeIntrinsics == Is({"persp", "ortho", "custx", "custy", "norm34"}) /\ Consume
MakeCamera     == Is({"cam", "pmat_cam", "pmat_of"}) /\ Consume
MakeData       == Is({"pts", "pix", "bso", "bsd", "bpose", "ray"}) /\ Consume
ChangeFrame    == Is({"w2c", "c2w", "r2w"}) /\ Consume
Project_       == Is({"c2p", "w2p"}) /\ Consume
Unproject_     == Is({"p2c", "p2w"}) /\ Consume
UseBundle      == Is({"por", "pord", "bobs", "single"}) /\ Consume
Intersect      == Is({"isect"}) /\ Consume
Matrices       == Is({"cam_mat", "jac", "lin"}) /\ Consume
Values         == Is({"obs", "clone", "eq", "dbg"}) /\ Consume
SerializeObj   == Is({"serde", "serde_bad", "serde_read", "serde_form"}) /\ Consume
Utility        == Is({"util"}) /\ Consume
Threads        == Is({"par"}) /\ Consume

Next == \/ MakePose \/ MakeIntrinsics \/ MakeCamera \/ MakeData \/ ChangeFrame \/ Project_ \/ Unproject_
        \/ UseBundle \/ Intersect \/ Matrices \/ Values \/ SerializeObj \/ Utility \/ Threads

\* what the position in a trace is decides everything
Position == <<tid, l>>

Enforced == IF Prop = "ALL" THEN bad ELSE {b \in bad : b[1] = Prop}
Conforms == Enforced = {}
\* In place of the invariant: report every trace that does not conform, and do not follow it further.
Report == Enforced = {} \/ (PrintT(<<"REJECTED", Traces[tid].id>>) /\ FALSE)
Short == [trace |-> Traces[tid].id, next |-> l, bad |-> Enforced]
=============================================================================
