------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The design: objects are values, calls work row by row, and threads do   *)
(* not notice each other.                                                  *)
(*                                                                         *)
(* Threads call operations on shared objects and copies of them.  A call   *)
(* computes its rows one at a time, in any order, into a buffer of its     *)
(* own.  What a row yields is left open: it is the term <<obj, row>>.      *)
(* Objects are written to forms, forms may be damaged, and are read again. *)
(* Between calls objects are moved, so that one is where another one was.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

Large == IOEnv.SIZE = "large"
D(x) == IOEnv.DEFECT = x

Threads == 1..2
Values_ == {"a", "b"}                       \* what objects can be
Regs == 1..(IF Large THEN 3 ELSE 2)
RowsOf == {<<>>, <<"x">>, <<"x", "y">>, <<"y", "y">>}

VARIABLES obj,      \* register -> value, or "none"
          at,       \* register -> where the object lies
          was,      \* ghost: the value that the object in a register was made with
          form,     \* a serialized form: [v: value, whole: is it undamaged], or "none"
          call,     \* thread -> the call that it is in
          scratch,  \* something global that a wrong implementation uses: <<>>, <<value>> or <<value, place>>
          done      \* results of the calls that have ended
vars == <<obj, at, was, form, call, scratch, done>>

Idle == [pc |-> "idle", r |-> 0, rows |-> <<>>, out |-> <<>>, todo |-> {}]
Init == /\ obj = [r \in Regs |-> "none"] /\ was = obj
        /\ form = [v |-> "none", whole |-> FALSE]
        /\ call = [t \in Threads |-> Idle]
        /\ scratch = <<>>
        /\ at = [r \in Regs |-> r]
        /\ done = {}

Make == \E r \in Regs, v \in Values_ :
    /\ obj[r] = "none"
    /\ obj' = [obj EXCEPT ![r] = v] /\ was' = [was EXCEPT ![r] = v]
    /\ UNCHANGED <<at, form, call, scratch, done>>
Clone == \E r, s \in Regs :
    /\ obj[r] # "none" /\ obj[s] = "none"
    /\ obj' = [obj EXCEPT ![s] = obj[r]] /\ was' = [was EXCEPT ![s] = was[r]]
    /\ UNCHANGED <<at, form, call, scratch, done>>
Write == \E r \in Regs :
    /\ obj[r] # "none"
    /\ form' = [v |-> IF D("write") THEN "a" ELSE obj[r], whole |-> TRUE, of |-> was[r]]
    /\ UNCHANGED <<obj, at, was, call, scratch, done>>
Damage == /\ form.v # "none" /\ form.whole
          /\ form' = [form EXCEPT !.whole = FALSE]
          /\ UNCHANGED <<obj, at, was, call, scratch, done>>
Read == \E r \in Regs :
    /\ form.v # "none" /\ obj[r] = "none"
    /\ form.whole \/ D("lenient")
    /\ obj' = [obj EXCEPT ![r] = IF form.whole THEN form.v ELSE "b"] /\ was' = [was EXCEPT ![r] = form.of]
    /\ UNCHANGED <<at, form, call, scratch, done>>

Begin == \E t \in Threads, r \in Regs, rows \in RowsOf :
    /\ call[t].pc = "idle" /\ obj[r] # "none" /\ Cardinality(done) < (IF Large \/ D("address") THEN 2 ELSE 1)
    /\ call' = [call EXCEPT ![t] = [pc |-> "busy", r |-> r, rows |-> rows,
                                    out |-> [i \in DOMAIN rows |-> <<>>], todo |-> DOMAIN rows]]
    /\ scratch' = IF D("scratch") THEN <<obj[r]>> ELSE scratch       \* an implementation that keeps the object in a global
    /\ UNCHANGED <<obj, at, was, form, done>>
OneRow == \E t \in Threads : \E i \in call[t].todo :
    LET c == call[t]
        v == IF \/ D("scratch")
                \/ D("stale") /\ scratch # <<>>
                \/ D("address") /\ scratch # <<>> /\ scratch[2] = at[c.r]
             THEN scratch[1] ELSE obj[c.r]
        x == IF D("carry") /\ i > 1 THEN c.rows[1] ELSE c.rows[i]
    IN /\ call' = [call EXCEPT ![t].out[i] = <<v, x>>, ![t].todo = @ \ {i}]
       /\ scratch' = CASE D("stale") -> <<obj[c.r]>>            \* one that remembers the first object only
                       [] D("address") -> <<v, at[c.r]>>        \* one that tells objects by their place
                       [] OTHER -> scratch
       /\ UNCHANGED <<obj, at, was, form, done>>
End == \E t \in Threads :
    /\ call[t].pc = "busy" /\ call[t].todo = {}
    /\ done' = done \cup {[v |-> was[call[t].r], rows |-> call[t].rows, out |-> call[t].out]}
    /\ call' = [call EXCEPT ![t] = Idle]
    /\ UNCHANGED <<obj, at, was, form, scratch>>
\* a call borrows its object: it stays where it is until the call has ended
Borrowed(r) == \E t \in Threads : call[t].pc = "busy" /\ call[t].r = r
Move == \E r, s \in Regs :
    /\ r < s /\ ~Borrowed(r) /\ ~Borrowed(s)
    /\ at' = [at EXCEPT ![r] = at[s], ![s] = at[r]]
    /\ UNCHANGED <<obj, was, form, call, scratch, done>>
Next == Make \/ Move \/ Clone \/ Write \/ Damage \/ Read \/ Begin \/ OneRow \/ End

\* C20: objects do not change; C18: what is read is what was written, and nothing is read from a damaged form
Unchanged_ == obj = was
\* C12: as many rows as were given, each the one for its argument; C20: whoever calls, whenever
RowByRow == \A d \in done : d.out = [i \in DOMAIN d.rows |-> <<d.v, d.rows[i]>>]
\* C12, C20: results for the same object and row are the same wherever they occur
Function_ == \A d, e \in done : \A i \in DOMAIN d.rows, j \in DOMAIN e.rows :
    (d.v = e.v /\ d.rows[i] = e.rows[j]) => d.out[i] = e.out[j]
=============================================================================
