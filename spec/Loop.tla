-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* The design: the round trip utility as a loop over rows and columns, one *)
(* pixel at a time.  It stops when it has seen the grid, and the model     *)
(* passes exactly when no pixel of Grid (CamGeom) is a bad one.            *)
(***************************************************************************)
EXTENDS CamGeom, FiniteSets, TLC, IOUtils

Large == IOEnv.SIZE = "large"
D(x) == IOEnv.DEFECT = x

VARIABLES w, h, step, border,   \* the arguments
          spot,                 \* the pixel that does not come back, or <<>>
          row, col, seen, pass, pc
vars == <<w, h, step, border, spot, row, col, seen, pass, pc>>
args == <<w, h, step, border, spot>>

Max == IF Large THEN 9 ELSE 6
Init == /\ w \in 0..Max /\ h \in 0..Max /\ step \in 1..4 /\ border \in 0..3
        /\ border <= w /\ border <= h
        /\ spot \in {<<>>, <<0, 0>>, <<border, border>>, <<w - 1, h - 1>>, <<w - border, border>>, <<w - border - 1, h - border - 1>>,
                     <<border + step, border>>}
        /\ row = border /\ col = border /\ seen = <<>> /\ pass = TRUE /\ pc = "row"

EndOf(size) == IF D("last") THEN size - border + 1 ELSE size - border
Row == /\ pc = "row"
       /\ IF row < EndOf(h) THEN pc' = "col" /\ col' = border ELSE pc' = "done" /\ UNCHANGED col
       /\ UNCHANGED <<args, row, seen, pass>>
Col == /\ pc = "col"
       /\ IF col < EndOf(w)
          THEN /\ seen' = Append(seen, <<col, row>>)
               /\ pass' = IF D("lastonly") THEN <<col, row>> # spot ELSE pass /\ <<col, row>> # spot
               /\ col' = col + step
               /\ UNCHANGED <<row, pc>>
          ELSE /\ row' = row + step /\ pc' = "row"
               /\ UNCHANGED <<col, seen, pass>>
       /\ UNCHANGED args
Next == Row \/ Col
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Range(s) == {s[i] : i \in DOMAIN s}
Complete == pc = "done" => Range(seen) = Grid(w, h, step, border)
Once == Cardinality(Range(seen)) = Len(seen)
InGrid == Range(seen) \subseteq Grid(w, h, step, border)
Verdict == pc = "done" => (pass <=> spot \notin Grid(w, h, step, border))
Ends == <>(pc = "done")
=============================================================================
