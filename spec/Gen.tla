-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Sessions with cam-geom, made by TLC.                                    *)
(*                                                                         *)
(* The state is a session in the making: the calls so far (code) and what  *)
(* kind of object each register holds (heap).  A step adds one call, whose *)
(* arguments are taken from small catalogs of numbers that are special in  *)
(* some way, or are registers with objects of the right kind.              *)
(*                                                                         *)
(* Checked breadth first, every session of the shapes that the environment *)
(* variable PROP selects is reached (Mode "shapes").  In simulation, any   *)
(* call may follow any other (Mode "free").  Complete sessions are printed *)
(* as programs for the harness, which runs them on the real crate; the     *)
(* traces it records are then judged by Trace.tla.                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode, Depth

VARIABLES w,        \* width of the numbers
          shape,    \* families of the calls (shapes), or <<>> (free)
          code,     \* the calls so far
          heap      \* kinds of the objects in the registers

vars == <<w, shape, code, heap>>
Prop == IOEnv.PROP

-----------------------------------------------------------------------------
(* Catalogs *)
Z == "0"
Quats == {<<"1", Z, Z, Z>>, <<Z, "1", Z, Z>>, <<Z, Z, Z, "-1">>, <<"1", "1", Z, Z>>, <<"-1", "1", "1", "1">>,
          <<"1", "2", "3", "4">>, <<"-2", "1", Z, "5">>, <<"1", Z, "1@-12", Z>>}
SomeQuats == {<<"1", Z, Z, Z>>, <<Z, "1", "1", Z>>, <<"1", "2", "3", "4">>, <<"-2", "1", Z, "5">>}
Centers == {<<Z, Z, Z>>, <<"10", Z, "10">>, <<"-3", "0.5", "7">>, <<"1@20", "-1@18", "3">>, <<Z, Z, "-5">>}
SomeCenters == {<<Z, Z, Z>>, <<"-3", "0.5", "7">>}
Views == {<<c, l, u>> : c \in {<<Z, Z, Z>>, <<"10", "-4", "2">>},
                        l \in {<<"10", "-4", "5">>, <<"3", Z, Z>>, <<"-1", "-2", "-2">>},
                        u \in {<<Z, Z, "1">>, <<Z, "-1", Z>>, <<"1", "1", "0.25">>}}
Persps == {<<"100", "102", "0.5", "321", "239.9">>, <<"-50", "50", "-3", "10", Z>>, <<"1", "1", Z, Z, Z>>,
           <<"600", "-601", "40", "320", "240">>}
Orthos == {<<"100", "102", "321", "239.9">>, <<"-2", "0.25", "7", "-7">>, <<"1", "1", Z, Z>>}
Custs  == {<<"1", "-2", "0.25">>, <<Z, Z, Z>>}
Many3 == [i \in 1..16 |-> <<ToString(i - 8), ToString(3 - i), ToString(2 * i - 9)>>]
Many2 == [i \in 1..16 |-> <<ToString(40 * i), ToString(500 - 37 * i)>>]
Rows3 == {<<>>,
          <<<<Z, Z, "1">>>>,
          <<<<"1", "-2", "4">>>>,
          <<<<"1", "-2", "-4">>, <<Z, Z, Z>>, <<"3", "5", "0.5">>>>,
          <<<<"1", "2", "3">>, <<"1", "2", "3">>, <<"nan", Z, "1">>, <<"1", "2", "3">>, <<"-1", "-2", "-3">>>>,
          <<<<"1@12", "-1@11", "1@13">>, <<"1@-10", "1@-11", "1@-12">>>>,
          Many3}
SomeRows3 == {<<<<"1", "-2", "4">>>>,
              <<<<"1", "2", "3">>, <<"nan", Z, "1">>, <<"1", "2", "3">>, <<"-1", "-2", "-3">>>>}
Rows2 == {<<>>,
          <<<<"321", "239.9">>>>,
          <<<<"100", "100">>>>,
          <<<<Z, Z>>, <<"640", "1">>, <<"-50.5", "12.25">>>>,
          <<<<"1", "2">>, <<"1", "2">>, <<"inf", Z>>, <<"1", "2">>, <<"2", "1">>>>,
          Many2}
SomeRows2 == {<<<<"100", "200">>>>, <<<<"1", "2">>, <<"inf", Z>>, <<"1", "2">>, <<"640", "-1">>>>}
Dists == {Z, "1", "-2.5", "1@12"}
Lists6 == {<<>>,
           <<<<"1", Z, Z, Z, "1", Z>>>>,
           <<<<"1", Z, Z, Z, "1", Z>>, <<Z, "2", "1", "1", Z, Z>>>>,
           <<<<"1", Z, Z, Z, "-4", Z>>, <<Z, "2", "1", "1@10", Z, Z>>, <<Z, Z, "5", "0.5", "0.5", "-1">>>>,
           <<<<"1", "2", "3", "1", "1", "1">>, <<"4", "2", "3", "2", "2", "2">>>>,
           <<<<"1", "2", "3", "1", "1", "1">>, <<"1", "2", "3", "1", "1", "1">>, <<"7", "-2", Z, Z, "3", "1">>>>,
           [i \in 1..20 |-> <<ToString(i - 8), ToString(3 - i), ToString((i * i) \div 9), ToString((i * 5) \div 7 - 3), "1", ToString(2 - (i * i) \div 30)>>]}
Mats == {<<"100", "0.5", "321", "7", Z, "102", "239.9", "-9", Z, Z, "1", "5">>,
         <<"1", "2", "3", "4", "0.5", "-6", "7", "8", "9", "1", "1", "-3">>,
         <<"-3", Z, Z, "1", Z, "3", Z, "2", Z, Z, "-3", "3">>,
         <<"1@-20", "2@-20", "3@-20", "4@-20", "5@-21", "-6@-20", "7@-20", "8@-20", "9@-20", "1@-20", "1@-20", "-3@-20">>,
         <<"1", "2", "3", "4", "2", "4", "6", "8", "9", "1", "1", "-3">>}
Norms == LET m == <<"100", "0.5", "321", Z, Z, "102", "239.9", Z, Z, Z, "1", Z>> IN
         {m} \cup {[m EXCEPT ![i] = x] : i \in 1..12, x \in {"1", "-1", "1@-10", "-1@-18", "nan", "1@-300"}}
Utils == {<<10, 8, 1, 0>>, <<10, 8, 3, 2>>, <<7, 7, 7, 3>>, <<5, 9, 2, 1>>, <<4, 4, 1, 2>>}
Spikes == {<<>>} \cup {<<ToString(x), ToString(y), d, e>> : d \in {"0", "4"}, e \in {"0", "-4"}, x \in {0, 2, 3, 9}, y \in {0, 2, 5, 7}}
Routes == {"value", "bincode", "text", "reader"}
Lays(rows) == IF Len(rows) \in {1, 2, 3, 5, 16} THEN {"s", "d", "v"} ELSE {"d", "v"}
OneLay(rows) == IF Len(rows) \in {1, 2, 3, 5, 16} THEN {"s"} ELSE {"d"}

-----------------------------------------------------------------------------
(* Calls.  A choice is <<call, kind of the object it makes>>, "" for none. *)
Kind(r) == heap[r].k
Regs(ks) == IF Mode = "free" THEN {r \in DOMAIN heap : Kind(r) \in ks}
            ELSE LET s == {r \in DOMAIN heap : Kind(r) \in ks} IN {r \in s : \A q \in s : q <= r}
New(k) == [k |-> k, n |-> 0, lay |-> ""]
Data(k, n, lay) == [k |-> k, n |-> n, lay |-> lay]
Nothing == New("")
IntrKinds == {"persp", "ortho", "custx", "custy"}
CamKinds == {"camp", "camo", "camx", "camy"}
CamKind(k) == CASE k = "persp" -> "camp" [] k = "ortho" -> "camo" [] k = "custx" -> "camx" [] OTHER -> "camy"
Poses_ == {"extr"} \cup CamKinds
OutLay(lay) == IF lay = "v" THEN "d" ELSE lay
Like(k, r) == Data(k, heap[r].n, OutLay(heap[r].lay))

Choices(f) ==
    CASE f = "persp" -> {<<[op |-> "persp", p |-> p], New("persp")>> : p \in Persps}
      [] f = "ortho" -> {<<[op |-> "ortho", p |-> p], New("ortho")>> : p \in Orthos}
      [] f = "custx" -> {<<[op |-> "custx", p |-> p], New("custx")>> : p \in Custs}
      [] f = "custy" -> {<<[op |-> "custy", p |-> p], New("custy")>> : p \in Custs}
      [] f = "cspike" -> {<<[op |-> k, p |-> <<"1", "-2", "0.25">>, spike |-> s], New(k)>> : k \in {"custx", "custy"}, s \in Spikes}
      [] f = "rc"    -> {<<[op |-> "extr_rc", q |-> q, c |-> c], New("extr")>> : q \in Quats, c \in Centers}
      [] f = "iso"   -> {<<[op |-> "extr_pose", q |-> q, t |-> c], New("extr")>> : q \in Quats, c \in Centers}
      [] f = "rc1"   -> {<<[op |-> "extr_rc", q |-> q, c |-> c], New("extr")>> : q \in SomeQuats, c \in SomeCenters}
      [] f = "view"  -> {<<[op |-> "extr_view", c |-> v[1], l |-> v[2], up |-> v[3]], New("extr")>> : v \in Views}
      [] f = "repose" -> {<<[op |-> "extr_repose", e |-> e], New("extr")>> : e \in Regs(Poses_)}
      [] f = "rerc"   -> {<<[op |-> "extr_rerc", e |-> e], New("extr")>> : e \in Regs(Poses_)}
      [] f = "of"     -> {<<[op |-> "extr_of", e |-> e], New("extr")>> : e \in Regs(CamKinds)}
      [] f = "cam"    -> {<<[op |-> "cam", i |-> i, e |-> e], New(CamKind(Kind(i)))>> : i \in Regs(IntrKinds), e \in Regs({"extr"})}
      [] f = "pts"    -> UNION {{<<[op |-> "pts", rows |-> x, lay |-> y], Data("pts", Len(x), y)>> : y \in Lays(x)} : x \in Rows3}
      [] f = "pts1"   -> UNION {{<<[op |-> "pts", rows |-> x, lay |-> y], Data("pts", Len(x), y)>> : y \in OneLay(x)} : x \in SomeRows3}
      [] f = "point"  -> {<<[op |-> "pts", rows |-> <<x>>, lay |-> y], Data("pts", 1, y)>> :
                              y \in {"s", "v"}, x \in {<<"1", "-2", "4">>, <<"0.5", "3", "-20">>, <<Z, Z, Z>>, <<"1@10", "5", "7">>}}
      [] f = "pix"    -> UNION {{<<[op |-> "pix", rows |-> x, lay |-> y], Data("pix", Len(x), y)>> : y \in Lays(x)} : x \in Rows2}
      [] f = "pix1"   -> UNION {{<<[op |-> "pix", rows |-> x, lay |-> y], Data("pix", Len(x), y)>> : y \in OneLay(x)} : x \in SomeRows2}
      [] f = "w2c"    -> {<<[op |-> "w2c", e |-> e, x |-> x], Like("pts", x)>> : e \in Regs(Poses_), x \in Regs({"pts"})}
      [] f = "c2w"    -> {<<[op |-> "c2w", e |-> e, x |-> x], Like("pts", x)>> : e \in Regs(Poses_), x \in Regs({"pts"})}
      [] f = "c2p"    -> {<<[op |-> "c2p", i |-> i, x |-> x], Like("pix", x)>> : i \in Regs(IntrKinds), x \in Regs({"pts"})}
      [] f = "p2c"    -> {<<[op |-> "p2c", i |-> i, x |-> x], Like("bunc", x)>> : i \in Regs(IntrKinds), x \in Regs({"pix"})}
      [] f = "w2p"    -> {<<[op |-> "w2p", cam |-> c, x |-> x], Like("pix", x)>> : c \in Regs(CamKinds), x \in Regs({"pts"})}
      [] f = "p2w"    -> {<<[op |-> "p2w", cam |-> c, x |-> x], Like("bunw", x)>> : c \in Regs(CamKinds), x \in Regs({"pix"})}
      [] f = "bso"    -> UNION {{<<[op |-> "bso", fr |-> "c", rows |-> x, lay |-> y], Data("bunc", Len(x), y)>> : y \in Lays(x)} : x \in Rows3}
      [] f = "bsd"    -> UNION {{<<[op |-> "bsd", fr |-> "w", rows |-> x, lay |-> y], Data("bunw", Len(x), y)>> : y \in Lays(x)} : x \in Rows3}
      [] f = "bsdc"   -> UNION {{<<[op |-> "bsd", fr |-> "c", rows |-> x, lay |-> y], Data("bunc", Len(x), y)>> : y \in Lays(x)} : x \in Rows3}
      [] f = "bpose"  -> {<<[op |-> "bpose", so |-> s, fr |-> "c", rows |-> x, lay |-> "d", q |-> q, t |-> <<"1", "-2", "0.5">>],
                            Data("bunc", Len(x), "d")>> : s \in {TRUE, FALSE}, x \in SomeRows3, q \in SomeQuats}
      [] f = "r2w"    -> {<<[op |-> "r2w", e |-> e, b |-> b], Like("bunw", b)>> : e \in Regs(Poses_), b \in Regs({"bunc"})}
      [] f = "por"    -> {<<[op |-> "por", b |-> b], Like("pts", b)>> : b \in Regs({"bunc", "bunw"})}
      [] f = "pord"   -> {<<[op |-> "pord", b |-> b, d |-> d], Like("pts", b)>> : b \in Regs({"bunc", "bunw"}), d \in Dists}
      [] f = "bobs"   -> {<<[op |-> "bobs", b |-> b], Nothing>> : b \in Regs({"bunc", "bunw"})}
      [] f = "single" -> {<<[op |-> "single", b |-> b], New(IF Kind(b) = "bunw" THEN "rayw" ELSE "rayc")>> :
                              b \in {r \in Regs({"bunc", "bunw"}) : heap[r].n = 1 /\ heap[r].lay = "s"}}
      [] f = "isect"  -> {<<[op |-> "isect", rays |-> x, fr |-> y], Data("pts", 1, "s")>> : x \in Lists6, y \in {"c", "w"}}
      [] f = "meet"   -> LET s == {r \in DOMAIN heap : Kind(r) = "rayw"} IN
                         IF Cardinality(s) < 2 THEN {}
                         ELSE {<<[op |-> "isect", rays |-> <<a, b>>], Data("pts", 1, "s")>> : a, b \in s}
      [] f = "pmat"   -> {<<[op |-> "pmat_cam", m |-> m, lay |-> y], New("camp")>> : m \in Mats, y \in {"s", "v"}}
      [] f = "pmatof" -> {<<[op |-> "pmat_of", cam |-> c, k |-> k], New("camp")>> : c \in Regs({"camp"}), k \in {"1", "-3", "1@-15"}}
      [] f = "cammat" -> {<<[op |-> "cam_mat", cam |-> c], Nothing>> : c \in Regs({"camp"})}
      [] f = "jac"    -> {<<[op |-> "jac", cam |-> c], New("jac")>> : c \in Regs({"camp"})}
      [] f = "lin"    -> {<<[op |-> "lin", j |-> j, x |-> x], Nothing>> : j \in Regs({"jac"}),
                              x \in {r \in Regs({"pts"}) : heap[r].n = 1 /\ heap[r].lay \in {"s", "v"}}}
      [] f = "norm34" -> {<<[op |-> "norm34", m |-> m], Nothing>> : m \in Norms}
      [] f = "obs"    -> {<<[op |-> "obs", x |-> x], Nothing>> : x \in DOMAIN heap}
      [] f = "look"   -> {<<[op |-> "obs", x |-> x], Nothing>> : x \in {r \in DOMAIN heap : r = Len(heap)}}
      [] f = "clone"  -> {<<[op |-> "clone", x |-> x], heap[x]>> : x \in {r \in Regs(Poses_ \cup IntrKinds \cup {"bunc", "bunw"}) : heap[r].lay # "v"}}
      [] f = "serde"  -> {<<[op |-> "serde", x |-> x, route |-> y], heap[x]>> : y \in Routes,
                              x \in {r \in Regs({"extr", "persp", "ortho", "camp", "camo", "bunc", "bunw"}) : heap[r].lay # "v"}}
      [] f = "form"   -> {<<[op |-> "serde_form", x |-> x], Nothing>> : x \in Regs({"extr", "persp", "ortho", "camp", "camo"})}
      [] f = "eq"     -> {<<[op |-> "eq", a |-> a, b |-> b], Nothing>> :
                              a, b \in {r \in Regs({"extr", "persp", "ortho", "camp", "camo"}) : TRUE}}
      [] f = "same"   -> LET s == {r \in DOMAIN heap : Kind(r) \in {"extr", "persp", "ortho", "camp", "camo"}} IN
                         {<<[op |-> "eq", a |-> a, b |-> b], Nothing>> : a \in {r \in s : \A q \in s : q <= r},
                              b \in {r \in s : Kind(r) = Kind(CHOOSE t \in s : \A q \in s : q <= t)}}
      [] f = "dbg"    -> {<<[op |-> "dbg", x |-> x], Nothing>> : x \in Regs({"extr", "persp", "ortho", "camp", "camo", "bunc"})}
      [] f = "par"    -> {<<[op |-> "par", of |-> [op |-> "w2p", cam |-> c, x |-> x], k |-> 4], Nothing>> : c \in Regs(CamKinds), x \in Regs({"pts"})}
      [] f = "util"   -> {<<[op |-> "util", i |-> i, w |-> u[1], h |-> u[2], step |-> u[3], border |-> u[4], eps |-> "1@-3"], Nothing>> :
                              i \in Regs(IntrKinds), u \in Utils}

-----------------------------------------------------------------------------
(* Shapes of the sessions that are made for each property *)
I == {"persp", "ortho"}
X == I \cup {"custx", "custy"}
Shapes ==
    CASE Prop = "C01" -> {<<"persp", "pts", "c2p", "obs">>}
      [] Prop = "C02" -> {<<"persp", "pix", "p2c", y, "c2p">> : y \in {"por", "pord"}}
      [] Prop = "C03" -> {<<"ortho", "pts", "c2p">>} \cup {<<"ortho", "pix", "p2c", y, "c2p">> : y \in {"por", "pord"}}
      [] Prop = "C04" -> {<<x, "pts", "w2c", "c2w">> : x \in {"rc1", "view"}} \cup {<<"rc1", "pts", "c2w", "w2c">>, <<"iso", "pts1", "w2c", "c2w", "w2c">>}
      [] Prop = "C05" -> {<<x, "look">> : x \in {"rc", "iso", "view"}} \cup {<<x, y, z, "pts1", "w2c", "look">> : x \in {"rc1", "view"}, y, z \in {"repose", "rerc", "clone"}}
      [] Prop = "C06" -> {<<"view", "look">>, <<"view", "repose", "pts1", "w2c">>}
      [] Prop = "C07" -> {<<x, y, z, v, "look">> : x \in {"rc1", "iso", "view"}, y, z, v \in {"repose", "rerc"}}
      [] Prop = "C08" -> {<<x, "rc1", "cam", y, z>> : x \in X, <<y, z>> \in {<<"pts", "w2p">>, <<"pix", "p2w">>}}
      [] Prop = "C09" -> {<<x, y, "cam", "pix1", "p2w", z, "w2p">> : x \in X, y \in {"rc1", "view"}, z \in {"por", "pord"}}
      [] Prop = "C10" -> {<<x, "bobs", y>> : x \in {"bso", "bsd"}, y \in {"por", "pord", "single"}} \cup {<<"bpose", y, "bobs">> : y \in {"por", "pord"}}
      [] Prop = "C11" -> {<<x, "rc1", "r2w", y>> : x \in {"bso", "bsdc", "bpose"}, y \in {"por", "bobs"}}
      [] Prop = "C12" -> {<<"persp", "pts", "c2p", "pts", "c2p">>, <<"ortho", "pix", "p2c", "pix1", "p2c", "por">>, <<"rc1", "pts", "w2c", "pts1", "w2c">>}
      [] Prop = "C13" -> {<<"isect", "isect">>}
      [] Prop = "C14" -> {<<"isect", "isect">>}
      [] Prop = "C15" -> {<<"pmat", y, z>> : <<y, z>> \in {<<"pts", "w2p">>, <<"pmatof", "look">>}} \cup {<<"persp", "rc1", "cam", "pmatof", "pts1", "w2p">>}
      [] Prop = "C16" -> {<<"persp", x, "cam", "cammat">> : x \in {"rc", "iso", "view"}} \cup {<<"pmat", "cammat", "pmatof", "cammat">>}
      [] Prop = "C17" -> {<<"persp", x, "cam", "jac", "point", "lin", "lin">> : x \in {"rc1", "view"}} \cup {<<"pmat", "jac", "point", "lin">>}
      [] Prop = "C18" -> {<<x, "serde", "serde", "same", "form">> : x \in {"rc1", "view", "persp", "ortho", "bso"}}
                         \cup {<<x, "rc1", "cam", "serde", "pts1", "w2p", "same">> : x \in I}
      [] Prop = "C19" -> {<<"norm34">>}
      [] Prop = "C20" -> {<<x, "clone", y, "look", "same">> : x \in {"rc", "persp", "ortho"}, y \in {"rc1", "persp", "ortho", "clone"}}
                         \cup {<<x, "rc1", "cam", "pts1", "w2p", "par", "w2p">> : x \in X}
      [] Prop = "C21" -> {<<x, "util", "util">> : x \in {"persp", "ortho", "cspike"}}
      [] Prop = "C22" -> {<<x, "rc1", "cam", "point", "w2p", "look">> : x \in I} \cup {<<"pmat", "cammat", "jac", "point", "lin">>, <<"bso", "por">>, <<"bsd", "por">>}
      [] Prop = "C23" -> {<<"isect">>}
      [] Prop = "C24" -> {<<x, "look", "pts1", "w2c", "c2w">> : x \in {"rc", "iso", "view"}} \cup {<<"isect">>, <<"pmat", "cammat", "jac", "point", "lin">>}
      [] Prop = "C25" -> {<<x, "dbg">> : x \in {"rc", "iso", "view", "persp", "ortho", "bso", "bsdc", "bpose", "pmat"}}
                         \cup {<<x, y, "cam", z, "same", "dbg">> : x \in I, y \in {"rc1", "view"}, z \in {"clone", "serde"}}
      [] OTHER -> {<<"persp">>}

FreeFamilies == {"persp", "ortho", "custx", "custy", "rc", "iso", "view", "repose", "rerc", "of", "cam", "pts", "pix", "w2c", "c2w", "c2p",
                 "p2c", "w2p", "p2w", "bso", "bsd", "bpose", "r2w", "por", "pord", "bobs", "single", "meet", "pmat", "pmatof",
                 "cammat", "jac", "point", "lin", "obs", "clone", "serde", "form", "same", "dbg", "par"}
-----------------------------------------------------------------------------
Init == /\ w \in {"f64", "f32"}
        /\ code = <<>> /\ heap = <<>>
        /\ IF Mode = "free" THEN shape = <<>> ELSE shape \in Shapes

Add(f) == \E ch \in Choices(f) :
    IF ch[2].k = "" THEN code' = Append(code, ch[1]) /\ UNCHANGED heap
    ELSE /\ code' = Append(code, ("o" :> Len(heap) + 1) @@ ch[1])
         /\ heap' = Append(heap, ch[2])

Step(f) == Len(code) < Depth /\ Add(f) /\ UNCHANGED <<w, shape>>
\* a call for which there is no object is left out
Next == IF Mode = "free" THEN FALSE
        ELSE IF Len(code) < Len(shape)
             THEN LET f == shape[Len(code) + 1] IN
                  IF Choices(f) = {} THEN shape' = SubSeq(shape, 1, Len(code)) /\ UNCHANGED <<w, code, heap>> ELSE Step(f)
             ELSE FALSE
Free == \E f \in FreeFamilies : Step(f)

Complete == IF Mode = "free" THEN Len(code) = Depth ELSE Len(code) = Len(shape)
Emit == Complete => PrintT("PROG " \o ToJson([w |-> w, code |-> code]))
\* registers are used only after they were made, and hold what the call needs
Closed == \A n \in DOMAIN code : \A f \in {"e", "i", "cam", "x", "b", "j"} \cap DOMAIN code[n] :
    code[n].op # "eq" => code[n][f] \in DOMAIN heap /\ ("o" \in DOMAIN code[n] => code[n][f] < code[n].o)
=============================================================================
