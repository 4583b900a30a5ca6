------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session with cam-geom: a heap of objects and the calls that create    *)
(* and use them.                                                           *)
(*                                                                         *)
(* A call is a record ev: its name ev.op, its arguments (numbers, or       *)
(* registers of the heap), the register ev.o that receives the object it   *)
(* returns, and what was observed: ev.r.  The state keeps for every        *)
(* register the object which ought to be there, in exact arithmetic.       *)
(* Where a call returns numbers, they are compared with the exact ones,    *)
(* and the numbers themselves are then kept, so that rounding errors do    *)
(* not add up along a trace.                                               *)
(*                                                                         *)
(* Each operator J_... below judges one kind of call.  It yields           *)
(*   bad  a set of <<property, explanation>>: what the observed result     *)
(*        violates,                                                        *)
(*   obj  the object for register ev.o,                                    *)
(*   mem  what to remember of the results (see MemoStep).                  *)
(* The state variable bad collects what has been violated; a correct       *)
(* implementation leaves it empty.                                         *)
(***************************************************************************)
EXTENDS Approx, TLC, FiniteSets

VARIABLES env,      \* [w: width of the numbers, memo: remember results?, adv: any number at all?]
          heap,     \* register -> object
          memoR,    \* results of calls, row by row
          memoE,    \* results of calls, complete
          memoO,    \* which calls panicked, by number (traces of several configurations)
          bad       \* violations

sessionVars == <<env, heap, memoR, memoE, memoO, bad>>

-----------------------------------------------------------------------------
W == env.w
None == [k |-> "none"]
Off  == [on |-> FALSE]
F(ok, tags, what) == IF ok THEN {} ELSE {<<t, what>> : t \in tags}
Has(ev, f) == f \in DOMAIN ev
Panicked(ev) == "panic" \in DOMAIN ev.r
Failed(ev) == "err" \in DOMAIN ev.r
Cfg(ev) == IF Has(ev, "cfg") THEN ev.cfg ELSE "std"
Obj(ev, f) == heap[ev[f]]
Lay(ev) == IF Has(ev, "lay") THEN ev.lay ELSE "d"

\* numbers of heap objects
PV(i) == IF Len(i.p) = 5 THEN <<R(i.p[1]), R(i.p[2]), R(i.p[3]), R(i.p[4]), R(i.p[5])>>
         ELSE IF Len(i.p) = 4 THEN <<R(i.p[1]), R(i.p[2]), R(i.p[3]), R(i.p[4])>>
         ELSE <<R(i.p[1]), R(i.p[2]), R(i.p[3])>>
EM(e) == RotS(e.q)
EC(e) == V3(e.c)
P2(s) == <<R(s[1]), R(s[2])>>
SameNum(a, b) == a = b \/ (Fin(a) /\ Fin(b) /\ REq(R(a), R(b)))
SameNums(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameNum(a[i], b[i])
Q4(s) == Sq(R(s[1])) \oplus Sq(R(s[2])) \oplus Sq(R(s[3])) \oplus Sq(R(s[4]))
QuatDom(s) == FinV(s) /\ Small(W, Q4(s) \ominus R1, R1)

Judged(b, o) == [bad |-> b, obj |-> o, mem |-> Off]
\* Remember rows: ins[i] is the key of row i, outs[i] the result, oks[i] whether it was judged good.
JudgedM(b, o, op, key, via, ins, outs, oks, lay, rowwise) ==
    [bad |-> b, obj |-> o,
     mem |-> [on |-> TRUE, op |-> op, key |-> key, via |-> via, ins |-> ins, outs |-> outs, oks |-> oks,
              lay |-> lay, rowwise |-> rowwise]]

-----------------------------------------------------------------------------
(* Poses *)

\* all ways of reading a pose say the same (r: an observation)
Coherent(r) ==
    /\ QuatDom(r.pq) /\ FinV(r.cc)
    /\ LET m == RotS(r.pq)  c == V3(r.cc)  t == Translation(m, c)  s == N1(c) IN
       /\ NearM(W, r.rot, m, R1)
       /\ NearM(W, <<r.mat[1], r.mat[2], r.mat[3], r.mat[5], r.mat[6], r.mat[7], r.mat[9], r.mat[10], r.mat[11]>>, m, R1)
       /\ Near3(W, <<r.mat[4], r.mat[8], r.mat[12]>>, t, s)
       /\ Near3(W, r.tr, t, s)
       /\ Near3(W, r.pt, t, s)
       /\ Near3(W, r.fwd, Forward(m), R1)
       /\ Near3(W, r.up, Up(m), R1)
       /\ Near3(W, r.right, Right(m), R1)
\* the observed pose is (m, c)
PoseIs(r, m, c, s) == QuatDom(r.pq) /\ MNear(W, RotS(r.pq), m) /\ Near3(W, r.cc, c, s)

ExtrDom(q, c) == QuatDom(q) /\ InDomV(W, c)
Flat(r) == r.rot \o r.mat \o r.tr \o r.cc \o r.pq \o r.pt \o r.fwd \o r.up \o r.right

ViewSin(c, l, u) ==      \* the sine of the angle between up and the direction of view
    LET d == VSub(l, c) IN RSqrt(RRnd(RDiv(NSq(Cross(u, d)), NSq(u) \otimes NSq(d))))
ViewCond(c, l, u) ==     \* amplification of rounding errors
    RDiv(N1(c) \oplus N1(l), N1(VSub(l, c)) \otimes ViewSin(c, l, u))
ViewDom(ev) ==
    /\ InDomV(W, ev.c) /\ InDomV(W, ev.l) /\ FinV(ev.up)
    /\ LET c == V3(ev.c)  l == V3(ev.l)  u == V3(ev.up) IN
       /\ Small(W, NSq(u) \ominus R1, R1)
       /\ ~VEq(c, l) /\ ~IsZeroV(Cross(u, VSub(l, c)))
       /\ RLe(ViewCond(c, l, u), IF W = "f64" THEN R("1@20") ELSE R("1@5"))
ViewIs(ev, r) ==
    LET c == V3(ev.c)  l == V3(ev.l)  u == V3(ev.up)
        m == RotS(r.pq)
        f == MV(m, VSub(l, c))  v == MV(m, u)
        s == N1(c) \oplus N1(l)
    IN /\ Near3(W, r.cc, c, N1(c))
       /\ Small(W, f[1], s) /\ Small(W, f[2], s) /\ RSgn(f[3]) > 0
       /\ Small(W, v[1], ViewCond(c, l, u) \otimes R(4)) /\ RSgn(v[2]) < 0

J_extr(ev) ==
    LET op == ev.op
        src == IF op \in {"extr_repose", "extr_rerc"} THEN (LET x == Obj(ev, "e") IN IF x.k = "cam" THEN x.e ELSE x) ELSE None
        dom == CASE op = "extr_rc"   -> ExtrDom(ev.q, ev.c)
                 [] op = "extr_pose" -> ExtrDom(ev.q, ev.t)
                 [] op = "extr_view" -> ViewDom(ev)
                 [] OTHER            -> src.dom
        own == IF op = "extr_view" THEN {"C06"} ELSE {"C07"}
        key == CASE op = "extr_rc"   -> <<op, ev.q, ev.c>>
                 [] op = "extr_pose" -> <<op, ev.q, ev.t>>
                 [] op = "extr_view" -> <<op, ev.c, ev.l, ev.up>>
                 [] OTHER            -> <<op, src.key>>
        via == IF src.k = "none" THEN {} ELSE src.via
    IN IF Panicked(ev) THEN Judged(F(FALSE, own \cup {"C05"}, "panic in " \o op), None)
       ELSE
       LET r == ev.r
           pq == dom => QuatDom(r.pq)
           q == CASE op \in {"extr_rc", "extr_pose"} -> ev.q
                  [] op = "extr_view" -> r.pq
                  [] OTHER -> src.q
           c == CASE op = "extr_pose" -> IF dom THEN S3(Rnd3(CenterOf(RotS(ev.q), V3(ev.t)))) ELSE r.cc
                  [] op \in {"extr_rc", "extr_view"} -> ev.c
                  [] OTHER -> src.c
           is == dom => /\ pq
                        /\ CASE op = "extr_view" -> ViewIs(ev, r)
                             [] op = "extr_pose" -> /\ PoseIs(r, RotS(q), V3(c), R(2) \otimes N1(V3(ev.t)))
                                                    /\ Near3(W, r.pt, V3(ev.t), R(2) \otimes N1(V3(ev.t)))
                             [] OTHER -> PoseIs(r, RotS(q), V3(c), R(2) \otimes N1(V3(c)))
           coh == dom => Coherent(r)
       IN JudgedM(F(is, own, op \o ": the pose is not the one given") \cup F(coh, {"C05"} \cup own, op \o ": views of the pose differ"),
                  [k |-> "extr", q |-> q, c |-> c, cc |-> r.cc, pq |-> r.pq, dom |-> dom /\ pq, via |-> via, key |-> key],
                  op, key, via, <<key>>, <<Flat(r)>>, <<is /\ coh>>, "", FALSE)

\* a pose read again, or read from a copy: still the same one
ExtrStill(r, e) == e.dom => Coherent(r) /\ PoseIs(r, EM(e), EC(e), R(4) \otimes N1(EC(e)))

-----------------------------------------------------------------------------
(* Intrinsic parameters *)
IntrKinds == {"persp", "ortho", "custx", "custy"}
IntrObj(k, p, key, via, spike) == [k |-> k, p |-> p, dom |-> InDomV(W, p), via |-> via, key |-> key, spike |-> spike]
PerspStill(r, i) == SameNums(r.p, i.p) /\ SameNums(r.pp, i.p)

J_intr(ev) ==
    LET op == ev.op
        i == IntrObj(op, ev.p, IF op \in {"custx", "custy"} THEN <<op, ev.p, ev.spike>> ELSE <<op, ev.p>>, {},
                     IF op \in {"custx", "custy"} THEN ev.spike ELSE <<>>)
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C01"}, "panic in " \o op), None)
       ELSE Judged(F(op = "persp" => PerspStill(ev.r, i), {"C01"}, "parameters read are not the ones given"), i)

\* deviation from the form of a normalized matrix that has to be noticed: anything well above one unit in the last place of 1
FormDev(w) == IF w = "f64" THEN R("1@-46") ELSE R("1@-18")
J_norm34(ev) ==
    LET m == ev.m
        exact == \A e \in {FixedEntries[j] : j \in 1..7} : Fin(m[e[1]]) /\ REq(R(m[e[1]]), R(e[2]))
        off == \E e \in {FixedEntries[j] : j \in 1..7} :
                  ~Fin(m[e[1]]) \/ RLe(FormDev(W), RAbs(RSub(R(m[e[1]]), R(e[2]))))
        p == <<m[1], m[6], m[2], m[3], m[7]>>
        key == <<"norm34", m>>
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C19"}, "panic in norm34"), None)
       ELSE IF Failed(ev) THEN
            JudgedM(F(~(exact /\ FinV(p)), {"C19"}, "a normalized matrix was rejected")
                    \cup F(ev.r.err = "InvalidInput", {"C19"}, "wrong error"), None,
                    "norm34", key, {}, <<<<>>>>, <<<<ev.r.err>>>>, <<TRUE>>, "", FALSE)
       ELSE JudgedM(F(~off, {"C19"}, "a matrix that is not normalized was accepted")
                    \cup F(exact => SameNums(ev.r.p, p) /\ SameNums(ev.r.pp, p), {"C19"}, "wrong parameters from a matrix"),
                    IntrObj("persp", ev.r.p, key, {}, <<>>),
                    "norm34", key, {}, <<<<>>>>, <<ev.r.p>>, <<TRUE>>, "", FALSE)

-----------------------------------------------------------------------------
(* Cameras *)
CamObj(i, e, key) == [k |-> "cam", i |-> i, e |-> e, dom |-> i.dom /\ e.dom, via |-> i.via \cup e.via, key |-> key]
CamStill(r, c) == (c.i.k = "persp" => PerspStill(r.i, c.i)) /\ ExtrStill(r.e, c.e)
J_cam(ev) ==
    LET i0 == Obj(ev, "i")
        i == IF i0.k = "cam" THEN i0.i ELSE i0
        e0 == Obj(ev, "e")
        e == IF e0.k = "cam" THEN e0.e ELSE e0
        c == CamObj(i, e, <<"cam", i.key, e.key>>)
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C08"}, "panic in cam"), None)
       ELSE Judged(F(CamStill(ev.r, c), {"C08"}, "the parts of a camera are not the ones given"), c)
J_extr_of(ev) ==
    LET x == Obj(ev, "e")  e == IF x.k = "cam" THEN x.e ELSE x IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C08"}, "panic"), None)
    ELSE Judged(F(ExtrStill(ev.r, e), {"C08", "C05"}, "the pose read from an object differs"), e)

\* everything that can be read from an object, read again
Still(r, x) == CASE x.k = "extr" -> ExtrStill(r, x)
                 [] x.k = "persp" -> PerspStill(r, x)
                 [] x.k = "cam" -> CamStill(r, x)
                 [] x.k \in {"pts", "pix", "bun"} -> r.rows = x.rows
                 [] x.k = "ray" -> r.c = x.c /\ r.d = x.d
                 [] OTHER -> TRUE
J_obs(ev) ==
    LET x == Obj(ev, "x") IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C20"}, "panic in a getter"), None)
    ELSE IF x.k \notin {"extr", "cam", "persp"} THEN Judged(F(Still(ev.r, x), {"C20"}, "an object has changed"), None)
    ELSE JudgedM(F(Still(ev.r, x), IF x.k \in {"extr", "cam"} THEN {"C05", "C20"} ELSE {"C20"}, "an object has changed"), None,
                 "obs", <<x.k, x.key>>, x.via, <<>>, <<>>, <<>>, "", FALSE)

-----------------------------------------------------------------------------
(* Points and pixels *)
PtsObj(rows, lay, g, inv) == [k |-> "pts", rows |-> rows, lay |-> lay, g |-> g, inv |-> inv, isr |-> Off]
PixObj(rows, lay, tri) == [k |-> "pix", rows |-> rows, lay |-> lay, tri |-> tri]
J_pts(ev) == Judged(F(~Panicked(ev), {"C24"}, "panic"), PtsObj(ev.rows, Lay(ev), Off, Off))
J_pix(ev) == Judged(F(~Panicked(ev), {"C24"}, "panic"), PixObj(ev.rows, Lay(ev), Off))

\* A call that maps rows to rows.  Ok(i): is row i of the result right (given that there is one)?
MapJ(ev, x, key, via, tags, Ok(_), What, MkObj(_)) ==
    IF Panicked(ev) THEN Judged(F(FALSE, tags \cup {"C12"}, "panic in " \o ev.op), None)
    ELSE LET n == Len(x.rows)
             cnt == ev.r.n = n /\ Len(ev.r.rows) = n
             oks == TLCEval([i \in 1..n |-> cnt /\ Ok(i)])
             all == \A i \in 1..n : oks[i]
         IN IF ~cnt THEN Judged(F(FALSE, tags \cup {"C12"}, ev.op \o ": wrong number of rows"), None)
            ELSE JudgedM(F(all, tags, What), MkObj(ev.r.rows), ev.op, key, via, x.rows, ev.r.rows, oks, x.lay, TRUE)

TheExtr(ev) == LET x == Obj(ev, "e") IN IF x.k = "cam" THEN x.e ELSE x

\* ghosts: where rows of points came from (see J_por), carried along changes of the frame
GhostTo(g, fr, e, rows) ==
    IF ~g.on THEN Off
    ELSE IF g.fr = fr THEN Off
    ELSE IF fr = "w" THEN [g EXCEPT !.fr = "w", !.ek = e.key, !.e = e]
    ELSE IF g.ek # e.key \/ ~e.dom THEN Off
    ELSE [g EXCEPT !.fr = "c",
                   !.s = [i \in DOMAIN rows |-> IF InDomV(W, rows[i]) THEN RStr(N1(V3(rows[i])) \oplus N1(EC(e))) ELSE "0"]]

J_w2c(ev) ==
    LET e == TheExtr(ev)  x == Obj(ev, "x")
        m == EM(e)  c == EC(e)  nc == N1(c)
        Ok(i) == (e.dom /\ InDomV(W, x.rows[i])) =>
                   LET p == V3(x.rows[i]) IN Near3(W, ev.r.rows[i], ToCam(m, c, p), N1(p) \oplus nc)
        back == x.inv.on /\ x.inv.fr = "w" /\ x.inv.ek = e.key /\ e.dom
        Inv == (back /\ ~Panicked(ev)) => \A i \in DOMAIN x.rows :
                   (i <= Len(ev.r.rows) /\ InDomV(W, x.inv.rows[i]) /\ FinV(x.rows[i])) =>
                      LET p == V3(x.inv.rows[i]) IN Near3(W, ev.r.rows[i], p, R(4) \otimes (N1(p) \oplus nc))
        j == MapJ(ev, x, e.key, e.via, {"C04"}, Ok, "world to camera",
                  LAMBDA rows : PtsObj(rows, x.lay, GhostTo(x.g, "c", e, x.rows), [on |-> TRUE, fr |-> "c", ek |-> e.key, rows |-> x.rows]))
    IN [j EXCEPT !.bad = @ \cup F(Inv, {"C04"}, "camera to world and back")]
J_c2w(ev) ==
    LET e == TheExtr(ev)  x == Obj(ev, "x")
        m == EM(e)  c == EC(e)  nc == N1(c)
        Ok(i) == (e.dom /\ InDomV(W, x.rows[i])) =>
                   LET p == V3(x.rows[i]) IN Near3(W, ev.r.rows[i], ToWorld(m, c, p), N1(p) \oplus nc)
        back == x.inv.on /\ x.inv.fr = "c" /\ x.inv.ek = e.key /\ e.dom
        Inv == (back /\ ~Panicked(ev)) => \A i \in DOMAIN x.rows :
                   (i <= Len(ev.r.rows) /\ InDomV(W, x.inv.rows[i]) /\ FinV(x.rows[i])) =>
                      LET p == V3(x.inv.rows[i]) IN Near3(W, ev.r.rows[i], p, R(4) \otimes (N1(p) \oplus nc))
        j == MapJ(ev, x, e.key, e.via, {"C04"}, Ok, "camera to world",
                  LAMBDA rows : PtsObj(rows, x.lay, GhostTo(x.g, "w", e, x.rows), [on |-> TRUE, fr |-> "w", ek |-> e.key, rows |-> x.rows]))
    IN [j EXCEPT !.bad = @ \cup F(Inv, {"C04"}, "world to camera and back")]

NoSpike(i) == i.spike = <<>>
IntrTags(i) == CASE i.k = "persp" -> {"C01"} [] i.k = "ortho" -> {"C03"} [] OTHER -> {}
BackTags(i) == CASE i.k = "persp" -> {"C02"} [] i.k = "ortho" -> {"C03"} [] OTHER -> {}

J_c2p(ev) ==
    LET i == Obj(ev, "i")  x == Obj(ev, "x")  p == PV(i)  g == x.g
        Ok(j) == (i.dom /\ NoSpike(i) /\ InDomV(W, x.rows[j])) =>
                   LET q == V3(x.rows[j]) IN PixelOfPointDom(W, i.k, p, q) => PixelOfPoint(W, i.k, p, q, ev.r.rows[j])
        rt == g.on /\ g.fr = "c" /\ g.ik = i.key /\ i.dom /\ NoSpike(i) /\ ~Panicked(ev)
        Rt == rt => \A j \in DOMAIN x.rows :
                (j <= Len(ev.r.rows) /\ InDomV(W, g.rows[j]) /\ InDomV(W, x.rows[j]) /\ RayDom(W, i.k, p, P2(g.rows[j]))) =>
                   LET q == V3(x.rows[j])  s == N1(q) \oplus R(g.s[j]) IN
                   PixelDom(W, i.k, p, q, s) => RoundTripNear(W, i.k, p, P2(g.rows[j]), q, s, ev.r.rows[j])
        j0 == MapJ(ev, x, i.key, i.via, IntrTags(i), Ok, "camera to pixel", LAMBDA rows : PixObj(rows, x.lay, Off))
    IN [j0 EXCEPT !.bad = @ \cup F(Rt, BackTags(i) \cup {"C09"}, "pixel to ray to pixel")]

\* A bundle of rays.  so: do the rays share their origin?  ctr: the shared origin, known to Eps * cs, or
\* the shared direction; rows: the directions, or origins.
BunObj(so, ctr, cs, rows, lay, tg, key, via, g, tri) ==
    [k |-> "bun", so |-> so, ctr |-> ctr, cs |-> cs, rows |-> rows, lay |-> lay, tg |-> tg, key |-> key, via |-> via,
     g |-> g, tri |-> tri, dom |-> InDomV(W, ctr)]
S0 == <<"0", "0", "0">>
SZ == <<"0", "0", "1">>

J_p2c(ev) ==
    LET i == Obj(ev, "i")  x == Obj(ev, "x")  p == PV(i)  so == SharedOrigin(i.k)
        Ok(j) == (i.dom /\ InDomV(W, x.rows[j])) =>
                   LET u == P2(x.rows[j]) IN
                   RayDom(W, i.k, p, u) => FinV(ev.r.rows[j]) /\ RayNear(W, i.k, p, u, V3(ev.r.rows[j]), R0)
        g == [on |-> TRUE, fr |-> "c", rows |-> x.rows, ik |-> i.key, i |-> i, ek |-> <<"none">>, e |-> None,
              s |-> [j \in DOMAIN x.rows |-> "0"]]
    IN MapJ(ev, x, i.key, i.via, BackTags(i), Ok, "pixel to camera",
            LAMBDA rows : BunObj(so, IF so THEN S0 ELSE SZ, "0", rows, x.lay, BackTags(i), <<"p2c", i.key>>, i.via, g, Off))

J_w2p(ev) ==
    LET cam == Obj(ev, "cam")  x == Obj(ev, "x")  i == cam.i  e == cam.e
        p == PV(i)  m == EM(e)  c == EC(e)  nc == N1(c)  g == x.g
        Ok(j) == (cam.dom /\ NoSpike(i) /\ InDomV(W, x.rows[j])) =>
                   LET v == V3(x.rows[j])  q == ToCam(m, c, v)  s == N1(v) \oplus nc IN
                   PixelDom(W, i.k, p, q, s) => PixelNear(W, i.k, p, q, s, ev.r.rows[j])
        rt == g.on /\ g.fr = "w" /\ g.ik = i.key /\ g.ek = e.key /\ cam.dom /\ NoSpike(i) /\ ~Panicked(ev)
        Rt == rt => \A j \in DOMAIN x.rows :
                (j <= Len(ev.r.rows) /\ InDomV(W, g.rows[j]) /\ InDomV(W, x.rows[j]) /\ RayDom(W, i.k, p, P2(g.rows[j]))) =>
                   LET v == V3(x.rows[j])  q == ToCam(m, c, v)  s == N1(v) \oplus nc IN
                   PixelDom(W, i.k, p, q, s) => RoundTripNear(W, i.k, p, P2(g.rows[j]), q, s, ev.r.rows[j])
        j0 == MapJ(ev, x, cam.key, cam.via, {"C08"}, Ok, "world to pixel",
                   LAMBDA rows : PixObj(rows, x.lay, [on |-> TRUE, ck |-> cam.key, rows |-> x.rows]))
    IN [j0 EXCEPT !.bad = @ \cup F(Rt, {"C09"}, "pixel to world ray to pixel")]

J_p2w(ev) ==
    LET cam == Obj(ev, "cam")  x == Obj(ev, "x")  i == cam.i  e == cam.e  so == SharedOrigin(i.k)
        p == PV(i)  m == EM(e)  c == EC(e)  nc == N1(c)
        Ok(j) == (cam.dom /\ InDomV(W, x.rows[j])) =>
                   LET u == P2(x.rows[j]) IN
                   RayDom(W, i.k, p, u) =>
                     /\ FinV(ev.r.rows[j])
                     /\ LET d == V3(ev.r.rows[j]) IN
                        IF so THEN RayNear(W, i.k, p, u, MV(m, d), R(2) \otimes N1(d))
                        ELSE RayNear(W, i.k, p, u, ToCam(m, c, d), R(2) \otimes (N1(d) \oplus nc))
        g == [on |-> cam.dom, fr |-> "w", rows |-> x.rows, ik |-> i.key, i |-> i, ek |-> e.key, e |-> e,
              s |-> [j \in DOMAIN x.rows |-> "0"]]
        tri == IF x.tri.on THEN (IF x.tri.ck = cam.key /\ cam.dom /\ NoSpike(i) THEN [x.tri EXCEPT !.on = TRUE] ELSE Off) ELSE Off
        dir == IF so \/ ~e.dom THEN SZ ELSE S3(m[3])
    IN MapJ(ev, x, cam.key, cam.via, {"C08"}, Ok, "pixel to world",
            LAMBDA rows : [BunObj(so, IF so THEN e.c ELSE dir, IF so /\ e.dom THEN RStr(nc) ELSE "1", rows, x.lay, {"C08"},
                                  <<"p2w", cam.key>>, cam.via, g, IF tri.on THEN [tri EXCEPT !.ck = <<i, e, x.rows>>] ELSE Off)
                           EXCEPT !.dom = cam.dom])

-----------------------------------------------------------------------------
(* Ray bundles *)
J_bundle(ev) ==
    LET so == ev.op = "bso"
        b == BunObj(so, IF so THEN S0 ELSE SZ, "0", ev.rows, Lay(ev), {}, <<ev.op>>, {}, Off, Off)
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C10"}, "panic"), None)
       ELSE Judged(F(ev.r.rows = ev.rows /\ ev.r.so = so, {"C10"}, "a new bundle has other data"), b)

\* rays moved by the rigid motion x |-> m x + t
Moved(ev, so, m, t, st, rin, rout, ctr, cs) ==
    \A i \in DOMAIN rin : (InDomV(W, rin[i]) /\ (so => ~IsZeroV(V3(rin[i])))) =>
        /\ FinV(rout[i])
        /\ LET d == V3(rin[i])  o == V3(rout[i]) IN
           IF so THEN Near3(W, rout[i], MV(m, d), N1(d))
           ELSE Near3(W, rout[i], VAdd(MV(m, d), t), N1(d) \oplus st)

J_bpose(ev) ==
    LET so == ev.so
        dom == QuatDom(ev.q) /\ InDomV(W, ev.t)
        m == RotS(ev.q)  t == V3(ev.t)
        key == <<"bpose", so, ev.q, ev.t>>
        x == [rows |-> ev.rows, lay |-> Lay(ev)]
        Ok(i) == dom => Moved(ev, so, m, t, N1(t), <<ev.rows[i]>>, <<ev.r.rows[i]>>, S0, "0")
    IN MapJ(ev, x, key, {}, {"C11"}, Ok, "rays moved by a pose",
            LAMBDA rows : [BunObj(so, IF so THEN ev.t ELSE IF dom THEN S3(MV(m, EZ)) ELSE SZ,
                                  IF so /\ dom THEN RStr(N1(t)) ELSE "1", rows, Lay(ev), {"C11"}, key, {}, Off, Off)
                           EXCEPT !.dom = dom])

J_r2w(ev) ==
    LET e == TheExtr(ev)  b == Obj(ev, "b")
        dom == e.dom /\ b.dom
        m == EM(e)  c == EC(e)  nc == N1(c)  mt == Tr(m)
        key == <<"r2w", b.key, e.key>>
        Ok(i) == dom => Moved(ev, b.so, mt, c, nc, <<b.rows[i]>>, <<ev.r.rows[i]>>, b.ctr, b.cs)
        ctr == IF ~dom THEN S0 ELSE IF b.so THEN S3(Rnd3(ToWorld(m, c, V3(b.ctr)))) ELSE S3(Rnd3(MV(mt, V3(b.ctr))))
        cs == IF dom /\ b.so THEN RStr(nc \oplus N1(V3(b.ctr)) \oplus R(b.cs)) ELSE "1"
        g == IF b.g.on /\ e.dom THEN [b.g EXCEPT !.fr = "w", !.ek = e.key, !.e = e] ELSE Off
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C11", "C12"}, "panic in r2w"), None)
       ELSE LET j == MapJ(ev, b, <<b.key, e.key>>, b.via \cup e.via, {"C11"}, Ok, "rays to world",
                    LAMBDA rows : [BunObj(b.so, ctr, cs, rows, b.lay, {"C11"}, key, b.via \cup e.via, g, Off) EXCEPT !.dom = dom])
            IN [j EXCEPT !.bad = @ \cup F(ev.r.so = b.so, {"C11"}, "type of the bundle changed")]

RayOf(b, i) == IF b.so THEN <<V3(b.ctr), V3(b.rows[i])>> ELSE <<V3(b.rows[i]), V3(b.ctr)>>
RayScale(b, i) == IF b.so THEN R(b.cs) \oplus N1(V3(b.ctr)) ELSE N1(V3(b.rows[i]))
RayOk(b, i) == b.dom /\ InDomV(W, b.rows[i]) /\ (b.so => ~IsZeroV(V3(b.rows[i])))

J_por(ev) ==
    LET b == Obj(ev, "b")
        Ok(i) == RayOk(b, i) => OnRayNear(W, RayOf(b, i), RayScale(b, i), ev.r.rows[i])
    IN MapJ(ev, b, b.key, b.via, {"C10"} \cup b.tg, Ok, "point on ray",
            LAMBDA rows : PtsObj(rows, b.lay, b.g, Off))
J_pord(ev) ==
    LET b == Obj(ev, "b")
        Ok(i) == (RayOk(b, i) /\ InDom(W, ev.d)) => AtDistanceNear(W, RayOf(b, i), RayScale(b, i), R(ev.d), ev.r.rows[i])
    IN MapJ(ev, b, <<b.key, ev.d>>, b.via, {"C10"} \cup b.tg, Ok, "point on ray at a distance",
            LAMBDA rows : PtsObj(rows, b.lay, b.g, Off))
\* center and direction of ray i as observed
RayIs(b, i, c, d) ==
    RayOk(b, i) => /\ FinV(c) /\ FinV(d)
                   /\ LET r == RayOf(b, i) IN Near3(W, c, r[1], RayScale(b, i)) /\ SameDir(W, V3(d), r[2], N1(r[2]))
J_bobs(ev) ==
    LET b == Obj(ev, "b") IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C10"}, "panic in bobs"), None)
    ELSE Judged(F(/\ Len(ev.r.c) = Len(b.rows) /\ Len(ev.r.d) = Len(b.rows)
                  /\ \A i \in DOMAIN b.rows : RayIs(b, i, ev.r.c[i], ev.r.d[i]), {"C10"} \cup b.tg, "centers and directions"), None)

\* how far a ray that was cast through the pixel of the point v may pass from v
TriErr(i, e, v, u) ==
    LET p == PV(i)  q == ToCam(EM(e), EC(e), v)  s == N1(v) \oplus N1(EC(e))
        z == IF i.k = "persp" THEN RAbs(q[3]) ELSE R1
        du == RDiv(PixU(i.k, p, u), RAbs(p[1]))  dv == RDiv(PixV(i.k, p, u), RAbs(p[2]))
        sk == IF i.k = "persp" THEN RDiv(RAbs(p[3]), RAbs(p[1])) ELSE R0
    IN R(16) \otimes (s \otimes (R1 \oplus sk) \oplus z \otimes (R1 \oplus du \oplus dv \otimes (R1 \oplus sk)))
TriDom(i, e, v, u) ==
    /\ i.k \in {"persp", "ortho"} /\ InDomV(W, v) /\ InDomV(W, u)
    /\ LET p == PV(i)  q == ToCam(EM(e), EC(e), V3(v))  s == N1(V3(v)) \oplus N1(EC(e)) IN
       /\ Invertible(i.k, p) /\ PixelDom(W, i.k, p, q, s) /\ RayDom(W, i.k, p, P2(u))
J_single(ev) ==
    LET b == Obj(ev, "b")
        tri == IF ~b.tri.on THEN Off
               ELSE LET i == b.tri.ck[1]  e == b.tri.ck[2]  u == b.tri.ck[3][1]  v == b.tri.rows[1] IN
                    IF TriDom(i, e, v, u) THEN [on |-> TRUE, x |-> v, err |-> RStr(RRnd(TriErr(i, e, V3(v), P2(u))))] ELSE Off
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C10"}, "panic in single"), None)
       ELSE Judged(F(RayIs(b, 1, ev.r.c, ev.r.d), {"C10"} \cup b.tg, "single ray"),
                   [k |-> "ray", c |-> ev.r.c, d |-> ev.r.d, tri |-> tri])
J_ray(ev) ==
    IF Panicked(ev) THEN Judged(F(FALSE, {"C10"}, "panic in ray"), None)
    ELSE Judged(F(ev.r.c = ev.c /\ ev.r.d = ev.d, {"C10"}, "a new ray has other data"),
                [k |-> "ray", c |-> ev.c, d |-> ev.d, tri |-> Off])

-----------------------------------------------------------------------------
(* Best intersection of rays *)
Rays(rv) == TLCEval([i \in DOMAIN rv |-> <<V3(<<rv[i][1], rv[i][2], rv[i][3]>>), V3(<<rv[i][4], rv[i][5], rv[i][6]>>)>>])
RaysDom(rv) == \A i \in DOMAIN rv : InDomV(W, rv[i]) /\ ~IsZeroV(V3(<<rv[i][4], rv[i][5], rv[i][6]>>))
SameLine(r, q) == IsZeroV(Cross(r[2], q[2])) /\ IsZeroV(Cross(VSub(q[1], r[1]), r[2]))
J_isect(ev) ==
    LET rv == ev.rv  n == Len(rv) IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C13", "C14", "C23"}, "panic in isect"), None)
    ELSE IF n < 2 THEN
        Judged(F(Failed(ev) /\ (Failed(ev) => ev.r.err = "MinimumTwoRaysNeeded"), {"C14"}, "fewer than two rays"), None)
    ELSE IF ~RaysDom(rv) THEN
        Judged({}, IF Failed(ev) THEN None ELSE PtsObj(ev.r.rows, "s", Off, Off))
    ELSE
    LET rays == Rays(rv)
        nm == Normal(rays)  a == nm[1]  b == nm[2]
        par == Parallel(rays)
        good == ~par /\ IsectDom(W, rays, a)
        sol == Solve(a, b)
        tol == IF good THEN IsectTol(W, rays, a) \oplus RMul(IsectEps(W), N1(sol)) ELSE Floor(W)
        \* a minimum of the sum of squares: the gradient a r - b vanishes
        scale == IsectScale(rays)
        flat(o) == LET r == V3(o)  gr == VSub(MV(a, r), b)
                       t == (IF W = "f64" THEN R("1@-16") ELSE R("1@-12")) \otimes (scale \oplus N1(r)) \otimes R(n) \oplus Floor(W)
                   IN \A j \in 1..3 : RLe(RAbs(gr[j]), t)
        near(o) == \A j \in 1..3 : RLe(RAbs(RSub(R(o[j]), sol[j])), tol)
        ok == /\ ~Failed(ev)
              /\ ev.r.n = 1
              /\ LET o == ev.r.rows[1] IN
                 /\ (par \/ good) => FinV(o)
                 /\ par => flat(o) /\ RLe(N1(V3(o)), (scale \oplus Floor(W)) \otimes R(n) \otimes R(1024))
                 /\ good => near(o)
        \* the same lines in another order, with other directions or origins
        prev == Obj(ev, "like")
        like == IF ~Has(ev, "like") THEN TRUE
                ELSE IF ~(good \/ (par /\ W = "f64")) \/ Failed(ev) THEN TRUE
                ELSE IF ~(ev.like \in DOMAIN heap) THEN TRUE
                ELSE IF prev.k = "none" THEN TRUE
                ELSE IF ~prev.isr.on THEN TRUE
                ELSE LET r0 == Rays(prev.isr.rv)  o == ev.r.rows[1]  q == prev.rows[1]
                         same == Len(r0) = n /\ \A i \in 1..n : SameLine(rays[i], r0[ev.perm[i]])
                         t == tol \otimes R(2) \oplus (IF par THEN RMul(IsectEps(W), RMax(scale, IsectScale(r0)) \otimes R(4 * n)) ELSE R0)
                              \oplus IsectEps(W) \otimes IsectScale(r0) 
                     IN (same /\ FinV(q)) => FinV(o) /\ \A j \in 1..3 : RLe(RAbs(RSub(R(o[j]), R(q[j]))), t)
        \* rays through the pixels of one point meet in that point
        tri == IF ~Has(ev, "tri") \/ ~good \/ Failed(ev) THEN TRUE
               ELSE IF ~(\A i \in 1..n : heap[ev.rays[i]].tri.on) THEN TRUE
               ELSE IF ~(\A i \in 1..n : heap[ev.rays[i]].tri.x = heap[ev.rays[1]].tri.x) THEN TRUE
               ELSE LET v == V3(heap[ev.rays[1]].tri.x)
                        f[i \in 0..n] == IF i = 0 THEN R0 ELSE f[i - 1] \oplus R(heap[ev.rays[i]].tri.err)
                        t == tol \oplus RDiv(RMul(Eps(W), f[n]), R(n) \otimes IsectCond(rays, a))
                        o == ev.r.rows[1]
                    IN FinV(o) /\ \A j \in 1..3 : RLe(RAbs(RSub(R(o[j]), v[j])), t)
    IN JudgedM(F(ok, {"C13"}, "not the best intersection") \cup F(like, {"C14"}, "the same lines meet elsewhere")
               \cup F(~(Failed(ev) /\ ev.r.err = "MinimumTwoRaysNeeded"), {"C14"}, "two rays are called fewer than two")
               \cup F(tri, {"C23"}, "triangulation misses the point"),
               IF Failed(ev) THEN None ELSE [PtsObj(ev.r.rows, "s", Off, Off) EXCEPT !.isr = [on |-> TRUE, rv |-> rv]],
               "isect", <<"isect">>, {}, <<rv>>, <<IF Failed(ev) THEN <<ev.r.err>> ELSE ev.r.rows[1]>>, <<ok>>, "", FALSE)

-----------------------------------------------------------------------------
(* Projection matrices and linearization *)
RowF(p) == <<RAbs(p[1]) \oplus RAbs(p[3]) \oplus RAbs(p[4]), RAbs(p[2]) \oplus RAbs(p[5]), R1>>
J_cam_mat(ev) ==
    LET cam == Obj(ev, "cam")  o == ev.r.m IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C16"}, "panic in cam_mat"), None)
    ELSE LET p == PV(cam.i)  m == EM(cam.e)  c == EC(cam.e)
             t == CamMatrix(p, m, c)
             s == N1(c)
             lam == Dot(V3(Row(o, 3)), m[3])
             \* the entry that is made one, unless it is zero up to rounding
             norm == Significant(W, t[2][3], s) => Near(W, o[12], R1, R1)
             ok == cam.dom => FinV(o) /\ MatNear(W, o, t[1], t[2], RowF(p), s, lam) /\ norm
         IN JudgedM(F(ok, {"C16"}, "camera matrix"), None, "cam_mat", cam.key, cam.via, <<<<>>>>, <<o>>, <<ok>>, "", FALSE)

PmatEps(w) == IF w = "f64" THEN R(1) ELSE R(1)
\* o: observation of a camera made from the matrix m (12 numerals)
PmatIs(m, o) ==
    LET a == <<V3(Row(m, 1)), V3(Row(m, 2)), V3(Row(m, 3))>>
        b == V3(Col(m))
        p == <<R(o.i.p[1]), R(o.i.p[2]), R(o.i.p[3]), R(o.i.p[4]), R(o.i.p[5])>>
        rm == RotS(o.e.pq)  c == V3(o.e.cc)
        k == MM(Intr(p), rm)
        lam == Dot(a[3], rm[3])
        nr(i) == N1(a[i])
        cols == Tr(a)
        \* by determinants, c = x / w
        w4 == Det(a)
        minor(i) == Tr(CASE i = 1 -> <<b, cols[2], cols[3]>> [] i = 2 -> <<cols[1], b, cols[3]>> [] i = 3 -> <<cols[1], cols[2], b>>)
        byDet == \A i \in 1..3 : Small(W, c[i] \otimes w4 \oplus Det(minor(i)),
                                       R(8) \otimes (DetAbs(minor(i)) \oplus RAbs(c[i]) \otimes DetAbs(a)))
        byRes == \A i \in 1..3 : Small(W, Dot(a[i], c) \oplus b[i], R(8) \otimes (nr(i) \otimes N1(c) \oplus RAbs(b[i])))
    IN /\ RSgn(p[1]) > 0 /\ RSgn(p[2]) > 0 /\ RSgn(lam) # 0
       /\ \A i \in 1..3 : LET d == VSub(a[i], VScale(lam, k[i]))  t == R(16) \otimes nr(i) IN
             Small(W, d[1], t) /\ Small(W, d[2], t) /\ Small(W, d[3], t)
       /\ byDet \/ byRes
PmatDom(m) ==
    /\ InDomV(W, m)
    /\ LET a == <<V3(Row(m, 1)), V3(Row(m, 2)), V3(Row(m, 3))>> IN
       /\ ~IsZeroV(a[1]) /\ ~IsZeroV(a[2]) /\ ~IsZeroV(a[3])
       \* not close to singular
       /\ RLe((IF W = "f64" THEN R("1@-16") ELSE R("1@-6")) \otimes N1(a[1]) \otimes N1(a[2]) \otimes N1(a[3]), RAbs(Det(a)))
J_pmat(ev) ==
    LET dom == PmatDom(ev.m)  key == <<"pmat", ev.m>> IN
    IF Panicked(ev) THEN Judged(F(~dom, {"C15"}, "panic in pmat_cam"), None)
    ELSE IF Failed(ev) THEN
         JudgedM(F(~dom, {"C15"}, "a regular projection matrix was rejected"), None, ev.op, key, {}, <<<<>>>>, <<<<ev.r.err>>>>, <<~dom>>, "", FALSE)
    ELSE LET o == ev.r
             fin == FinV(o.i.p) /\ QuatDom(o.e.pq) /\ FinV(o.e.cc)
             ok == dom => fin /\ PmatIs(ev.m, o)
             coh == dom => Coherent(o.e)
             i == IntrObj("persp", o.i.p, <<"pmat_i", key>>, {}, <<>>)
             e == [k |-> "extr", q |-> o.e.pq, c |-> o.e.cc, cc |-> o.e.cc, pq |-> o.e.pq, dom |-> fin /\ dom /\ InDomV(W, o.e.cc), via |-> {}, key |-> <<"pmat_e", key>>]
         IN JudgedM(F(ok, {"C15"}, "the camera of a projection matrix projects differently")
                    \cup F(coh, {"C05", "C15"}, "views of the pose differ"),
                    CamObj(i, e, key), ev.op, key, {}, <<<<>>>>, <<o.i.p \o Flat(o.e)>>, <<ok>>, "", FALSE)

J_jac(ev) ==
    LET cam == Obj(ev, "cam") IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C17"}, "panic in jac"), None)
    ELSE Judged({}, [k |-> "jac", cam |-> cam])
J_lin(ev) ==
    LET cam == Obj(ev, "j").cam  x == Obj(ev, "x").rows[1]  i == cam.i  e == cam.e IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C17"}, "panic in lin"), None)
    ELSE LET p == PV(i)  m == EM(e)  c == EC(e)  v == V3(x)
             q == ToCam(m, c, v)  s == N1(v) \oplus N1(c)
             dom == cam.dom /\ InDomV(W, x) /\ Significant(W, q[3], s)
             f == RowF(p)
             d == RAbs(q[3])
             amp == RDiv(s, q[3] \otimes q[3]) \otimes (R1 \oplus RDiv(s, d))
             j == Jacobian(p, m, c, v)
             ok == dom => /\ Near3(W, <<ev.r.m[1], ev.r.m[2], ev.r.m[3]>>, j[1], R(4) \otimes f[1] \otimes amp)
                          /\ Near3(W, <<ev.r.m[4], ev.r.m[5], ev.r.m[6]>>, j[2], R(4) \otimes f[2] \otimes amp)
         IN JudgedM(F(ok, {"C17"}, "Jacobian"), None, "lin", cam.key, cam.via, <<x>>, <<ev.r.m>>, <<ok>>, "", FALSE)

-----------------------------------------------------------------------------
(* Values: copies, comparison, serialization *)
J_clone(ev) ==
    LET x == Obj(ev, "x") IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C20"}, "panic in clone"), None)
    ELSE Judged(F(Still(ev.r, x), {"C20"}, "a clone differs"), x)
KeyOf(x) == IF x.k = "bun" THEN <<x.key, x.rows>> ELSE x.key
ObjDom(x) == IF x.k = "bun" THEN \A i \in DOMAIN x.rows : FinV(x.rows[i]) ELSE x.dom
\* objects which are certainly different: what they show of themselves is different
\* (c is the centre according to the model, cc the one the object had: two poses may have the same)
Differ(a, b) ==
    /\ "text" \notin a.via \cup b.via
    /\ CASE a.k = "extr" -> a.dom /\ b.dom /\ ~SameNums(a.cc, b.cc)
         [] a.k = "cam" -> a.dom /\ b.dom /\ (~SameNums(a.i.p, b.i.p) \/ ~SameNums(a.e.cc, b.e.cc))
         [] a.k = "bun" -> ObjDom(a) /\ ObjDom(b) /\ (Len(a.rows) = Len(b.rows))
                            /\ \/ \E i \in DOMAIN a.rows : ~SameNums(a.rows[i], b.rows[i])
                               \* the shared origins, or directions, are further apart than rounding can explain
                               \/ /\ a.so = b.so /\ a.dom /\ b.dom
                                  /\ ~Near3(W, b.ctr, V3(a.ctr), R(16) \otimes (R(a.cs) \oplus R(b.cs)))
         [] OTHER -> ~SameNums(a.p, b.p)
EqTags(a, b) == {"C20"} \cup IF "serde" \in a.via \cup b.via THEN {"C18"} ELSE {}
J_eq(ev) ==
    LET a == Obj(ev, "a")  b == Obj(ev, "b") IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C20"}, "panic in =="), None)
    ELSE Judged(F((KeyOf(a) = KeyOf(b) /\ ObjDom(a) /\ "text" \notin a.via \cup b.via) => ev.r.eq, EqTags(a, b), "equal objects compare different")
                \cup F(Differ(a, b) => ~ev.r.eq, EqTags(a, b), "different objects compare equal"), None)

(* Debug texts: a text is a sequence of <<name of the field, number>>.  It shows the numbers that define the
   object, each of them, exactly, in the field of that name, and no others. *)
Bag(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
Within(a, b) == \A i \in DOMAIN a : Bag(a, a[i]) <= Bag(b, a[i])
SameBag(a, b) == Len(a) = Len(b) /\ Within(a, b)
Named(t, f) == LET s == SelectSeq(t, LAMBDA p : p[1] = f) IN [j \in DOMAIN s |-> s[j][2]]
RECURSIVE FlatRows(_)
FlatRows(rows) ==
    CASE rows = <<>> -> <<>>
      [] Len(rows) = 1 -> rows[1]
      [] OTHER -> LET h == Len(rows) \div 2 IN FlatRows(SubSeq(rows, 1, h)) \o FlatRows(SubSeq(rows, h + 1, Len(rows)))
\* the fields of an object with these numbers: <<name, numbers>>
PoseFields(r) == <<<<"rquat", <<r.pq[2], r.pq[3], r.pq[4], r.pq[1]>>>>, <<"camcenter", r.cc>>>>
PerspFields(p) == <<<<"fx", <<p[1]>>>>, <<"fy", <<p[2]>>>>, <<"skew", <<p[3]>>>>, <<"cx", <<p[4]>>>>, <<"cy", <<p[5]>>>>>>
OrthoFields(p) == <<<<"sx", <<p[1]>>>>, <<"sy", <<p[2]>>>>, <<"cx", <<p[3]>>>>, <<"cy", <<p[4]>>>>>>
Fields(x, r) ==
    CASE x.k = "extr"  -> PoseFields(r)
      [] x.k = "persp" -> PerspFields(r.pp)
      [] x.k = "ortho" -> OrthoFields(x.p)
      [] x.k = "cam" /\ x.i.k = "persp" -> PerspFields(r.i.pp) \o PoseFields(r.e)
      [] x.k = "cam" /\ x.i.k = "ortho" -> OrthoFields(x.i.p) \o PoseFields(r.e)
      [] OTHER -> <<>>
Shows(t, fs) ==
    LET ns == [j \in DOMAIN t |-> t[j][2]]
        es == FlatRows([j \in DOMAIN fs |-> fs[j][2]])
    IN /\ SameBag(es, ns)
       /\ \A j \in DOMAIN fs : Named(t, fs[j][1]) = <<>> \/ SameBag(Named(t, fs[j][1]), fs[j][2])
ShowsRows(t, rows, more) ==      \* and `more` other numbers
    LET ns == [j \in DOMAIN t |-> t[j][2]]  es == FlatRows(rows) IN Len(ns) = Len(es) + more /\ Within(es, ns)
J_dbg(ev) ==
    IF Panicked(ev) THEN Judged(F(FALSE, {"C25"}, "panic in Debug"), None)
    ELSE LET x == Obj(ev, "x")  r == ev.r.obs
             ok(t) == CASE x.k = "pts" -> ShowsRows(t, r.rows, 0)
                        [] x.k = "bun" -> x.lay = "v" \/ ShowsRows(t, r.rows, 3)   \* a view prints an address
                        [] "text" \in x.via -> TRUE           \* the numbers may have been rounded
                        [] OTHER -> Shows(t, Fields(x, r))
         IN Judged(F(\A j \in DOMAIN ev.r.texts : ok(ev.r.texts[j]), {"C25"}, "the text does not show the numbers of the object"), None)

ExactRoute(ev) == ev.route \in {"value", "bincode"}
NumsNear(o, p) == Len(o) = Len(p) /\ \A i \in DOMAIN o : Near(W, o[i], R(p[i]), RAbs(R(p[i])))
ReadOk(r, x, exact) ==
    CASE x.k = "extr" -> ExtrStill(r, x) /\ (exact => SameNums(r.pq, x.pq) /\ SameNums(r.cc, x.cc))
      [] x.k = "persp" -> IF exact THEN PerspStill(r, x) ELSE NumsNear(r.p, x.p) /\ NumsNear(r.pp, x.p)
      [] x.k = "cam" -> /\ ExtrStill(r.e, x.e) /\ (exact => SameNums(r.e.pq, x.e.pq) /\ SameNums(r.e.cc, x.e.cc))
                        /\ x.i.k = "persp" => IF exact THEN PerspStill(r.i, x.i) ELSE NumsNear(r.i.p, x.i.p)
      [] x.k = "bun" -> IF exact THEN Len(r.rows) = Len(x.rows) /\ \A i \in DOMAIN r.rows : SameNums(r.rows[i], x.rows[i])
                        ELSE Len(r.rows) = Len(x.rows) /\ \A i \in DOMAIN r.rows : NumsNear(r.rows[i], x.rows[i])
      [] OTHER -> TRUE
Mark(x, v) == IF x.k = "cam" THEN [x EXCEPT !.via = @ \cup v, !.i = [@ EXCEPT !.via = @ \cup v], !.e = [@ EXCEPT !.via = @ \cup v]]
              ELSE [x EXCEPT !.via = @ \cup v]
J_serde(ev) ==
    LET x == Obj(ev, "x")  dom == ObjDom(x) IN
    IF Panicked(ev) THEN Judged(F(FALSE, {"C18"}, "panic in serialization"), None)
    ELSE IF Failed(ev) THEN Judged(F(~dom, {"C18"}, "a serialized object cannot be read"), None)
    ELSE Judged(F((dom /\ ExactRoute(ev)) => ev.r.eq, {"C18"}, "a deserialized object is not equal to the original")
                \cup F(dom => ReadOk(ev.r.o, x, ExactRoute(ev) /\ "text" \notin x.via), {"C18"}, "a deserialized object differs from the original"),
                Mark(x, IF ExactRoute(ev) THEN {"serde"} ELSE {"serde", "text"}))
J_serde_bad(ev) ==
    IF Panicked(ev) THEN Judged(F(FALSE, {"C18"}, "panic when reading malformed data"), None)
    ELSE Judged(F(ev.r.rej, {"C18"}, "malformed data was accepted: " \o ev.how), None)
\* the documented serialized forms
FormExtr(q, c) == [rquat |-> <<q[2], q[3], q[4], q[1]>>, camcenter |-> c]
J_serde_read(ev) ==
    LET v == ev.v
        extr(f) == [k |-> "extr", q |-> <<f.rquat[4], f.rquat[1], f.rquat[2], f.rquat[3]>>, c |-> f.camcenter, cc |-> f.camcenter,
                    pq |-> <<f.rquat[4], f.rquat[1], f.rquat[2], f.rquat[3]>>,
                    dom |-> ExtrDom(<<f.rquat[4], f.rquat[1], f.rquat[2], f.rquat[3]>>, f.camcenter),
                    via |-> {"serde"}, key |-> <<"read_extr", f.rquat, f.camcenter>>]
        persp(f) == LET p == <<f.params.fx, f.params.fy, f.params.skew, f.params.cx, f.params.cy>>
                    IN IntrObj("persp", p, <<"persp", p>>, {"serde"}, <<>>)
        ortho(f) == LET p == <<f.params.sx, f.params.sy, f.params.cx, f.params.cy>>
                    IN IntrObj("ortho", p, <<"ortho", p>>, {"serde"}, <<>>)
        x == CASE ev.kind = "extr" -> extr(v)
               [] ev.kind = "persp" -> persp(v)
               [] ev.kind = "ortho" -> ortho(v)
               [] ev.kind = "camp" -> LET i == persp(v.intrinsics)  e == extr(v.extrinsics) IN CamObj(i, e, <<"cam", i.key, e.key>>)
               [] ev.kind = "camo" -> LET i == ortho(v.intrinsics)  e == extr(v.extrinsics) IN CamObj(i, e, <<"cam", i.key, e.key>>)
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C18"}, "panic when reading"), None)
       ELSE IF Failed(ev) THEN Judged(F(~x.dom, {"C18"}, "the documented form cannot be read"), None)
       ELSE Judged(F(x.dom => ReadOk(ev.r, x, TRUE), {"C18"}, "another object was read"), x)
J_serde_form(ev) ==
    LET x == Obj(ev, "x")  v == ev.r.v
        e(f, o) == o.dom => /\ DOMAIN f = {"rquat", "camcenter"} /\ Len(f.rquat) = 4
                            /\ "text" \in o.via \/ (SameNums(<<f.rquat[4], f.rquat[1], f.rquat[2], f.rquat[3]>>, o.pq) /\ SameNums(f.camcenter, o.cc))
                            /\ Near3(W, f.camcenter, EC(o), R(4) \otimes N1(EC(o)))
                            /\ MNear(W, RotS(<<f.rquat[4], f.rquat[1], f.rquat[2], f.rquat[3]>>), EM(o))
        pp(f, o) == DOMAIN f = {"params"} /\ DOMAIN f.params = {"fx", "fy", "skew", "cx", "cy"}
                    /\ SameNums(<<f.params.fx, f.params.fy, f.params.skew, f.params.cx, f.params.cy>>, o.p)
        po(f, o) == DOMAIN f = {"params"} /\ DOMAIN f.params = {"sx", "sy", "cx", "cy"}
                    /\ SameNums(<<f.params.sx, f.params.sy, f.params.cx, f.params.cy>>, o.p)
        ii(f, o) == o.dom => IF o.k = "persp" THEN pp(f, o) ELSE po(f, o)
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C18"}, "panic when writing"), None)
       ELSE Judged(F(CASE x.k = "extr" -> e(v, x)
                       [] x.k \in {"persp", "ortho"} -> ii(v, x)
                       [] x.k = "cam" -> DOMAIN v = {"intrinsics", "extrinsics"} /\ ii(v.intrinsics, x.i) /\ e(v.extrinsics, x.e)
                       [] OTHER -> TRUE, {"C18"}, "not the documented form"), None)

-----------------------------------------------------------------------------
(* The round trip utility: passes exactly when every pixel of the grid is reproduced to within eps *)
J_util(ev) ==
    LET i == Obj(ev, "i")  p == PV(i)  eps == R(ev.eps)
        us == GridRange(ev.w, ev.step, ev.border)  vs == GridRange(ev.h, ev.step, ev.border)
        empty == us = {} \/ vs = {}
        At(g, x) == \E y \in g : RLt(RAbs(R(y) \ominus R(x)), R("1/8"))
        hit == i.spike # <<>> /\ At(us, i.spike[1]) /\ At(vs, i.spike[2])
        off == {RAbs(R(i.spike[j])) : j \in {3, 4}}
        \* rounding errors of the round trip stay well below eps
        far == R(ev.w + ev.h)
        big == (PixU(i.k, p, <<far, far>>) \oplus PixV(i.k, p, <<far, far>>)) \otimes R(64)
        clear == RLt(RMul(Eps(W), big) \otimes R(16), eps)
        pass == ~hit \/ (FinV(i.spike) /\ \A d \in off : RLe(d, RMul(eps, R("15/16"))))
        fail == hit /\ (~FinV(i.spike) \/ \E d \in off : RLe(RMul(eps, R("17/16")), d))
        \* no pixel can come back through a scale of zero, except one
        lost == /\ i.k \in {"persp", "ortho"}
                /\ \/ R(i.p[1]) = R0 /\ (i.k = "persp" => R(i.p[3]) = R0) /\ \E u \in us : RLt(eps, RAbs(R(u) \ominus R(i.p[IF i.k = "persp" THEN 4 ELSE 3])))
                   \/ R(i.p[2]) = R0 /\ \E v \in vs : RLt(eps, RAbs(R(v) \ominus R(i.p[IF i.k = "persp" THEN 5 ELSE 4])))
    IN IF Panicked(ev) THEN Judged(F(FALSE, {"C21"}, "panic in util"), None)
       ELSE IF ev.border > ev.w \/ ev.border > ev.h THEN Judged({}, None)     \* not a grid
       ELSE IF empty THEN Judged(F(ev.r.pass, {"C21"}, "the round trip utility fails on an empty grid"), None)
       ELSE IF ~i.dom THEN Judged({}, None)
       ELSE IF ~Invertible(i.k, p) THEN Judged(F(lost => ~ev.r.pass, {"C21"}, "the round trip utility passes a model without inverse"), None)
       ELSE Judged(F((clear /\ pass) => ev.r.pass, {"C21"}, "the round trip utility fails a good model")
                   \cup F((clear /\ fail) => ~ev.r.pass, {"C21"}, "the round trip utility passes a bad model"), None)

-----------------------------------------------------------------------------
(* Which judge for which call *)
Judge1(ev) ==
    CASE ev.op \in {"extr_rc", "extr_pose", "extr_view", "extr_repose", "extr_rerc"} -> J_extr(ev)
      [] ev.op = "extr_of" -> J_extr_of(ev)
      [] ev.op = "obs" -> J_obs(ev)
      [] ev.op \in IntrKinds -> J_intr(ev)
      [] ev.op = "norm34" -> J_norm34(ev)
      [] ev.op = "cam" -> J_cam(ev)
      [] ev.op \in {"pmat_cam", "pmat_of"} -> J_pmat(ev)
      [] ev.op = "cam_mat" -> J_cam_mat(ev)
      [] ev.op = "jac" -> J_jac(ev)
      [] ev.op = "lin" -> J_lin(ev)
      [] ev.op = "pts" -> J_pts(ev)
      [] ev.op = "pix" -> J_pix(ev)
      [] ev.op = "w2c" -> J_w2c(ev)
      [] ev.op = "c2w" -> J_c2w(ev)
      [] ev.op = "c2p" -> J_c2p(ev)
      [] ev.op = "p2c" -> J_p2c(ev)
      [] ev.op = "w2p" -> J_w2p(ev)
      [] ev.op = "p2w" -> J_p2w(ev)
      [] ev.op \in {"bso", "bsd"} -> J_bundle(ev)
      [] ev.op = "bpose" -> J_bpose(ev)
      [] ev.op = "r2w" -> J_r2w(ev)
      [] ev.op = "por" -> J_por(ev)
      [] ev.op = "pord" -> J_pord(ev)
      [] ev.op = "bobs" -> J_bobs(ev)
      [] ev.op = "single" -> J_single(ev)
      [] ev.op = "ray" -> J_ray(ev)
      [] ev.op = "isect" -> J_isect(ev)
      [] ev.op = "clone" -> J_clone(ev)
      [] ev.op = "eq" -> J_eq(ev)
      [] ev.op = "dbg" -> J_dbg(ev)
      [] ev.op = "serde" -> J_serde(ev)
      [] ev.op = "serde_bad" -> J_serde_bad(ev)
      [] ev.op = "serde_read" -> J_serde_read(ev)
      [] ev.op = "serde_form" -> J_serde_form(ev)
      [] ev.op = "util" -> J_util(ev)

\* A call made by several threads at once: the results are those of one call.
ParJudge(ev) ==
    IF Panicked(ev) THEN Judged(F(FALSE, {"C20"}, "panic"), None)
    ELSE LET rs == ev.r.rs
             one == Judge1(("r" :> rs[1]) @@ ev.of)
         IN [one EXCEPT !.bad = @ \cup F(\A j \in DOMAIN rs : rs[j] = rs[1], {"C20"}, "threads see different results")
                                  \cup F(ev.r.sync, {"C20"}, "objects cannot be shared between threads"),
                        !.obj = None]
Judge(ev) == IF ev.op = "par" THEN ParJudge(ev) ELSE Judge1(ev)

-----------------------------------------------------------------------------
(* Results that are remembered.  A row of a result may only depend on the object it was computed
   from and on the row of the argument.  Two results for the same row agree when they are
   identical or when both are right. *)
Agree(a, b, oka, okb) ==
    \/ a = b
    \/ Len(a) = Len(b) /\ oka /\ okb
       /\ \A i \in DOMAIN a : a[i] = b[i] \/ Fin(a[i]) = Fin(b[i])
RowKey(ev, mem, i) == <<mem.op, mem.key, mem.ins[i]>>
MismatchTags(old, ev, mem) ==
    IF old.cfg # Cfg(ev) THEN {"C22"}
    ELSE IF ("serde" \in old.via) # ("serde" \in mem.via) THEN {"C18"}
    ELSE IF mem.rowwise THEN {"C12"} ELSE {"C20"}
MemoBad(ev, mem) ==
    IF ~mem.on \/ ~env.memo \/ "text" \in mem.via THEN {}
    ELSE UNION {
        LET key == RowKey(ev, mem, i) IN
        IF key \in DOMAIN memoR THEN
            LET old == memoR[key] IN
            F(Agree(old.o, mem.outs[i], old.ok, mem.oks[i]), MismatchTags(old, ev, mem), mem.op \o ": another result for the same arguments")
        ELSE LET j == CHOOSE j \in DOMAIN mem.ins : mem.ins[j] = mem.ins[i] /\ \A k \in 1..(j - 1) : mem.ins[k] # mem.ins[i] IN
             F(Agree(mem.outs[j], mem.outs[i], mem.oks[j], mem.oks[i]), {"C12"}, mem.op \o ": equal rows, different results")
        : i \in DOMAIN mem.ins}
MemoRows(ev, mem) ==
    IF ~mem.on \/ ~env.memo \/ "text" \in mem.via THEN memoR
    ELSE LET first == {i \in DOMAIN mem.ins : \A k \in 1..(i - 1) : mem.ins[k] # mem.ins[i]}
             new == {i \in first : RowKey(ev, mem, i) \notin DOMAIN memoR}
             keys == {RowKey(ev, mem, i) : i \in new}
         IN memoR @@ [k \in keys |-> LET i == CHOOSE i \in new : RowKey(ev, mem, i) = k IN
                        [o |-> mem.outs[i], ok |-> mem.oks[i], cfg |-> Cfg(ev), via |-> mem.via]]
\* Complete calls: the same call on the same (or a copied) object gives identical results.
CallKey(ev, mem) == <<mem.op, mem.key, mem.ins, mem.lay, Cfg(ev), "serde" \in mem.via>>
CallRes(ev) == IF ev.op = "par" THEN ev.r.rs[1] ELSE ev.r
CallBad(ev, mem) ==
    IF ~mem.on \/ ~env.memo \/ "text" \in mem.via THEN {}
    ELSE LET key == CallKey(ev, mem) IN
         F(key \in DOMAIN memoE => memoE[key] = CallRes(ev), {"C20"}, mem.op \o ": the same call gives another result")
MemoCalls(ev, mem) ==
    IF ~mem.on \/ ~env.memo \/ "text" \in mem.via THEN memoE
    ELSE LET key == CallKey(ev, mem) IN IF key \in DOMAIN memoE THEN memoE ELSE memoE @@ (key :> CallRes(ev))

-----------------------------------------------------------------------------
SessionInit(e) ==
    /\ env = e
    /\ heap = [r \in {} |-> None]
    /\ memoR = [r \in {} |-> None]
    /\ memoE = [r \in {} |-> None]
    /\ memoO = [r \in {} |-> None]
    /\ bad = {}

\* Calls whose registers are empty (because an earlier call failed) are not judged.
Regs(ev) == {ev[f] : f \in DOMAIN ev \cap {"e", "i", "cam", "x", "b", "j", "a"}}
Ready(ev) == \A r \in Regs(ev) : r \in DOMAIN heap /\ heap[r].k # "none"
Callable(ev) == IF ev.op = "par" THEN Ready(ev.of)
                ELSE IF ev.op = "eq" THEN Ready(ev) /\ Ready([x |-> ev.b])
                ELSE Ready(ev)

Call(ev) ==
    IF ~Callable(ev) THEN UNCHANGED sessionVars
    ELSE LET j == Judge(ev)
             pan == IF Panicked(ev) THEN {<<"C24", "panic in " \o ev.op>>} ELSE {}
             own == IF env.adv /\ Panicked(ev) THEN {} ELSE j.bad
             \* the same call in several configurations: all panic or none does
             okey == IF Has(ev, "cfg") THEN <<"outcome", ev.n>> ELSE <<>>
             cfg == F((okey \in DOMAIN memoO) => (memoO[okey] = Panicked(ev)), {"C22"},
                      "panic in some configurations only: " \o ev.op)
         IN /\ bad' = bad \cup pan \cup own \cup cfg \cup MemoBad(ev, j.mem) \cup CallBad(ev, j.mem)
            /\ heap' = IF Has(ev, "o") THEN (ev.o :> j.obj) @@ heap ELSE heap
            /\ memoR' = MemoRows(ev, j.mem)
            /\ memoE' = MemoCalls(ev, j.mem)
            /\ memoO' = IF Has(ev, "cfg") THEN (okey :> Panicked(ev)) @@ memoO ELSE memoO
            /\ UNCHANGED env
=============================================================================
