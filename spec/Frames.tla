------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The reference-frame store.  A frame is a slot number; fs.kind maps the   *)
(* live frames to their motion, fs.par maps each to its parent or 0.  The   *)
(* children of a frame are exactly the frames it is the parent of.  An      *)
(* attachment that would make a frame its own ancestor is refused.          *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC
Live(fs) == DOMAIN fs.par
Empty == [par |-> <<>>, mot |-> <<>>]
Kids(fs, i) == {j \in Live(fs) : fs.par[j] = i}
RECURSIVE Up(_, _, _)
\* i and its ancestors; n bounds the walk
Up(fs, i, n) == IF i = 0 \/ n = 0 THEN {} ELSE {i} \cup Up(fs, fs.par[i], n - 1)
Above(fs, i) == Up(fs, i, Cardinality(Live(fs)))
Create(fs, i, m, p) == [par |-> (i :> p) @@ fs.par, mot |-> (i :> m) @@ fs.mot]
\* parent j for frame i (0: none); refused when i is j or above j
MaySet(fs, i, j) == j = 0 \/ i \notin Above(fs, j)
SetPar(fs, i, j) == IF MaySet(fs, i, j) THEN [fs EXCEPT !.par[i] = j] ELSE fs
MayAdd(fs, i, c) == c # 0 /\ MaySet(fs, c, i)
AddKid(fs, i, c) == IF MayAdd(fs, i, c) THEN [fs EXCEPT !.par[c] = i] ELSE fs
MayDrop(fs, i, c) == c # 0 /\ fs.par[c] = i
DropKid(fs, i, c) == IF MayDrop(fs, i, c) THEN [fs EXCEPT !.par[c] = 0] ELSE fs
Destroy(fs, i) == LET L == Live(fs) \ {i} IN [par |-> [j \in L |-> IF fs.par[j] = i THEN 0 ELSE fs.par[j]], mot |-> [j \in L |-> fs.mot[j]]]

(* ---------------- motions: where a point of the frame is in its parent at time t ---------------- *)
VAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>
VSc(s, a) == <<RMul(s, a[1]), RMul(s, a[2]), RMul(s, a[3])>>
VDot(a, b) == RDot(a, b)
VCross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
O == <<0, 0, 0>>
R200(v) == <<RRnd(v[1], 200), RRnd(v[2], 200), RRnd(v[3], 200)>>
Turn(m, t) == RMul(RMul(2, RPi), RDiv(t, m.period))
\* rotation by angle a about the direction of u
Rotate(u, a, p) ==
  LET k == VSc(RDiv(1, RSqrt(VDot(u, u))), u) c == RCos(a) s == RSin(a)
  IN VAdd(VAdd(VSc(c, p), VSc(s, VCross(k, p))), VSc(RMul(VDot(k, p), RSub(1, c)), k))
Deg(x) == RMul(RDiv(RPi, 180), x)
\* the point at geographic latitude, longitude (degrees) and height over a sphere
Geo(r, p) == LET R == RAdd(r, p[3]) IN <<RMul(R, RMul(RCos(Deg(p[1])), RCos(Deg(p[2])))), RMul(R, RMul(RCos(Deg(p[1])), RSin(Deg(p[2])))), RMul(R, RSin(Deg(p[1])))>>
Origin(m, t) ==
  CASE m.k = "inertial" -> VAdd(m.pos, VSc(t, m.vel))
    [] m.k = "orbit" -> LET a == RAdd(m.angle, Turn(m, t)) IN <<RMul(m.radius, RCos(a)), RMul(m.radius, RSin(a)), 0>>
    [] OTHER -> O
InParent(m, p, t) ==
  R200(CASE m.k \in {"inertial", "orbit"} -> VAdd(Origin(m, t), p)
    [] m.k = "rotating" -> Rotate(m.axis, Turn(m, t), p)
    [] m.k = "sphere" -> Rotate(m.axis, Turn(m, t), Geo(m.radius, p))
    \* east, north, up on the ground at a latitude and longitude: 111.32 length units to the degree of latitude
    [] m.k = "ground" -> <<RAdd(m.lat, RDiv(p[2], "111.32")), RAdd(m.lon, RDiv(p[1], RMul(RMul(m.radius, RCos(Deg(m.lat))), RDiv(RPi, 180)))), p[3]>>
    [] OTHER -> p)
\* the sizes the machine handles on the way, for its rounding
Size(m, p, t) ==
  CASE m.k = "inertial" -> RAdd(RMaxAbs(p), RAdd(RMaxAbs(m.pos), RMul(RAbs(t), RMaxAbs(m.vel))))
    [] m.k = "orbit" -> RAdd(RMaxAbs(p), RMul(RAbs(m.radius), RAdd(1, RAbs(Turn(m, t)))))
    [] m.k = "rotating" -> RMul(RMaxAbs(p), RAdd(1, RAbs(Turn(m, t))))
    [] m.k = "sphere" -> RMul(RAdd(RAbs(m.radius), RAbs(p[3])), RAdd(RAdd(1, RMaxAbs(p)), RAbs(Turn(m, t))))
    [] m.k = "ground" -> RAdd(RAdd(RAbs(m.lat), RAbs(m.lon)), RMul(RAdd(1, RMaxAbs(p)), RMul(1000, RAdd(1, RDiv(1, RAbs(m.radius))))))
    [] OTHER -> RMaxAbs(p)
SameV(a, b, s) == \A i \in 1..3 : Within(a[i], b[i], RMul("1e-14", s))
=============================================================================
