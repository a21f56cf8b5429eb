-------------------------------- MODULE Orbit --------------------------------
(* E01: where a satellite is, out of its broadcast Keplerian elements: the    *)
(* user algorithm of IS-GPS-200 20.3.3.4.3, the Galileo OS SIS ICD 5.1.1 and   *)
(* the BeiDou ICD 5.2.4.12, written as a program: a sequence of named          *)
(* expressions. The program is emitted along with random elements, to be       *)
(* compared with the implementation; it is also run here, exactly, on angles   *)
(* that are multiples of a quarter turn, where sines are integers.             *)
EXTENDS Text

CONSTANTS Circles(_)

VARIABLES el, done
vars == <<el, done>>

(* --- expressions: names, integers, <<op, operands>> --- *)
V(n) == <<"v", n>>
K(k) == <<"k", k>>
Add(a, b) == <<"+", a, b>>
Sub(a, b) == <<"-", a, b>>
Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Sqrt(a) == <<"sqrt", a>>
Sin(a) == <<"sin", a>>
Cos(a) == <<"cos", a>>
Let(n, e) == [n |-> n, e |-> e]

Sum3(a, b, c) == Add(Add(a, b), c)
(* a + amplitude of the second harmonics of the argument of latitude *)
Harmonic(a, c, s) == Sum3(a, Mul(c, V("cos2")), Mul(s, V("sin2")))

Elliptic == <<
  Let("A", Mul(V("sqrta"), V("sqrta"))),
  Let("n", Add(Sqrt(Div(V("mu"), Mul(V("A"), Mul(V("A"), V("A"))))), V("dn"))),
  Let("M", Add(V("m0"), Mul(V("n"), V("tk")))),
  Let("E", <<"kepler", V("M"), V("e")>>),
  Let("v", <<"atan2", Mul(Sqrt(Sub(K(1), Mul(V("e"), V("e")))), Sin(V("E"))), Sub(Cos(V("E")), V("e"))>>),
  Let("phi", Add(V("v"), V("omega"))),
  Let("sin2", Sin(Mul(K(2), V("phi")))),
  Let("cos2", Cos(Mul(K(2), V("phi")))),
  Let("u", Harmonic(V("phi"), V("cuc"), V("cus"))),
  Let("r", Harmonic(Mul(V("A"), Sub(K(1), Mul(V("e"), Cos(V("E"))))), V("crc"), V("crs"))),
  Let("i", Harmonic(Add(V("i0"), Mul(V("idot"), V("tk"))), V("cic"), V("cis"))),
  Let("x", Mul(V("r"), Cos(V("u")))),
  Let("y", Mul(V("r"), Sin(V("u")))),
  (* relativistic correction of the clock, -2 sqrt(mu) / c^2 e sqrt(A) sin E *)
  Let("dtr", Div(Mul(Mul(Mul(K(-2), Sqrt(V("mu"))), Mul(V("e"), V("sqrta"))), Sin(V("E"))), Mul(V("c"), V("c")))) >>
(* longitude of the node, from Greenwich at tk, or at toe *)
NodeNow == <<Let("W", Sub(Add(V("omega0"), Mul(Sub(V("omegaDot"), V("we")), V("tk"))), Mul(V("we"), V("toe"))))>>
NodeToe == <<Let("W", Sub(Add(V("omega0"), Mul(V("omegaDot"), V("tk"))), Mul(V("we"), V("toe"))))>>
(* from the orbital plane to Earth fixed axes *)
Plane(x, y, z) == <<
  Let(x, Sub(Mul(V("x"), Cos(V("W"))), Mul(Mul(V("y"), Cos(V("i"))), Sin(V("W"))))),
  Let(y, Add(Mul(V("x"), Sin(V("W"))), Mul(Mul(V("y"), Cos(V("i"))), Cos(V("W"))))),
  Let(z, Mul(V("y"), Sin(V("i")))) >>
(* the frame of a geostationary satellite is tilted by 5 degrees about the    *)
(* axis of its node, and turns with the Earth since toe                       *)
Tilted == <<
  Let("X1", V("X0")),
  Let("Y1", Sub(Mul(V("Y0"), Cos(V("tilt"))), Mul(V("Z0"), Sin(V("tilt"))))),
  Let("Z", Add(Mul(V("Y0"), Sin(V("tilt"))), Mul(V("Z0"), Cos(V("tilt"))))),
  Let("turn", Mul(V("we"), V("tk"))),
  Let("X", Add(Mul(V("X1"), Cos(V("turn"))), Mul(V("Y1"), Sin(V("turn"))))),
  Let("Y", Sub(Mul(V("Y1"), Cos(V("turn"))), Mul(V("X1"), Sin(V("turn"))))) >>

Medium == Elliptic \o NodeNow \o Plane("X", "Y", "Z")
Geo == Elliptic \o NodeToe \o Plane("X0", "Y0", "Z0") \o Tilted

(* where a station of geodetic coordinates lat, lon, h stands *)
Station == <<
  Let("N", Div(V("ae"), Sqrt(Sub(K(1), Mul(V("e2"), Mul(Sin(V("lat")), Sin(V("lat")))))))),
  Let("P", Mul(Add(V("N"), V("h")), Cos(V("lat")))),
  Let("RX", Mul(V("P"), Cos(V("lon")))),
  Let("RY", Mul(V("P"), Sin(V("lon")))),
  Let("RZ", Mul(Add(Mul(V("N"), Sub(K(1), V("e2"))), V("h")), Sin(V("lat")))) >>
(* the satellite at X, Y, Z seen from it: towards east, north and the zenith  *)
Seen == <<
  Let("dx", Sub(V("X"), V("RX"))),
  Let("dy", Sub(V("Y"), V("RY"))),
  Let("dz", Sub(V("Z"), V("RZ"))),
  Let("out", Add(Mul(Cos(V("lon")), V("dx")), Mul(Sin(V("lon")), V("dy")))),
  Let("east", Sub(Mul(Cos(V("lon")), V("dy")), Mul(Sin(V("lon")), V("dx")))),
  Let("north", Sub(Mul(Cos(V("lat")), V("dz")), Mul(Sin(V("lat")), V("out")))),
  Let("up", Add(Mul(Sin(V("lat")), V("dz")), Mul(Cos(V("lat")), V("out")))),
  Let("flat2", Add(Mul(V("east"), V("east")), Mul(V("north"), V("north")))),
  Let("range2", Add(V("flat2"), Mul(V("up"), V("up")))) >>
Angles == <<
  Let("range", Sqrt(V("range2"))),
  Let("az", <<"atan2", V("east"), V("north")>>),
  Let("elev", <<"atan2", V("up"), Sqrt(V("flat2"))>>) >>
Look == Station \o Seen \o Angles

IsGeo(sv) == sv[1] = "C" /\ (sv[2] <= 5 \/ sv[2] >= 59)
Program(sv) == IF IsGeo(sv) THEN Geo ELSE Medium
Mu(s) == IF s \in {"E", "C"} THEN "3.986004418e14" ELSE "3.986005e14"
We(s) == IF s = "C" THEN "7.292115e-5" ELSE "7.2921151467e-5"

(* --- the program, run on quarter turns --- *)
Quarter(q) == <<0, 1, 0, -1>>[(q % 4) + 1]
Root(n) == CHOOSE k \in 0..n : k * k = n
RECURSIVE Eval(_, _)
Eval(e, env) ==
  IF e[1] = "k" THEN e[2] ELSE IF e[1] = "v" THEN env[e[2]]
  ELSE LET a == Eval(e[2], env)
       IN CASE e[1] = "sqrt" -> Root(a)
            [] e[1] = "sin" -> Quarter(a)
            [] e[1] = "cos" -> Quarter(a + 1)
            [] OTHER ->
               LET b == Eval(e[3], env)
               IN CASE e[1] = "+" -> a + b
                    [] e[1] = "-" -> a - b
                    [] e[1] = "*" -> a * b
                    [] e[1] = "/" -> a \div b
                    [] e[1] = "kepler" -> a                 \* circles only
                    [] e[1] = "atan2" -> CHOOSE q \in 0..3 : Quarter(q) = a /\ Quarter(q + 1) = b
RECURSIVE Run(_, _)
Run(p, env) == IF p = <<>> THEN env
               ELSE Run(Tail(p), env @@ (Head(p).n :> TLCEval(Eval(Head(p).e, env))))
At(p, env) == LET z == Run(p, env) IN <<z["X"], z["Y"], z["Z"]>>

Turn(p, q) == <<p[1] * Quarter(q + 1) - p[2] * Quarter(q), p[1] * Quarter(q) + p[2] * Quarter(q + 1), p[3]>>

(* A = 4, mu = 4^3: one quarter turn of mean motion per unit of time *)
Base == [sqrta |-> 2, mu |-> 64, e |-> 0, c |-> 1]
Env(x) == Base @@ x
Init == el = <<>> /\ done = FALSE
Pick == /\ ~done /\ el = <<>>
        /\ \E x \in Circles(0) : el' = Env(x)
        /\ UNCHANGED done
Stop == /\ el # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED el
SpecCircles == Init /\ [][Pick \/ Stop]_vars

OnOrbit == el # <<>> => LET z == Run(Medium, el) IN
  /\ z.X * z.X + z.Y * z.Y + z.Z * z.Z = z.r * z.r
  /\ z.Z = z.r * Quarter(z.u) * Quarter(z.i)
  /\ (Quarter(z.u) = 0) => z.Z = 0
GeoNorm == el # <<>> => LET z == Run(Geo, el) IN z.X * z.X + z.Y * z.Y + z.Z * z.Z = z.r * z.r
(* without its tilt, the frame of a geostationary satellite is the usual one  *)
GeoIsMedium == el # <<>> => At(Geo, [el EXCEPT !.tilt = 0]) = At(Medium, el)
(* the orbit is the same seen from axes that do not turn *)
EarthTurns == el # <<>> => Turn(At(Medium, el), el.we * (el.tk + el.toe)) = At(Medium, [el EXCEPT !.we = 0])
(* toe only dates the node: as much later is as much further *)
Later == el # <<>> => At(Medium, [el EXCEPT !.toe = @ + 1]) = Turn(At(Medium, el), -el.we)

(* seen from a station on a sphere: axes keep lengths; a satellite further    *)
(* out on the same vertical is at the zenith; one turned about the axis of    *)
(* the Earth along with the station looks the same                            *)
LookFrom(z, la, lo) == Run(Station \o Seen, z @@ [lat |-> la, lon |-> lo, h |-> 1, ae |-> 2, e2 |-> 0])
Views == el # <<>> => LET z == Run(Medium, el) IN \A la \in {0, 1, 3}, lo \in 0..3 :
  LET f == LookFrom(z, la, lo) IN
  /\ f.range2 = f.dx * f.dx + f.dy * f.dy + f.dz * f.dz
  /\ LET t == Turn(<<z.X, z.Y, z.Z>>, 1) g == LookFrom([X |-> t[1], Y |-> t[2], Z |-> t[3]], la, lo + 1)
     IN <<f.east, f.north, f.up>> = <<g.east, g.north, g.up>>
  /\ LET g == LookFrom([X |-> 5 * f.RX, Y |-> 5 * f.RY, Z |-> 5 * f.RZ], la, lo) IN g.flat2 = 0 /\ g.up = 12
  /\ la = 0 /\ z.Z > 0 => f.north > 0

(* --- random elements, as decimal strings --- *)
Dec(v, k) == ToString(v) \o "e-" \o ToString(k)
Big(h) == RandomElement(0..9999) * 10000 + RandomElement(0..9999)     \* below 10^8
From1(S) == CHOOSE z \in {x : x \in {RandomElement(S)}} : TRUE
Signed(h) == From1({-1, 1}) * From1({Big(0)})
OrZero(h, s) == IF RandomElement(1..10) = 1 THEN "0" ELSE s
Angle(h) == OrZero(h, Dec(Signed(h) * 3 + RandomElement(0..14159265), 8))
Draw1(n, sv, geo) ==
  CASE n = "sqrta" -> IF geo \/ sv[1] = "J" THEN Dec(64900000 + RandomElement(0..60000), 4)
                      ELSE Dec(50500000 + RandomElement(0..9999) * 400, 4)
    [] n = "e" -> OrZero(1, CASE RandomElement(1..40) = 1 -> Dec(Big(0), 7)        \* no orbit: the solver must give up
                          [] RandomElement(1..6) = 1 -> Dec(Big(0), 9) [] RandomElement(1..4) = 1 -> Dec(Big(0), 11) [] OTHER -> Dec(Big(0) \div 4, 9))
    [] n \in {"m0", "omega", "omega0"} -> Angle(1)
    [] n = "i0" -> IF geo THEN OrZero(1, Dec(Big(0), 9)) ELSE Dec(50000000 + Big(0), 8)
    [] n = "dn" -> OrZero(1, Dec(Big(0), 16))
    [] n = "idot" -> OrZero(1, Dec(Signed(1), 17))
    [] n = "omegaDot" -> OrZero(1, Dec(-Big(0), 16))
    [] n \in {"cuc", "cus", "cic", "cis"} -> OrZero(1, Dec(Signed(1), 13))
    [] n \in {"crc", "crs"} -> OrZero(1, Dec(Signed(1), 5))
Names == {"sqrta", "e", "m0", "omega", "omega0", "i0", "dn", "idot", "omegaDot", "cuc", "cus", "cic", "cis", "crc", "crs"}

Svs == {<<s, p>> : s \in {"G", "E", "J"}, p \in {1, 2, 10}} \cup {<<"C", p>> : p \in {1, 2, 5, 6, 20, 35, 58, 59, 61}}
Place(h) == [lat |-> Dec(From1({-1, 1}) * From1(0..8990), 2), lon |-> Dec(From1({-1, 1}) * From1(0..17999), 2), h |-> Dec(From1(-100..9000), 3)]
Fresh(h) == CHOOSE z \in {[sv |-> sv, w |-> w, sta |-> Place(1), toe |-> toe, toc |-> toc, scale |-> sc, max |-> it,
                   el |-> TLCEval([n \in Names |-> Draw1(n, sv, IsGeo(sv))]),
                   a |-> <<OrZero(1, Dec(Signed(1), 11)), OrZero(1, Dec(Signed(1), 19)), OrZero(1, Dec(Signed(1), 23))>>,
                   tks |-> TLCEval([k \in 1..4 |-> CASE k = 1 -> 0 [] RandomElement(1..5) = 1 -> -RandomElement(1..900)
                                                      [] RandomElement(1..3) = 1 -> RandomElement(1..60)
                                                      [] OTHER -> RandomElement(1..14400)])] :
                  sv \in {RandomElement(Svs)}, w \in {RandomElement(1931..2290)},
                  toe \in {IF RandomElement(1..5) = 1 THEN 0 ELSE RandomElement(0..1007) * 600},
                  toc \in {RandomElement({0, 0, 0, -600, -7200, 600})}, sc \in {RandomElement({"own", "own", "GPST", "UTC"})},
                  it \in {RandomElement(0..10)}} : TRUE

Go == ~done /\ el = <<>> /\ \E x \in {Fresh(0)} : el' = x /\ UNCHANGED done
Give(c) == Emit(c @@ [program |-> Program(c.sv), look |-> Look, mu |-> Mu(c.sv[1]), we |-> We(c.sv[1]), tilt |-> 5])
Out == el # <<>> /\ ~done /\ Give(el) /\ done' = TRUE /\ UNCHANGED el
Spec == Init /\ [][Go \/ Out]_vars

NoCircles(h) == {}
Few(h) == [m0 : {0, 1}, omega : {0, 3}, omega0 : {0, 1}, i0 : 0..3, dn : {1}, idot : {0, 1}, omegaDot : {0, 1}, we : {0, 1},
        toe : {0, 3}, tk : {0, 2}, cuc : {1}, cus : {1}, cic : {0, 1}, cis : {0}, crc : {1}, crs : {2}, tilt : {1}]
Many(h) == [m0 : 0..3, omega : {0, 1}, omega0 : 0..3, i0 : 0..3, dn : {0, 1}, idot : {0, 1}, omegaDot : {0, 1}, we : {0, 1, 2},
        toe : {0, 3}, tk : {0, 1, 2}, cuc : {0, 1}, cus : {1}, cic : {0, 1}, cis : {0}, crc : {0, 1}, crs : {2}, tilt : {1}]
=============================================================================
