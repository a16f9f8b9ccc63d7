--------------------------- MODULE SatelliteView ---------------------------
(* Where a geostationary satellite sees a point of the lightning ellipsoid    *)
(* (glmtools.io.lightning_ellipse). Angles of places are in 1e-5 degrees,     *)
(* viewing angles and lengths (in units of the distance of the satellite from *)
(* the centre of the earth) in 2^-28.                                         *)
EXTENDS FixedPoint
(* Radii of the earth to which latitudes refer, 0.1 m, and the height of the  *)
(* satellite above its equator, m.                                            *)
Standard == [equatorial |-> 63781370, polar |-> 63567523, height |-> 35786023]
Distance(earth) == earth.equatorial \div 10 + earth.height   \* of the satellite from the centre, m
(* equatorial and polar radius of the revisions, m                            *)
Radii == << <<6394140, 6362755>>, <<6392137, 6362755>> >>
ChangeOfEllipsoid == <<2018, 10, 15>>
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> \/ b = <<>> THEN FALSE
                ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Before(Tail(a), Tail(b)))
RevisionAt(date) == IF Before(date, ChangeOfEllipsoid) THEN 0 ELSE 1

(* Longitude east of the satellite, -180..180 degrees.                        *)
East(lon, sat) == (((lon - sat) + 54000000) % 36000000) - 18000000

(* Point seen for a geodetic latitude: the point of the lightning ellipsoid   *)
(* in the same geocentric direction.                                          *)
PlaceOn(dlon, lat, rev, earth) ==
  LET phi == Radians(lat)
      lam == Radians(dlon)
      squeeze == LET q == FDiv(earth.polar, earth.equatorial) IN FMul(q, q)
      s0 == FMul(squeeze, FSin(phi))
      c0 == FCos(phi)
      norm == FSqrt(FMul(s0, s0) + FMul(c0, c0))
      s == FDiv(s0, norm)
      c == FDiv(c0, norm)
      re == Radii[rev+1][1]
      rp == Radii[rev+1][2]
      ratio == FDiv(rp, re)
      (* radius in this direction: polar / sqrt(sin^2 + (polar/equatorial)^2 cos^2) *)
      pr == FMul(ratio, c)
      r == FDiv(FDiv(rp, Distance(earth)), FSqrt(FMul(s, s) + FMul(pr, pr)))
      rc == FMul(r, c)
  IN [x |-> FMul(rc, FCos(lam)), y |-> FMul(rc, FSin(lam)), z |-> FMul(r, s)]

Place(dlon, lat, rev) == PlaceOn(dlon, lat, rev, Standard)

ViewOn(dlon, lat, rev, earth) ==
  LET p == PlaceOn(dlon, lat, rev, earth)
      toward == One - p.x
      d == FSqrt(FMul(toward, toward) + FMul(p.y, p.y) + FMul(p.z, p.z))
  IN <<FAsin(FDiv(p.y, d)), FAtan(FDiv(p.z, toward))>>
View(dlon, lat, rev) == ViewOn(dlon, lat, rev, Standard)
SeenOn(lon, lat, sat, rev, earth) == ViewOn(East(lon, sat), lat, rev, earth)
Seen(lon, lat, sat, rev) == View(East(lon, sat), lat, rev)

(* A place that is moved over the disc, for checking the view itself.         *)
VARIABLES at_dlon, at_lat, at_rev
pvars == <<at_dlon, at_lat, at_rev>>
Move(d) == at_dlon' = at_dlon + d[1] /\ at_lat' = at_lat + d[2] /\ UNCHANGED at_rev
Close(a, b, tol) == a - b <= tol /\ b - a <= tol
Symmetric == /\ Close(View(at_dlon, at_lat, at_rev)[1], -View(-at_dlon, at_lat, at_rev)[1], 30)
             /\ Close(View(at_dlon, at_lat, at_rev)[2], -View(at_dlon, -at_lat, at_rev)[2], 30)
             /\ Close(View(at_dlon, at_lat, at_rev)[2], View(-at_dlon, at_lat, at_rev)[2], 30)
Pythagoras == LET a == Radians(at_lat) IN
              Close(FMul(FSin(a), FSin(a)) + FMul(FCos(a), FCos(a)), One, 30)
OnDisc == LET v == View(at_dlon, at_lat, at_rev) IN FMul(v[1], v[1]) + FMul(v[2], v[2]) < FMul(One \div 6, One \div 6)
(* Going east on the same latitude moves the view east, unless at the limb.   *)
Eastward == (at_dlon < 6000000 /\ at_lat < 6000000 /\ at_lat > -6000000 /\ at_dlon > -6000000) =>
            View(at_dlon + 100000, at_lat, at_rev)[1] > View(at_dlon, at_lat, at_rev)[1]
(* From a lower satellite the same place is seen further from the centre.     *)
Lower == LET a == View(at_dlon, at_lat, at_rev)
             b == ViewOn(at_dlon, at_lat, at_rev, [Standard EXCEPT !.height = 34000000])
             Out(x, y) == (x >= 0 => y >= x) /\ (x <= 0 => y <= x)
         IN (at_dlon < 5000000 /\ at_lat < 5000000 /\ at_lat > -5000000 /\ at_dlon > -5000000) =>
            (Out(a[1], b[1]) /\ Out(a[2], b[2]))
(* The revised ellipsoid lies inside the first.                               *)
Inside == LET a == Place(at_dlon, at_lat, 0)  b == Place(at_dlon, at_lat, 1) IN
          FMul(a.x, a.x) + FMul(a.y, a.y) + FMul(a.z, a.z) + 20 >= FMul(b.x, b.x) + FMul(b.y, b.y) + FMul(b.z, b.z)
=============================================================================
