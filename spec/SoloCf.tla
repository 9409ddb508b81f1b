-------------------------------- MODULE SoloCf --------------------------------
(***************************************************************************)
(* standalone_algorithms/complementary_filter: orientation from            *)
(* accelerometer, magnetometer and gyroscope.                              *)
(***************************************************************************)
EXTENDS NavMotion

CfInit(k) == [kind |-> "cf", ka |-> k.ka, km |-> k.km, ki |-> k.ki, q |-> InitCf.q, int |-> [x |-> "0.0", y |-> "0.0", z |-> "0.0"],
              now |-> -1, gyr |-> FALSE, gyroTs |-> 0, mag |-> "0.0", dev |-> "0.0", free |-> FALSE]
VAdd(a, b) == [x |-> a.x ++ b.x, y |-> a.y ++ b.y, z |-> a.z ++ b.z]
(* the rotation that takes the measured down direction to the estimated one *)
AccErr(q, m) == LET g == QMul(QMul(QConj(q), [w |-> "0.0", x |-> "0.0", y |-> "0.0", z |-> "1.0"]), q) IN VCross(VUnit(m), g)
(* the same for magnetic north; nothing without a field *)
MagErr(q, m) ==
  LET u == VUnit(m)  g == QRot(q, u)
      s == QMul(QMul(QConj(q), QVec([x |-> "0.0", y |-> Hyp(g.x, g.y), z |-> g.z])), q)
  IN VCross(u, s)
Learn(c, e) == IF "1e-8" \prec c.ki THEN VAdd(c.int, VScale(c.ki, e)) ELSE c.int

CfSample(c, m) ==
  [CASE m.type = "ACC" -> LET e == AccErr(c.q, m) IN [c EXCEPT !.q = QUpdate(c.q, VScale(c.ka, e)), !.int = Learn(c, e)]
     [] m.type = "MAG" ->
          LET e == MagErr(c.q, m)
              c1 == IF c.gyr \/ Magnitude3(VUnit(m)) \prec "1e-8" THEN c ELSE [c EXCEPT !.q = QUpdate(c.q, VScale(c.km, e)), !.int = Learn(c, e)]
              z == QRot(QMul(QNorm([w |-> RSin(Yaw(c1.q) // "2.0"), x |-> "0.0", y |-> "0.0", z |-> RCos(Yaw(c1.q) // "2.0")]), c1.q), VUnit(m))
          IN [c1 EXCEPT !.mag = WrapPi(RAdd(RPi // "2.0", RAtan2(z.y, z.x))), !.free = Hyp(z.x, z.y) \prec "1e-7"]
     [] m.type = "GYR" ->
          LET dt == IF c.gyr THEN Sec(m.ts - c.gyroTs) ELSE "0.0"
          IN [c EXCEPT !.q = QUpdate(c.q, VScale(dt, VAdd([x |-> m.x, y |-> m.y, z |-> m.z], c.int))), !.gyr = TRUE, !.gyroTs = m.ts]
     [] m.type = "ORI" -> [c EXCEPT !.dev = m.x]
     [] OTHER -> c
   EXCEPT !.now = m.ts]

(* roll and yaw have no value when the device points straight up or down *)
Locked(q) == LET s == RMul("2.0", RSub(RMul(q.w, q.y), RMul(q.z, q.x))) IN "0.99999999" \prec RAbs(s)
CfMatches(c, ln) ==
  /\ ln.now = c.now
  /\ NearRel(ln.dev, c.dev, "1e-12")
  /\ c.free \/ (AngleNear(ln.mag, c.mag, "1e-6") /\ RNeg(RPi) \preceq ln.mag /\ ln.mag \prec RPi)
  /\ Near(ln.pitch, Pitch(c.q), IF Locked(c.q) THEN "2e-4" ELSE "1e-6")
  /\ Locked(c.q) \/ (AngleNear(ln.roll, Roll(c.q), "1e-6") /\ AngleNear(ln.yaw, Yaw(c.q), "1e-6") /\ AngleNear(ln.fused, RNeg(Yaw(c.q)), "1e-6"))
(* the magnetic azimuth of a device that points straight up has no value either, and stays *)
CfAfter(c, ln) == LET c1 == CfSample(c, ln) IN IF ln.type = "MAG" /\ Locked(c1.q) THEN [c1 EXCEPT !.free = TRUE] ELSE c1
CfSteps(st, ln) == LET c == CfAfter(st, ln) IN IF CfMatches(c, ln) THEN {c} ELSE {}
CfExpected(st, ln) == LET c == CfAfter(st, ln) IN <<"now", c.now, "dev", c.dev, "mag", c.mag, "roll", Roll(c.q), "pitch", Pitch(c.q), "yaw", Yaw(c.q)>>

PCfUnit(st) == Near(RAdd(RAdd(RMul(st.q.w, st.q.w), RMul(st.q.x, st.q.x)), RAdd(RMul(st.q.y, st.q.y), RMul(st.q.z, st.q.z))), "1.0", "1e-9")
===============================================================================
