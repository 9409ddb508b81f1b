------------------------------- MODULE NavMotion -------------------------------
(***************************************************************************)
(* Motion sensors: step detection from the accelerometer and the azimuth   *)
(* from the orientation filter or from the device.                         *)
(***************************************************************************)
EXTENDS NavWorld

--------------------------------------------------------------------------------
(* Step detection *)
AverageMs == 2500
FilterMs  == 200
LengthMs  == 700
MinStepMs == 300
StepThreshold == RMul("0.05", "9.80665")

InitPed == [acc |-> <<>>, mags |-> <<>>, lastStep |-> NEVER]
Magnitude3(m) == RSqrt(RAdd(RAdd(RMul(m.x, m.x), RMul(m.y, m.y)), RMul(m.z, m.z)))

(* filtered magnitude: short window mean minus the (biased) long window mean *)
Filtered(acc, now) ==
  LET long  == SelectSeq(acc, LAMBDA a : now - a.ts < AverageMs)
      short == SelectSeq(acc, LAMBDA a : now - a.ts < FilterMs)
      sum(q) == RSum([i \in 1..Len(q) |-> q[i].v])
      f == sum(short) // Len(short)
  IN f -- ((RAdd(sum(long), f)) // Len(long))

(* Length of the step found at position i: fourth root of the amplitude over
   the magnitudes of the last LengthMs before it (and the one just before). *)
StepLen(mags, i) ==
  LET inside == {j \in 1..(i-1) : mags[i].ts - mags[j].ts <= LengthMs}
      lo == IF inside = {} THEN i - 1 ELSE IF Min(inside) = 1 THEN 1 ELSE Min(inside) - 1
      q == [j \in 1..(i - lo) |-> mags[lo + j - 1].v]
  IN RMul("0.52", RSqrt(RSqrt(RSub(RMaxOf(q), RMinOf(q)))))

PedStep(p, m) ==
  LET acc1 == Append(p.acc, [ts |-> m.ts, v |-> Magnitude3(m)])
      mags1 == Append(p.mags, [ts |-> m.ts, v |-> Filtered(acc1, m.ts)])
      acc2 == SelectSeq(acc1, LAMBDA a : m.ts - a.ts <= 2 * AverageMs)
      n == Len(mags1)
      isStep == /\ n > 3
                /\ mags1[n-1].v \prec StepThreshold
                /\ StepThreshold \prec mags1[n].v
                /\ m.ts - p.lastStep > MinStepMs
      mags2 == IF n > 3 THEN SelectSeq(mags1, LAMBDA g : m.ts - g.ts <= 2 * LengthMs) ELSE mags1
  IN [ st |-> [acc |-> acc2, mags |-> mags2, lastStep |-> IF isStep THEN m.ts ELSE p.lastStep],
       step |-> isStep, len |-> IF isStep THEN StepLen(mags1, n) ELSE "0.0" ]

--------------------------------------------------------------------------------
(* Quaternions and the complementary filter *)
QMul(a, b) ==
  [ w |-> RSub(RSub(RSub(RMul(a.w, b.w), RMul(a.x, b.x)), RMul(a.y, b.y)), RMul(a.z, b.z)),
    x |-> RSub(RAdd(RAdd(RMul(a.w, b.x), RMul(a.x, b.w)), RMul(a.y, b.z)), RMul(a.z, b.y)),
    y |-> RAdd(RAdd(RSub(RMul(a.w, b.y), RMul(a.x, b.z)), RMul(a.y, b.w)), RMul(a.z, b.x)),
    z |-> RAdd(RSub(RAdd(RMul(a.w, b.z), RMul(a.x, b.y)), RMul(a.y, b.x)), RMul(a.z, b.w)) ]
QVec(v) == [w |-> "0.0", x |-> v.x, y |-> v.y, z |-> v.z]
QConj(q) == [w |-> q.w, x |-> RNeg(q.x), y |-> RNeg(q.y), z |-> RNeg(q.z)]
QNorm(q) ==
  LET n == RSqrt(RAdd(RAdd(RMul(q.w, q.w), RMul(q.x, q.x)), RAdd(RMul(q.y, q.y), RMul(q.z, q.z))))
  IN [w |-> RDiv(q.w, n), x |-> RDiv(q.x, n), y |-> RDiv(q.y, n), z |-> RDiv(q.z, n)]
QUpdate(q, v) ==
  LET d == QMul(q, QVec(v))
      h(a, b) == RAdd(a, RMul(b, "0.5"))
  IN QNorm([w |-> h(q.w, d.w), x |-> h(q.x, d.x), y |-> h(q.y, d.y), z |-> h(q.z, d.z)])
VScale(k, v) == [x |-> RMul(k, v.x), y |-> RMul(k, v.y), z |-> RMul(k, v.z)]
VUnit(v) == LET n == Magnitude3(v) IN
  IF n \preceq "2.220446049250313E-16" THEN [x |-> v.x, y |-> v.y, z |-> v.z]
  ELSE [x |-> RDiv(v.x, n), y |-> RDiv(v.y, n), z |-> RDiv(v.z, n)]
VCross(a, b) == [ x |-> RSub(RMul(a.y, b.z), RMul(a.z, b.y)),
                  y |-> RSub(RMul(a.z, b.x), RMul(a.x, b.z)),
                  z |-> RSub(RMul(a.x, b.y), RMul(a.y, b.x)) ]
Yaw(q) == RAtan2(RMul("2.0", RAdd(RMul(q.w, q.z), RMul(q.x, q.y))),
                 RSub("1.0", RMul("2.0", RAdd(RMul(q.y, q.y), RMul(q.z, q.z)))))
Roll(q) == RAtan2(RMul("2.0", RAdd(RMul(q.w, q.x), RMul(q.y, q.z))),
                  RSub("1.0", RMul("2.0", RAdd(RMul(q.x, q.x), RMul(q.y, q.y)))))
Pitch(q) == LET s == RMul("2.0", RSub(RMul(q.w, q.y), RMul(q.z, q.x))) IN
            IF "1.0" \preceq s THEN RDiv(RPi, "2.0") ELSE IF s \preceq "-1.0" THEN RNeg(RDiv(RPi, "2.0")) ELSE RAsin(s)
TwoPi == RMul("2.0", RPi)
(* into [-pi, pi) *)
WrapPi(a) == LET r == RSub(a, RMul(TwoPi, RFloor(RDiv(RAdd(a, RPi), TwoPi)))) IN IF RPi \preceq r THEN RSub(r, TwoPi) ELSE r
AngleNear(a, b, tol) == RAbs(WrapPi(RSub(a, b))) \preceq tol

QRot(q, v) == QMul(QMul(q, QVec(v)), QConj(q))

AccCorrect(q, gain, m) ==
  LET a == VUnit(m)
      g == QMul(QMul(QConj(q), [w |-> "0.0", x |-> "0.0", y |-> "0.0", z |-> "1.0"]), q)
  IN QUpdate(q, VScale(gain, VCross(a, g)))
MagCorrect(q, gain, m) ==
  LET u == VUnit(m)
      g == QRot(q, u)
      h == [x |-> "0.0", y |-> Hyp(g.x, g.y), z |-> g.z]
      s == QMul(QMul(QConj(q), QVec(h)), q)
  IN IF Magnitude3(u) \prec "1e-8" THEN q ELSE QUpdate(q, VScale(gain, VCross(u, s)))
GyroTurn(q, dt, m) == QUpdate(q, VScale(dt, m))
MagAzimuth(q, m) ==
  LET half == RDiv(Yaw(q), "2.0")
      d == QNorm([w |-> RSin(half), x |-> "0.0", y |-> "0.0", z |-> RCos(half)])
      g == QRot(QMul(d, q), VUnit(m))
  IN WrapPi(RAdd(RDiv(RPi, "2.0"), RAtan2(g.y, g.x)))

InitCf == [ q |-> [w |-> "1.0", x |-> "0.0", y |-> "0.0", z |-> "0.0"],
            now |-> NEVER, gyroTs |-> NEVER, devTs |-> NEVER, dev |-> "0.0", mag |-> "0.0" ]
CfStep(c, m) ==
  [CASE m.type = "ACC" -> [c EXCEPT !.q = AccCorrect(c.q, "0.1", m)]
     [] m.type = "MAG" -> LET q1 == IF c.gyroTs = NEVER THEN MagCorrect(c.q, "0.05", m) ELSE c.q
                          IN [c EXCEPT !.q = q1, !.mag = MagAzimuth(q1, m)]
     [] m.type = "GYR" -> LET dt == IF c.gyroTs = NEVER THEN "0.0" ELSE Sec(m.ts - c.gyroTs)
                          IN [c EXCEPT !.q = GyroTurn(c.q, dt, m), !.gyroTs = m.ts]
     [] m.type = "ORI" -> [c EXCEPT !.dev = m.x, !.devTs = m.ts]
     [] OTHER -> c
   EXCEPT !.now = m.ts]
DeviceAzimuthFresh(S, c) == c.devTs # NEVER /\ Sec(c.now - c.devTs) \preceq S.deviceAzimuthLifetimeSeconds

--------------------------------------------------------------------------------
InitMotion == [ped |-> InitPed, cf |-> InitCf, steps |-> 0, lastMotion |-> NEVER]
(* sensor is <<>> or <<m>> *)
MotionStep(S, mo, sensor, ts) ==
  LET isAcc == sensor # <<>> /\ sensor[1].type = "ACC"
      p == IF isAcc THEN PedStep(mo.ped, sensor[1]) ELSE [st |-> mo.ped, step |-> FALSE, len |-> "0.0"]
      c == IF sensor = <<>> THEN mo.cf ELSE CfStep(mo.cf, sensor[1])
      st == [ped |-> p.st, cf |-> c, steps |-> mo.steps + (IF p.step THEN 1 ELSE 0),
             lastMotion |-> IF p.step THEN ts ELSE mo.lastMotion]
      az == IF S.useCalculatedAzimuth THEN <<c.mag>>
            ELSE IF DeviceAzimuthFresh(S, c) THEN <<c.dev>> ELSE <<>>
  IN [st |-> st, len |-> RMul(p.len, S.stepMultiplier), az |-> az]
================================================================================
