------------------------------- MODULE NavWorld -------------------------------
(***************************************************************************)
(* The static world a navigation client works in: settings and their       *)
(* defaults, geodetic/local conversions, and the loading of a level        *)
(* description (transmitters, reference points, areas, walk graph) into    *)
(* the local metric frame of its level.                                    *)
(***************************************************************************)
EXTENDS Rl, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* Times are milliseconds relative to the start of a scenario; the code uses
   Unix milliseconds and 0 for "never". *)
NEVER == -1000000000

SumOver(f, ids) == RSum([i \in 1..Cardinality(ids) |-> f[SetToSeq(ids)[i]]])
RSumF(f) == LET q == SetToSeq(DOMAIN f) IN RSum([i \in 1..Len(q) |-> f[q[i]]])

--------------------------------------------------------------------------------
(* Settings *)
DefaultSettings == [
  useAlgorithm |-> "PF_PDR", useEnuAzimuth |-> FALSE, useTxPower |-> FALSE,
  useRadiomap |-> FALSE, useStops |-> FALSE, useTracking |-> FALSE,
  stopDetectionTime |-> "3.0", averageMovSpeed |-> "1.0", measurementType |-> "RSSI",
  useBestRefPointLevel |-> FALSE, useBarometer |-> FALSE,
  useUnknownTransmitters |-> FALSE, sigCutOffRss |-> "-100", useClosestAps |-> FALSE,
  numClosestAps |-> 1, sigAveragingTime |-> "1.0", sigWindowShift |-> "0.0",
  signalsToUse |-> "BLE", kNeighbors |-> 8, useTriangles |-> TRUE, useDiffMode |-> TRUE,
  minNumOfMeasurementsForPositionCalculation |-> 4,
  smoothing |-> "0.5", deadReckoningTime |-> "5.0", stopUpdateTime |-> "4.0",
  graphProjDist |-> "5.0", useStopsDistanceThresholdM |-> "10.0",
  useSmoothing |-> TRUE, useGraphProjection |-> FALSE, useAccuracyForSmoothing |-> FALSE,
  useSpeedConstraint |-> TRUE, useBarriers |-> FALSE, useTimeSmoothing |-> FALSE,
  useAbFilter |-> TRUE, useAltitude |-> FALSE, wiFiRttOffset |-> "-1.5", useGps |-> FALSE,
  useInstantGpsPosition |-> FALSE, preferIndoorSolution |-> FALSE, fuseGps |-> FALSE,
  useGpsOutsideMap |-> FALSE, useGpsSigmaFilter |-> FALSE, sigmaFilterWindow |-> 1,
  sigmaFilterDelta |-> "0.0", minNumSats |-> 20, priorDeviation |-> "50.0",
  minGpsDeviation |-> "5.0", maxGpsDeviation |-> "inf", fuseGpsBorderM |-> "10",
  noSignalTimeThreshold |-> 35, noActionTimeThreshold |-> 20,
  positionIsTooOldSec |-> "20.0", gpsValidTimeWindowSec |-> "1.0",
  useCalculatedAzimuth |-> FALSE, deviceAzimuthLifetimeSeconds |-> "10.0",
  stepMultiplier |-> "1.0", levels |-> <<>> ]

(* The settings in effect, with the durations the code keeps in ms. *)
MkSettings(given) ==
  LET s == given @@ DefaultSettings
      avg == MsOf(s.sigAveragingTime)
      sh == MsOf(s.sigWindowShift)
      shift == IF sh = 0 \/ sh > avg THEN avg ELSE sh
  IN s @@ [ shiftMs |-> shift, keepMs |-> avg - shift,
            stopDetMs |-> MsOf(s.stopDetectionTime), stopUpdMs |-> MsOf(s.stopUpdateTime),
            deadMs |-> MsOf(s.deadReckoningTime),
            noSigMs |-> 1000 * s.noSignalTimeThreshold, noActMs |-> 1000 * s.noActionTimeThreshold,
            useWifi |-> s.signalsToUse \in {"WIFI", "BOTH"}, useBle |-> s.signalsToUse \in {"BLE", "BOTH"} ]

LevelA(s, lvl) == s.levels[lvl].A
LevelB(s, lvl) == s.levels[lvl].B

--------------------------------------------------------------------------------
(* Geodetic and local frames *)
EquatorM == "40075160.0"
PoleM    == "40008000.0"
NormLon(lon) == IF "180.0" \prec lon THEN lon -- "360.0"
                ELSE IF lon \preceq "-180.0" THEN lon ++ "360.0" ELSE lon
Circ(b) == EquatorM ** RCos((b.lat ** RPi) // "180.0")
ToLocal(lat, lon, b) ==
  [ x |-> NormLon(lon -- b.lon) ** (Circ(b) // "360.0"),
    y |-> (lat -- b.lat) ** (PoleM // "360.0") ]
ToGeo(x, y, b) ==
  [ lat |-> (y ** ("360.0" // PoleM)) ++ b.lat,
    lon |-> NormLon(((x ** "360.0") // Circ(b)) ++ b.lon) ]

RMinOf(q) == FoldSeq(LAMBDA v, a : RMin(v, a), "inf", q)
RMaxOf(q) == FoldSeq(LAMBDA v, a : RMax(v, a), "-inf", q)

(* crossing-number point-in-ring test on a sequence of <<x, y>> records *)
Crosses(p, a, b) ==
  /\ (p.y \prec a.y) # (p.y \prec b.y)
  /\ p.x \prec (((b.x -- a.x) ** ((p.y -- a.y) // (b.y -- a.y))) ++ a.x)
InRing(p, ring) ==
  LET n == Len(ring)
      hits == Cardinality({i \in 1..n : Crosses(p, ring[i], ring[(i % n) + 1])})
  IN hits % 2 = 1
InAreas(p, areas) ==
  \E i \in 1..Len(areas) : /\ InRing(p, areas[i].outer)
                           /\ \A j \in 1..Len(areas[i].holes) : ~InRing(p, areas[i].holes[j])
InBox(p, lvl) == "0.0" \preceq p.x /\ p.x \preceq lvl.w /\ "0.0" \preceq p.y /\ p.y \preceq lvl.h

(* Loading one level description *)
LoadLevel(g) ==
  LET pts == FlattenSeq([i \in 1..Len(g.areas) |-> g.areas[i].outer])
      lon0 == [i \in 1..Len(pts) |-> pts[i][2]]
      across == "180.0" \prec RSub(RMaxOf(lon0), RMinOf(lon0))       \* lies across the 180th meridian
      lons == [i \in 1..Len(pts) |-> IF across /\ lon0[i] \preceq "0.0" THEN RAdd(lon0[i], "360.0") ELSE lon0[i]]
      b   == [lat |-> RMinOf([i \in 1..Len(pts) |-> pts[i][1]]),
              lon |-> RMinOf(lons)]
      top == ToLocal(RMaxOf([i \in 1..Len(pts) |-> pts[i][1]]), RMaxOf(lons), b)
      ring(r) == [i \in 1..Len(r) |-> ToLocal(r[i][1], r[i][2], b)]
      vx(i) == ToLocal(g.vx[i+1][1], g.vx[i+1][2], b)
      loc(t) == LET p == ToLocal(t.lat, t.lon, b) IN [id |-> t.id, x |-> p.x, y |-> p.y, z |-> RAdd(g.alt, t.alt), A |-> t.A, B |-> t.B, type |-> t.type]
      rp(r) == LET p == ToLocal(r.lat, r.lon, b) IN [id |-> r.id, x |-> p.x, y |-> p.y, fp |-> r.fp]
      ids == {g.tx[i].id : i \in 1..Len(g.tx)}
      first(id) == g.tx[CHOOSE i \in 1..Len(g.tx) : g.tx[i].id = id /\ \A j \in 1..(i-1) : g.tx[j].id # id]
  IN [ id |-> g.id, bind |-> b, w |-> top.x, h |-> top.y,
       areas |-> [i \in 1..Len(g.areas) |->
                    [outer |-> ring(g.areas[i].outer),
                     holes |-> [j \in 1..Len(g.areas[i].holes) |-> ring(g.areas[i].holes[j])]]],
       tx |-> [id \in ids |-> loc(first(id))],
       rps |-> [i \in 1..Len(g.rp) |-> rp(g.rp[i])],
       edges |-> [i \in 1..Len(g.ed) |-> [u |-> vx(RTrunc(RMin(g.ed[i][1], g.ed[i][2]))), v |-> vx(RTrunc(RMax(g.ed[i][1], g.ed[i][2])))]] ]

LoadWorld(w) == [levels |-> [i \in 1..Len(w.levels) |-> LoadLevel(w.levels[i])]]

LevelIx(W) == 1..Len(W.levels)
HasLevel(W, id) == \E i \in LevelIx(W) : W.levels[i].id = id
LevelOf(W, id) == W.levels[CHOOSE i \in LevelIx(W) : W.levels[i].id = id]
LevelHasTx(lvl, id) == id \in DOMAIN lvl.tx
TxKnown(W, id) == \E i \in LevelIx(W) : LevelHasTx(W.levels[i], id)
TxLevel(W, id) == W.levels[CHOOSE i \in LevelIx(W) : LevelHasTx(W.levels[i], id)
                                 /\ \A j \in 1..(i-1) : ~LevelHasTx(W.levels[j], id)]

--------------------------------------------------------------------------------
(* A (possibly absent) position estimate in the local frame of a level *)
NoPos == [e |-> TRUE, x |-> "0.0", y |-> "0.0", lvl |-> "", dev |-> "0.0", ts |-> NEVER, prov |-> "NONE"]
MkPos(x, y, lvl, dev, ts, prov) == [e |-> FALSE, x |-> x, y |-> y, lvl |-> lvl, dev |-> dev, ts |-> ts, prov |-> prov]
DistP(a, b) == Dist2(a.x, a.y, b.x, b.y)
================================================================================
