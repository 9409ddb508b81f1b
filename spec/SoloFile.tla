-------------------------------- MODULE SoloFile --------------------------------
(***************************************************************************)
(* The readers of the three documented files (tools/verification): the     *)
(* message log, the settings and the map.  What a reader returns is a      *)
(* function of the document alone; earlier documents leave no trace, which *)
(* is why the state holds only what was read last.                         *)
(* Numbers of a document are decimal texts; numbers of a result are the    *)
(* doubles the code returned.  Both name the same double or they differ.   *)
(***************************************************************************)
EXTENDS Rl, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

ISum(q) == FoldLeft(LAMBDA a, v : a + v, 0, q)
FileInit == [kind |-> "file", got |-> "nothing", res |-> <<>>]
Has(d, k) == k \in DOMAIN d
Opt(d, k, other) == IF Has(d, k) THEN d[k] ELSE other
SameReal(a, b) == REq(a, b)
PointKey(a, b) == <<RStr(a), RStr(b)>>

--------------------------------------------------------------------------------
(* The message log: one message per line, in order *)
SensorType == (101 :> "ACC") @@ (102 :> "GYR") @@ (103 :> "MAG") @@ (104 :> "BAR") @@ (105 :> "ORI") @@ (106 :> "LOC")
RadioType == (201 :> "WIFI") @@ (202 :> "BLUETOOTH") @@ (203 :> "BEACON") @@ (204 :> "EDDYSTONE") @@ (205 :> "WIFI_RTT")

MsgOk(d, r) ==
  /\ r.ts = d.timestamp
  /\ CASE d.type \in DOMAIN SensorType ->
            /\ r.k = "sensor" /\ r.type = SensorType[d.type]
            /\ SameReal(r.x, d.values[1]) /\ SameReal(r.y, d.values[2]) /\ SameReal(r.z, d.values[3])
       [] d.type \in DOMAIN RadioType ->
            /\ r.k = "radio" /\ r.type = RadioType[d.type] /\ r.id = d.bssid
            /\ \A f \in {"rssi", "power", "distance", "stddev"} : SameReal(r[f], Opt(d, f, "0"))
       [] d.type = 300 -> r.k = "nmea" /\ r.sn = d.sentence_number /\ r.ns = d.num_sats
       [] OTHER -> r.k = "radio" /\ r.id = ""            \* a comment carries no measurement of any transmitter
MsgsOk(doc, list) == Len(list) = Len(doc) /\ \A i \in 1..Len(doc) : MsgOk(doc[i], list[i])

--------------------------------------------------------------------------------
(* The settings: which key sets what, and what holds when the key is absent *)
Bools == [ Use_enu_azimuth |-> "useEnuAzimuth", Differention_mode |-> "useDifferentionMode", Use_beacon_power |-> "useTxPower",
  Use_radiomap |-> "useRadiomap", Use_stops |-> "useStops", Use_tracking |-> "useTracking", Use_best_ref_point_level |-> "useBestRefPointLevel",
  Use_barometer |-> "useBarometer", Use_unknown_beacons |-> "useUnknownTransmitters", Use_closest_aps |-> "useClosestAps",
  Use_projection_to_white_area |-> "useProjectionToWhiteArea", Use_uniform_sampling |-> "useUniformSampling", Use_triangles |-> "useTriangles",
  Use_diff_mode |-> "useDiffMode", Use_smoothing |-> "useSmoothing", Use_graph_projection |-> "useGraphProjection",
  Use_accuracy_for_smoothing |-> "useAccuracyForSmoothing", Use_speed_constraint |-> "useSpeedConstraint", Use_barriers |-> "useBarriers",
  Use_time_smoothing |-> "useTimeSmoothing", Use_ab_filter |-> "useAbFilter", Use_altitude |-> "useAltitude", Use_gps |-> "useGps",
  Use_instant_gps_position |-> "useInstantGpsPosition", Prefer_indoor_solution |-> "preferIndoorSolution", Fuse_gps |-> "fuseGps",
  Use_gps_outside_map |-> "useGpsOutsideMap", Use_gps_sigma_filter |-> "useGpsSigmaFilter", Use_calculated_azimuth |-> "useCalculatedAzimuth",
  Has_accelerometer |-> "hasAccelerometer", Has_gyroscope |-> "hasGyroscope" ]
Reals == [ Correction_noise |-> "lklCorrectionNoise", Stop_detection_time |-> "stopDetectionTime", Min_deviation_m |-> "minDeviationM",
  Average_speed |-> "averageMovSpeed", Cutoff_rss |-> "sigCutOffRss", Sig_averaging_time |-> "sigAveragingTime", Sig_window_shift |-> "sigWindowShift",
  Resampling_threshold_num |-> "resamplingThreshold", Gyro_noise_degree |-> "gyroNoiseDegree", Step_noise_deviation_meters |-> "stepNoiseDeviationMeters",
  Smoothing |-> "smoothing", Dead_reckon_time |-> "deadReckoningTime", Stop_update_time |-> "stopUpdateTime", Graph_prog_distance |-> "graphProjDist",
  Stopped_distance_threshold_m |-> "useStopsDistanceThresholdM", Sigma_filter_delta |-> "sigmaFilterDelta", Prior_deviation |-> "priorDeviation",
  Gps_deviation |-> "minGpsDeviation", Maximum_to_accept_gps_measurement |-> "maxGpsDeviation", Fuse_gps_border_m |-> "fuseGpsBorderM",
  Position_old_for_fusing_sec |-> "positionIsTooOldSec", Gps_valid_time_window_sec |-> "gpsValidTimeWindowSec",
  Device_azimuth_lifetime_seconds |-> "deviceAzimuthLifetimeSeconds", Step_multiplier |-> "stepMultiplier", WiFi_RTT_Offset |-> "wiFiRttOffset" ]
Ints == [ N_closest_aps |-> "numClosestAps", N_particles |-> "numParticles", Min_msr_num_for_mutation |-> "minMsrNumForMutation",
  Min_num_of_particles |-> "minNumParticlesAlive", N_particles_around_closest_AP |-> "numParticlesAroundClosestAp",
  N_particles_to_mutate |-> "numParticlesToMutate", Num_sampling_attempts |-> "numSamplingAttempts",
  Num_initialization_attempts |-> "numInitializationAttempts", K |-> "kNeighbors",
  Min_num_of_measurements_for_position_calculation |-> "minNumOfMeasurementsForPositionCalculation", Sigma_filter_window |-> "sigmaFilterWindow",
  Min_num_sats |-> "minNumSats", No_signal_time_threshold |-> "noSignalTimeThreshold", No_action_time_threshold |-> "noActionTimeThreshold" ]
Names == [ Use_algorithm |-> "useAlgorithm", Measurement_type |-> "measurementType", Use_Signals |-> "signalsToUse" ]
Key == Bools @@ Reals @@ Ints @@ Names

OnByDefault == {"useTriangles", "useDiffMode", "useSmoothing", "useSpeedConstraint", "useAbFilter", "hasAccelerometer", "hasGyroscope"}
DefaultReal == [ lklCorrectionNoise |-> "10", stopDetectionTime |-> "3", minDeviationM |-> "1", averageMovSpeed |-> "1", sigCutOffRss |-> "-100",
  sigAveragingTime |-> "1", sigWindowShift |-> "0", resamplingThreshold |-> "600", gyroNoiseDegree |-> "4", stepNoiseDeviationMeters |-> "0.4",
  smoothing |-> "0.5", deadReckoningTime |-> "5", stopUpdateTime |-> "4", graphProjDist |-> "5", useStopsDistanceThresholdM |-> "10",
  sigmaFilterDelta |-> "0", priorDeviation |-> "50", minGpsDeviation |-> "5", maxGpsDeviation |-> "inf", fuseGpsBorderM |-> "10",
  positionIsTooOldSec |-> "20", gpsValidTimeWindowSec |-> "1", deviceAzimuthLifetimeSeconds |-> "10", stepMultiplier |-> "1", wiFiRttOffset |-> "-1.5" ]
DefaultInt == [ numClosestAps |-> 1, numParticles |-> 1000, minMsrNumForMutation |-> 3, minNumParticlesAlive |-> 100, numParticlesAroundClosestAp |-> 10,
  numParticlesToMutate |-> 50, numSamplingAttempts |-> 60, numInitializationAttempts |-> 500, kNeighbors |-> 8,
  minNumOfMeasurementsForPositionCalculation |-> 4, sigmaFilterWindow |-> 1, minNumSats |-> 20, noSignalTimeThreshold |-> 35, noActionTimeThreshold |-> 20 ]
DefaultName == [ useAlgorithm |-> "PF_PDR", measurementType |-> "rssi", signalsToUse |-> "ble" ]

KeyOk(c, k, got) ==
  LET f == Key[k] IN
  CASE k \in DOMAIN Bools -> got[f] = Opt(c, k, f \in OnByDefault)
    [] k \in DOMAIN Reals -> SameReal(got[f], Opt(c, k, DefaultReal[f]))
    [] k \in DOMAIN Ints -> got[f] = Opt(c, k, DefaultInt[f])
    [] k \in DOMAIN Names -> got[f] = Opt(c, k, DefaultName[f])
SettingsOk(doc, ln) ==
  /\ ln.err = 0
  /\ \A k \in DOMAIN Key : KeyOk(doc.common_settings[1], k, ln.common)
  /\ LET n == Len(doc.level_settings)
         ids == {doc.level_settings[i].level : i \in 1..n}
         of(id) == doc.level_settings[CHOOSE i \in 1..n : doc.level_settings[i].level = id /\ \A j \in (i+1)..n : doc.level_settings[j].level # id].settings[1]
     IN /\ Len(ln.levels) = Cardinality(ids) /\ {ln.levels[i].id : i \in 1..Len(ln.levels)} = ids
        /\ \A i \in 1..Len(ln.levels) : LET s == of(ln.levels[i].id) IN
              SameReal(ln.levels[i].A, Opt(s, "A", "-82")) /\ SameReal(ln.levels[i].B, Opt(s, "B", "3"))
NoSettingsOk(ln) ==      \* the file cannot be opened: the error is told and the settings are the defaults
  /\ ln.err = 25 /\ ln.levels = <<>>
  /\ \A k \in DOMAIN Key : KeyOk(<<>>, k, ln.common)

--------------------------------------------------------------------------------
(* The map *)
Of(doc, type, id) == SelectSeq(doc.features, LAMBDA f : f.properties.type = type /\ f.properties.level = id)
LevelIds(doc) == {doc.features[i].properties.level : i \in {j \in 1..Len(doc.features) : doc.features[j].properties.type = "level"}}

\* longitude comes first in the file
Lat(q) == q[2]
Lon(q) == q[1]
RingKeys(ring) == {PointKey(Lat(ring[i]), Lon(ring[i])) : i \in 1..Len(ring)}
GotKeys(ring) == {PointKey(ring[i][1], ring[i][2]) : i \in 1..Len(ring)}

TxOk(f, t) ==
  LET p == f.properties  c == f.geometry.coordinates IN
  /\ t.id = p.uuid /\ t.type = p.transmitter_type
  /\ SameReal(t.lat, Lat(c)) /\ SameReal(t.lon, Lon(c)) /\ SameReal(t.alt, IF Len(c) = 3 THEN c[3] ELSE "0")
  /\ SameReal(t.A, Opt(p, "A", "-80")) /\ SameReal(t.B, Opt(p, "B", "3"))

\* a fingerprint: the levels of an entry are written as positive numbers
EntryOk(e, g) ==
  LET n == ISum([i \in 1..Len(e.value) |-> e.value[i].count])
      total == ISum([i \in 1..Len(e.value) |-> e.value[i].count * e.value[i].rssi])
  IN g.type = e.type /\ g.n = n /\ Near(g.mean, RDiv(RNeg(total), n), "1e-9")
RpOk(f, r) ==
  LET p == f.properties  c == f.geometry.coordinates IN
  /\ r.id = p.uuid /\ SameReal(r.lat, Lat(c)) /\ SameReal(r.lon, Lon(c))
  /\ Len(r.fp) = Len(p.entries)
  /\ \A i \in 1..Len(p.entries) : \E j \in 1..Len(r.fp) : r.fp[j].id = p.entries[i].bssid /\ EntryOk(p.entries[i], r.fp[j])

(* The walk graph: ends of lines nearer than 10 cm to each other are one point,
   the one that comes first.  The distance on the sphere: *)
Rad(d) == RDiv(RMul(RPi, d), "180")
SphereM(a, b) ==
  LET dy == RSin(RDiv(RSub(Rad(Lat(a)), Rad(Lat(b))), "2"))
      dx == RSin(RDiv(RSub(Rad(Lon(a)), Rad(Lon(b))), "2"))
      h == RAdd(RMul(dy, dy), RMul(RMul(RCos(Rad(Lat(a))), RCos(Rad(Lat(b)))), RMul(dx, dx)))
  IN RMul("12756000", RAsin(RSqrt(h)))
Merged(ends) == FoldLeft(LAMBDA acc, q : IF \E i \in 1..Len(acc) : RLt(SphereM(acc[i], q), "0.1") THEN acc ELSE Append(acc, q), <<>>, ends)
KeyOf(q) == PointKey(Lat(q), Lon(q))
GraphOk(fs, l) ==
  IF fs = <<>> THEN l.vx = <<>> /\ l.ed = <<>>
  ELSE LET lines == fs[1].geometry.coordinates
           verts == Merged(FlattenSeq(lines))
           at(q) == KeyOf(verts[CHOOSE i \in 1..Len(verts) : RLt(SphereM(verts[i], q), "0.1")])
           edges == {{at(lines[i][1]), at(lines[i][2])} : i \in 1..Len(lines)}
       IN /\ Len(l.vx) = Len(verts) /\ {PointKey(l.vx[i][1], l.vx[i][2]) : i \in 1..Len(l.vx)} = {KeyOf(verts[i]) : i \in 1..Len(verts)}
          /\ Len(l.ed) = Cardinality(edges) /\ {{PointKey(l.ed[i][k][1], l.ed[i][k][2]) : k \in {1, 2}} : i \in 1..Len(l.ed)} = edges

(* The walkable area: a point is inside iff it is in an outer ring and in none of its holes *)
FCross(p, a, b) ==
  /\ RLt(p[1], Lat(a)) # RLt(p[1], Lat(b))
  /\ RLt(p[2], RAdd(RMul(RSub(Lon(b), Lon(a)), RDiv(RSub(p[1], Lat(a)), RSub(Lat(b), Lat(a)))), Lon(a)))
InR(p, ring) == Cardinality({i \in 1..Len(ring) : FCross(p, ring[i], ring[(i % Len(ring)) + 1])}) % 2 = 1
InPolys(p, polys) == \E i \in 1..Len(polys) : InR(p, polys[i][1]) /\ \A j \in 2..Len(polys[i]) : ~InR(p, polys[i][j])

Orient(a, b, c) == RSub(RMul(RSub(b[1], a[1]), RSub(c[2], a[2])), RMul(RSub(b[2], a[2]), RSub(c[1], a[1])))
Apart(a, b, c, d) == RLt(RMul(Orient(a, b, c), Orient(a, b, d)), "0")
SegmentsCross(a, b, c, d) == Apart(a, b, c, d) /\ Apart(c, d, a, b)
LL(q) == <<Lat(q), Lon(q)>>
CrossesRing(a, b, ring) == \E i \in 1..Len(ring) : SegmentsCross(a, b, LL(ring[i]), LL(ring[(i % Len(ring)) + 1]))
PathCrosses(path, ring) == \E k \in 1..(Len(path) - 1) : CrossesRing(path[k], path[k + 1], ring)
(* A path is free when it stays inside one outer ring and meets no hole; generated paths stay clear of touching *)
Touches(path, polys) ==
  \/ ~\E i \in 1..Len(polys) : ~PathCrosses(path, polys[i][1]) /\ InR(path[1], polys[i][1])
  \/ \E i \in 1..Len(polys) : \E j \in 2..Len(polys[i]) : PathCrosses(path, polys[i][j]) \/ InR(path[1], polys[i][j])

AreaOk(f, l, points, paths) ==
  LET polys == f.geometry.coordinates
      all == FlattenSeq([i \in 1..Len(polys) |-> polys[i][1]])
      least(g(_)) == FoldSeq(LAMBDA q, a : RMin(a, g(q)), "inf", all)
      most(g(_)) == FoldSeq(LAMBDA q, a : RMax(a, g(q)), "-inf", all)
  IN /\ Len(l.area) = Len(polys)
     /\ \A i \in 1..Len(polys) :
          /\ GotKeys(l.area[i].outer) = RingKeys(polys[i][1])
          /\ Len(l.area[i].holes) = Len(polys[i]) - 1
          /\ \A j \in 1..Len(l.area[i].holes) : GotKeys(l.area[i].holes[j]) = RingKeys(polys[i][j + 1])
     /\ \A i \in 1..Len(points) : l.in[i] = InPolys(points[i], polys)
     /\ \A i \in 1..Len(paths) : l.touch[i] = Touches(paths[i], polys)
     /\ \A i \in 1..4 : SameReal(l.box[i], <<least(Lat), least(Lon), most(Lat), most(Lon)>>[i])

MapLevelOk(doc, l, ln) ==
  LET tx == Of(doc, "transmitter", l.id)  rp == Of(doc, "reference_point", l.id) IN
  /\ SameReal(l.alt, "100")
  /\ Len(l.tx) = Len(tx) /\ \A i \in 1..Len(tx) : TxOk(tx[i], l.tx[i])
  /\ Len(l.rp) = Len(rp) /\ \A i \in 1..Len(rp) : RpOk(rp[i], l.rp[i])
  /\ GraphOk(Of(doc, "graph", l.id), l)
  /\ AreaOk(Of(doc, "level", l.id)[1], l, ln.points, ln.paths)
MapOk(doc, ln) ==
  /\ ln.err = 0
  /\ Len(ln.levels) = Cardinality(LevelIds(doc)) /\ {ln.levels[i].id : i \in 1..Len(ln.levels)} = LevelIds(doc)
  /\ \A i \in 1..(Len(ln.levels) - 1) : SLt(ln.levels[i].id, ln.levels[i + 1].id)
  /\ \A i \in 1..Len(ln.levels) : MapLevelOk(doc, ln.levels[i], ln)

--------------------------------------------------------------------------------
FileOk(ln) == CASE ln.op = "msgs" -> MsgsOk(ln.doc, ln.list)
                [] ln.op = "settings" -> SettingsOk(ln.doc, ln)
                [] ln.op = "nosettings" -> NoSettingsOk(ln)
                [] ln.op = "map" -> MapOk(ln.doc, ln)
FileSteps(st, ln) == IF FileOk(ln) THEN {[st EXCEPT !.got = ln.op, !.res = IF ln.op = "map" THEN ln.levels ELSE <<>>]} ELSE {}
FileWrong(ln) ==
  CASE ln.op = "msgs" -> <<"messages", {i \in 1..Len(ln.doc) : i > Len(ln.list) \/ ~MsgOk(ln.doc[i], ln.list[i])}>>
    [] ln.op \in {"settings", "nosettings"} ->
         <<"keys", {k \in DOMAIN Key : ~KeyOk(IF ln.op = "settings" THEN ln.doc.common_settings[1] ELSE <<>>, k, ln.common)}>>
    [] ln.op = "map" -> <<"levels", {ln.levels[i].id : i \in {j \in 1..Len(ln.levels) : ln.levels[j].id \notin LevelIds(ln.doc) \/ ~MapLevelOk(ln.doc, ln.levels[j], ln)}}>>
FileExpected(st, ln) == FileWrong(ln)

\* what any map must look like once read: every point of a level's graph, area and transmitters is where its box says
PFileGraph(st) == \A i \in 1..Len(st.res) : LET l == st.res[i] IN
  \A k \in 1..Len(l.ed) : \A e \in {1, 2} : \E v \in 1..Len(l.vx) : PointKey(l.vx[v][1], l.vx[v][2]) = PointKey(l.ed[k][e][1], l.ed[k][e][2])
================================================================================
