-------------------------------- MODULE NavFiles --------------------------------
(***************************************************************************)
(* A walk recorded in files: what map, settings and message log (SoloFile) *)
(* mean for the navigation client (NavWorld, NavClient).  The levels are   *)
(* loaded in the order of their names; a setting that the file does not    *)
(* name keeps its default; every line of the log is one message.           *)
(***************************************************************************)
EXTENDS Rl, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
F == INSTANCE SoloFile

LatLon(q) == <<F!Lat(q), F!Lon(q)>>
RingOf(r) == [k \in 1..Len(r) |-> LatLon(r[k])]
AreaOf(p) == [outer |-> RingOf(p[1]), holes |-> [j \in 1..(Len(p) - 1) |-> RingOf(p[j + 1])]]
TxOf(f) == LET p == f.properties  c == f.geometry.coordinates IN
  [ id |-> p.uuid, lat |-> F!Lat(c), lon |-> F!Lon(c), alt |-> IF Len(c) = 3 THEN c[3] ELSE "0",
    A |-> F!Opt(p, "A", "-80"), B |-> F!Opt(p, "B", "3"), type |-> p.transmitter_type ]
MeanOf(e) == RDiv(RNeg(F!ISum([i \in 1..Len(e.value) |-> e.value[i].count * e.value[i].rssi])), F!ISum([i \in 1..Len(e.value) |-> e.value[i].count]))
RpOf(f) == LET p == f.properties  c == f.geometry.coordinates
               names == {p.entries[i].bssid : i \in 1..Len(p.entries)} IN
  [ id |-> p.uuid, lat |-> F!Lat(c), lon |-> F!Lon(c),
    fp |-> [b \in names |-> MeanOf(p.entries[CHOOSE i \in 1..Len(p.entries) : p.entries[i].bssid = b])] ]
VertexOf(verts, q) == (CHOOSE i \in 1..Len(verts) : RLt(F!SphereM(verts[i], q), "0.1")) - 1
LevelOfMap(doc, id) ==
  LET area == F!Of(doc, "level", id)[1].geometry.coordinates
      tx == F!Of(doc, "transmitter", id)
      rp == F!Of(doc, "reference_point", id)
      gr == F!Of(doc, "graph", id)
      lines == IF gr = <<>> THEN <<>> ELSE gr[1].geometry.coordinates
      verts == F!Merged(FlattenSeq(lines))
  IN [ id |-> id, alt |-> "100", areas |-> [i \in 1..Len(area) |-> AreaOf(area[i])],
       tx |-> [i \in 1..Len(tx) |-> TxOf(tx[i])], rp |-> [i \in 1..Len(rp) |-> RpOf(rp[i])],
       vx |-> [i \in 1..Len(verts) |-> LatLon(verts[i])],
       ed |-> [i \in 1..Len(lines) |-> <<VertexOf(verts, lines[i][1]), VertexOf(verts, lines[i][2])>>] ]
WorldOfMap(doc) == [levels |-> LET ids == SetToSortSeq(F!LevelIds(doc), SLt) IN [i \in 1..Len(ids) |-> LevelOfMap(doc, ids[i])]]

Upper == ("rssi" :> "RSSI") @@ ("distance_v1" :> "DISTANCE_V1") @@ ("distance_v2" :> "DISTANCE_V2") @@ ("ble" :> "BLE") @@ ("wifi" :> "WIFI") @@ ("both" :> "BOTH")
SettingOf(k, v) == IF k \in {"Measurement_type", "Use_Signals"} THEN Upper[v] ELSE v
SettingsOfFile(doc) ==
  LET c == doc.common_settings[1]
      given == {k \in DOMAIN F!Key : k \in DOMAIN c}
      keyOf(n) == CHOOSE k \in given : F!Key[k] = n
      n == Len(doc.level_settings)
      ids == {doc.level_settings[i].level : i \in 1..n}
      last(id) == doc.level_settings[CHOOSE i \in 1..n : doc.level_settings[i].level = id /\ \A j \in (i+1)..n : doc.level_settings[j].level # id].settings[1]
  IN [m \in {F!Key[k] : k \in given} |-> SettingOf(keyOf(m), c[keyOf(m)])]
     @@ [levels |-> [id \in ids |-> [A |-> F!Opt(last(id), "A", "-82"), B |-> F!Opt(last(id), "B", "3")]]]

MessageOf(d) ==
  CASE d.type \in DOMAIN F!SensorType -> [k |-> "s", ts |-> d.timestamp, type |-> F!SensorType[d.type], x |-> d.values[1], y |-> d.values[2], z |-> d.values[3]]
    [] d.type \in DOMAIN F!RadioType -> [k |-> "r", ts |-> d.timestamp, type |-> F!RadioType[d.type], id |-> d.bssid,
                                         rssi |-> F!Opt(d, "rssi", "0"), dist |-> F!Opt(d, "distance", "0"), pw |-> F!Opt(d, "power", "0")]
    [] d.type = 300 -> [k |-> "n", ts |-> d.timestamp, sn |-> d.sentence_number, sats |-> d.num_sats]
    [] OTHER -> [k |-> "r", ts |-> d.timestamp, type |-> "WIFI", id |-> "", rssi |-> "0", dist |-> "0", pw |-> "0"]

(* what a trace line says, given as such or as documents *)
WorldIn(e) == IF "map" \in DOMAIN e THEN WorldOfMap(e.map) ELSE e.world
SettingsIn(e) == IF "file" \in DOMAIN e THEN ("a" :> SettingsOfFile(e.file)) ELSE e.set
BatchIn(e) == IF "log" \in DOMAIN e THEN [i \in 1..Len(e.log) |-> MessageOf(e.log[i])] ELSE e.batch
================================================================================
