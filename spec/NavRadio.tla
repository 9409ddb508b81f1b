------------------------------- MODULE NavRadio -------------------------------
(***************************************************************************)
(* Which radio measurements are used (admission), and how the accepted     *)
(* ones are collected and averaged per transmitter over a sliding window.  *)
(***************************************************************************)
EXTENDS NavWorld

TypeAllowed(S, t) == \/ t \in {"WIFI", "WIFI_RTT"} /\ S.useWifi
                     \/ t \in {"BEACON", "BLUETOOTH", "EDDYSTONE"} /\ S.useBle
TxSupported(S, W, id) ==
  TxKnown(W, id) /\ ((TxLevel(W, id).tx[id].type = "LOCATOR") <=> S.useTracking)
Admitted(S, W, m) ==
  /\ S.useUnknownTransmitters \/ TxSupported(S, W, m.id)
  /\ IF S.measurementType = "RSSI" THEN m.rssi \prec "0" /\ S.sigCutOffRss \prec m.rssi
                                   ELSE m.type = "WIFI_RTT"
  /\ TypeAllowed(S, m.type)

InitRadio == [lastSig |-> NEVER, buf |-> <<>>, cur |-> NEVER, lastEx |-> NEVER, lastStep |-> NEVER]

(* An admitted measurement enters the window. *)
AddRadio(r, m) ==
  [r EXCEPT !.lastSig = m.ts, !.cur = m.ts,
            !.lastEx = IF r.cur = NEVER THEN m.ts ELSE r.lastEx,
            !.buf = Append(r.buf, [ts |-> m.ts, id |-> m.id, rssi |-> m.rssi, pw |-> m.pw, dist |-> m.dist, rtt |-> m.type = "WIFI_RTT"])]

NoMsrs == [i \in {} |-> "0.0"]
HeardIn(buf) == {buf[i].id : i \in 1..Len(buf)}
Of(buf, id) == SelectSeq(buf, LAMBDA b : b.id = id)
MeanOf(q, g(_)) == RSum([i \in 1..Len(q) |-> g(q[i])]) // Len(q)
Average(buf) == [id \in HeardIn(buf) |-> MeanOf(Of(buf, id), LAMBDA b : b.rssi)]

(* the n strongest entries of a transmitter -> rssi function *)
Strongest(avg, n) ==
  IF Cardinality(DOMAIN avg) <= n THEN avg
  ELSE LET keep == {id \in DOMAIN avg : Cardinality({o \in DOMAIN avg : avg[id] \prec avg[o]}) < n}
       IN [id \in keep |-> avg[id]]

(* What the window yields once the message has been taken in: the averaged
   measurements if a full shift elapsed, nothing otherwise.  out: mean signal;
   dist: mean distance; pw: announced power; rtt: ranged by the device. *)
ExtractRadio(S, r, lastMotion) ==
  LET r1 == IF lastMotion > NEVER THEN [r EXCEPT !.lastStep = lastMotion] ELSE r
      standing == S.useStops /\ r1.lastStep > NEVER /\ r1.cur - r1.lastStep > S.stopDetMs
      kept == IF standing THEN r1.buf
              ELSE IF S.keepMs = 0 THEN <<>>
              ELSE SelectSeq(r1.buf, LAMBDA b : b.ts >= r1.cur - S.keepMs)
      avg == Average(r1.buf)
  IN IF r1.cur - r1.lastEx < S.shiftMs
     THEN [st |-> r1, out |-> NoMsrs, dist |-> NoMsrs, pw |-> NoMsrs, rtt |-> NoMsrs]
     ELSE [st |-> [r1 EXCEPT !.lastEx = r1.cur, !.buf = kept],
           out |-> IF S.useClosestAps THEN Strongest(avg, S.numClosestAps) ELSE avg,
           dist |-> [id \in HeardIn(r1.buf) |-> MeanOf(Of(r1.buf, id), LAMBDA b : b.dist)],
           pw |-> [id \in HeardIn(r1.buf) |-> Of(r1.buf, id)[1].pw],
           rtt |-> [id \in HeardIn(r1.buf) |-> Of(r1.buf, id)[1].rtt]]

OnLevel(lvl, msrs) == [id \in {i \in DOMAIN msrs : LevelHasTx(lvl, i)} |-> msrs[id]]
================================================================================
