------------------------------- MODULE SoloZone -------------------------------
(***************************************************************************)
(* standalone_algorithms/position_estimation: averaging of radio           *)
(* measurements and the smoothed position of the nearest transmitter.      *)
(*   buf  - collected measurements                                         *)
(*   cur  - latest admitted measurement, last - the latest extraction      *)
(*   seen - admitted measurements of the whole scenario (history variable) *)
(***************************************************************************)
EXTENDS NavWorld

ZoneSmoothing == "0.9"
ZoneAlpha == RAdd(RMul("0.1", ZoneSmoothing), RMul("0.9", RSub("1.0", ZoneSmoothing)))
ZoneBeta == RDiv(RMul(ZoneAlpha, ZoneAlpha), RSub("2.0", ZoneAlpha))
Strongest == 5

ZoneShift(k) == LET a == MsOf(k.avg)  s == MsOf(k.shift) IN IF s = 0 \/ s > a THEN a ELSE s
ZoneKeep(k) == MsOf(k.avg) - ZoneShift(k)
NoFix == [x |-> "0.0", y |-> "0.0", prec |-> "0.0", empty |-> TRUE, pts |-> -1]
ZoneInit(k, txs) == [kind |-> "zone", k |-> k, txs |-> txs, buf |-> <<>>, cur |-> -1, last |-> -1, now |-> -1,
                     seen |-> <<>>, list |-> <<>>, used |-> FALSE, fix |-> NoFix, vx |-> "0.0", vy |-> "0.0", answer |-> NoFix]

Admitted(k, m) == /\ (m.type = "WIFI" /\ k.wifi) \/ (m.type = "BEACON" /\ k.ble)
                  /\ "-100.0" \prec m.rssi /\ m.rssi \prec "0.0"
ZoneUpdate(z, m) ==
  LET z1 == IF ~Admitted(z.k, m) THEN z
            ELSE LET last == IF z.cur = -1 THEN m.ts ELSE z.last     \* the first one starts the clock
                 IN [z EXCEPT !.last = last, !.cur = IF m.ts > z.cur THEN m.ts ELSE @,
                              !.buf = IF m.ts > last THEN Append(@, m) ELSE @, !.seen = Append(@, m)]
  IN [z1 EXCEPT !.now = IF m.ts > @ THEN m.ts ELSE @]

Of(q, id) == SelectSeq(q, LAMBDA m : m.id = id)
IdsOf(q) == {q[i].id : i \in DOMAIN q}
Mean(q, F(_)) == RSum([i \in DOMAIN q |-> F(q[i])]) // Len(q)
MeanRssi(q) == Mean(q, LAMBDA m : m.rssi)
MeanDist(q) == Mean(q, LAMBDA m : m.dist)
Due(z) == z.cur - z.last >= ZoneShift(z.k)
(* the order of equally strong transmitters is not determined, nor which of a transmitter's times is shown *)
ListOk(z, list) ==
  IF ~Due(z) THEN list = <<>>
  ELSE LET ids == IdsOf(z.buf) IN
       /\ Len(list) = IF Cardinality(ids) < Strongest THEN Cardinality(ids) ELSE Strongest
       /\ IdsOf(list) \subseteq ids /\ Cardinality(IdsOf(list)) = Len(list)
       /\ \A i \in DOMAIN list : LET q == Of(z.buf, list[i].id) IN
            /\ NearRel(list[i].rssi, MeanRssi(q), "1e-9") /\ NearRel(list[i].dist, MeanDist(q), "1e-9")
            /\ \E j \in DOMAIN q : q[j].ts = list[i].ts
       /\ \A i \in 2..Len(list) : list[i].rssi \preceq list[i-1].rssi
       /\ \A id \in ids \ IdsOf(list) : MeanRssi(Of(z.buf, id)) \preceq RAdd(list[Len(list)].rssi, "1e-9")
ZoneExtract(z, list) ==
  IF ~Due(z) THEN [z EXCEPT !.list = list]
  ELSE [z EXCEPT !.last = z.cur, !.list = list,
                 !.buf = IF ZoneKeep(z.k) = 0 THEN <<>> ELSE SelectSeq(@, LAMBDA m : m.ts >= z.cur - ZoneKeep(z.k))]

(* the last transmitter registered under an id counts *)
TxOf(z, id) == LET q == Of(z.txs, id) IN q[Len(q)]
Registered(z, list) == SelectSeq(list, LAMBDA m : m.id \in IdsOf(z.txs))
(* every position the estimator may give before smoothing *)
RawFixes(z, list) ==
  LET r == Registered(z, list)
      best == {i \in DOMAIN r : \A j \in DOMAIN r : r[j].rssi \preceq r[i].rssi}
  IN {[x |-> TxOf(z, r[i].id).x, y |-> TxOf(z, r[i].id).y, prec |-> RAdd(RSqrt(RExp(RDiv(RSub("-82.0", r[i].rssi), "3.0"))), "1.0"),
       empty |-> FALSE, pts |-> r[Len(r)].ts] : i \in best}
Smooth(z, raw) ==
  IF ~(raw.pts > z.fix.pts) THEN [z EXCEPT !.answer = z.fix]
  ELSE LET t == IF z.used THEN Sec(raw.pts - z.fix.pts) ELSE "0.0"
           xp == RAdd(z.fix.x, RMul(z.vx, t))
           yp == RAdd(z.fix.y, RMul(z.vy, t))
           f == [raw EXCEPT !.x = RAdd(xp, RMul(ZoneAlpha, RSub(raw.x, xp))), !.y = RAdd(yp, RMul(ZoneAlpha, RSub(raw.y, yp)))]
       IN IF ~z.used \/ "10.0" \prec t THEN [z EXCEPT !.fix = raw, !.vx = "0.0", !.vy = "0.0", !.used = TRUE, !.answer = raw]
          ELSE [z EXCEPT !.fix = f, !.answer = f, !.vx = RAdd(@, RMul(RDiv(ZoneBeta, t), RSub(raw.x, xp))), !.vy = RAdd(@, RMul(RDiv(ZoneBeta, t), RSub(raw.y, yp)))]
ZoneAnswers(z, list) == IF Registered(z, list) = <<>> THEN {[z EXCEPT !.answer = NoFix]} ELSE {Smooth(z, raw) : raw \in RawFixes(z, list)}
SameFix(a, b) == /\ a.empty = b.empty /\ a.pts = b.pts
                 /\ NearRel(a.x, b.x, "1e-7") /\ NearRel(a.y, b.y, "1e-7") /\ NearRel(a.prec, b.prec, "1e-9")

ZoneSteps(st, ln) ==
  CASE ln.op = "upd" -> LET z == ZoneUpdate(st, ln.m) IN IF z.now = ln.now THEN {z} ELSE {}
    [] ln.op = "ext" -> IF ListOk(st, ln.list) THEN {ZoneExtract(st, ln.list)} ELSE {}
    [] ln.op = "pos" -> {z \in ZoneAnswers(st, st.list) : ln.list = st.list /\ SameFix(z.answer, ln)}
    [] ln.op = "est" -> {z \in ZoneAnswers(st, ln.list) : SameFix(z.answer, ln)}
ZoneExpected(st, ln) ==
  CASE ln.op = "upd" -> <<"now", ZoneUpdate(st, ln.m).now>>
    [] ln.op = "ext" -> <<"due", Due(st), [id \in IdsOf(st.buf) |-> <<MeanRssi(Of(st.buf, id)), MeanDist(Of(st.buf, id))>>]>>
    [] OTHER -> <<"one of", {z.answer : z \in ZoneAnswers(st, ln.list)}>>

(* what is extracted are admitted signals of the averaging time, the strongest first *)
PZoneList(st) == st.kind = "zone" =>
  \A i \in DOMAIN st.list : \E a, b \in DOMAIN st.seen :
     /\ st.seen[a].id = st.list[i].id /\ st.seen[b].id = st.list[i].id
     /\ RSub(st.seen[a].rssi, "1e-9") \preceq st.list[i].rssi /\ st.list[i].rssi \preceq RAdd(st.seen[b].rssi, "1e-9")
     /\ Admitted(st.k, st.seen[a])
PZonePosition(st) == ~st.answer.empty => /\ RIsFinite(st.answer.x) /\ RIsFinite(st.answer.y) /\ "1.0" \preceq st.answer.prec
                                         /\ st.answer.pts <= st.fix.pts
===============================================================================
