------------------------------ MODULE SoloTrilat ------------------------------
(***************************************************************************)
(* standalone_algorithms/trilateteration: the position of a device from    *)
(* its distances to beacons of a map.                                      *)
(*   map  - the beacons of the map (the first one listed under an id)      *)
(*   meas - the measurements as they were last given                       *)
(*   x, y - the coordinates of the last successful calculation             *)
(***************************************************************************)
EXTENDS NavWorld

ErrNoSolution == 4
ErrInput == 28
MinDistance == "1e-6"

TriInit == [kind |-> "trilat", map |-> <<>>, meas |-> <<>>, r |-> 0, x |-> "0.0", y |-> "0.0", msg |-> 0, fresh |-> FALSE]
TriIds(ms) == {ms[i].id : i \in DOMAIN ms}
TriKnown(st) == TriIds(st.meas) \cap TriIds(st.map)
TriBeacon(st, id) == SelectSeq(st.map, LAMBDA b : b.id = id)[1]
(* several measurements of one beacon count with their mean distance *)
TriDist(st, id) == LET q == SelectSeq(st.meas, LAMBDA m : m.id = id)
                   IN RMax(MinDistance, RSum([i \in DOMAIN q |-> q[i].d]) // Len(q))
TriError(st) == IF \E i \in DOMAIN st.meas : st.meas[i].d \prec "0.0" THEN ErrInput
                ELSE IF Cardinality(TriIds(st.meas)) < 3 \/ TriKnown(st) = {} THEN ErrNoSolution ELSE 0
(* the mean of the known beacons, weighted with the inverse distance *)
TriMean(st) ==
  LET ids == SetToSeq(TriKnown(st))
      w == [i \in DOMAIN ids |-> "1.0" // TriDist(st, ids[i])]
      total == RSum(w)
      along(c) == RSum([i \in DOMAIN ids |-> w[i] ** c[i]]) // total
  IN [x |-> along([i \in DOMAIN ids |-> TriBeacon(st, ids[i]).x]), y |-> along([i \in DOMAIN ids |-> TriBeacon(st, ids[i]).y])]

TriCalc(st) ==
  LET err == TriError(st)
      s1 == [st EXCEPT !.r = err, !.fresh = TRUE]
  IN IF err # 0 THEN s1 ELSE LET p == TriMean(st) IN [s1 EXCEPT !.x = p.x, !.y = p.y]

TriSteps(st, ln) ==
  CASE ln.op = "map"  -> {[st EXCEPT !.map = ln.beacons, !.fresh = FALSE]}
    [] ln.op = "meas" -> {[st EXCEPT !.meas = ln.meas, !.fresh = FALSE]}
    [] ln.op = "copy" -> {st}
    [] ln.op = "calc" ->
         LET s1 == TriCalc(st)
             short == s1.r = ErrNoSolution /\ Cardinality(TriIds(st.meas)) < 3
         IN IF /\ ln.r = s1.r /\ NearRel(ln.x, s1.x, "1e-9") /\ NearRel(ln.y, s1.y, "1e-9")
               /\ (st.msg = 0 /\ short) \/ ln.msg = st.msg
            THEN {[s1 EXCEPT !.msg = ln.msg]} ELSE {}
TriExpected(st, ln) == IF ln.op = "calc" THEN LET s1 == TriCalc(st) IN <<"result", s1.r, s1.x, s1.y, "message length", st.msg>> ELSE <<>>

(* a fresh result lies among the known beacons; it is finite at all times *)
PTriInside(st) ==
  /\ RIsFinite(st.x) /\ RIsFinite(st.y)
  /\ st.fresh /\ st.r = 0 =>
       /\ \E a, b \in TriKnown(st) : TriBeacon(st, a).x \preceq RAdd(st.x, "1e-6") /\ RSub(st.x, "1e-6") \preceq TriBeacon(st, b).x
       /\ \E a, b \in TriKnown(st) : TriBeacon(st, a).y \preceq RAdd(st.y, "1e-6") /\ RSub(st.y, "1e-6") \preceq TriBeacon(st, b).y
(* nothing but the present measurements and map decides *)
PTriErrors(st) == st.fresh => (st.r = 0 <=> (TriKnown(st) # {} /\ Cardinality(TriIds(st.meas)) >= 3 /\ \A i \in DOMAIN st.meas : "0.0" \preceq st.meas[i].d))
===============================================================================
