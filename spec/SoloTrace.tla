------------------------------- MODULE SoloTrace -------------------------------
(***************************************************************************)
(* Conformance of the standalone algorithms: a recorded trace (NDJSON)     *)
(* must be a behaviour of the specification of its kind.  A line "open"    *)
(* starts a new object, every other line is one call with its result.      *)
(* Where the code may choose (ties), every choice is followed.             *)
(***************************************************************************)
EXTENDS SoloTrilat, SoloPed, SoloCf, SoloZone, SoloFile, SoloLevel, Json, IOUtils

ASSUME "TRACE" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, solo
vars == <<l, solo>>

OpenState(ln) == CASE ln.kind = "trilat" -> TriInit
                   [] ln.kind = "ped" -> PedInit(ln.epoch)
                   [] ln.kind = "cf" -> CfInit(ln)
                   [] ln.kind = "zone" -> ZoneInit(ln.k, ln.txs)
                   [] ln.kind = "file" -> FileInit
                   [] ln.kind = "level" -> LvInit
Steps(st, ln) == CASE st.kind = "trilat" -> TriSteps(st, ln)
                   [] st.kind = "ped" -> PedSteps(st, ln)
                   [] st.kind = "cf" -> CfSteps(st, ln)
                   [] st.kind = "zone" -> ZoneSteps(st, ln)
                   [] st.kind = "file" -> FileSteps(st, ln)
                   [] st.kind = "level" -> LvSteps(st, ln)
Expected(st, ln) == CASE st.kind = "trilat" -> TriExpected(st, ln)
                      [] st.kind = "ped" -> PedExpected(st, ln)
                      [] st.kind = "cf" -> CfExpected(st, ln)
                      [] st.kind = "zone" -> ZoneExpected(st, ln)
                      [] st.kind = "file" -> FileExpected(st, ln)
                      [] st.kind = "level" -> LvExpected(st, ln)

Init == l = 1 /\ solo = [kind |-> "none"] /\ TLCSet(1, 1)
Line == Trace[l]
Open == l <= Len(Trace) /\ Line.e = "open" /\ solo' = OpenState(Line) /\ l' = l + 1
Op == /\ l <= Len(Trace) /\ Line.e = "op"
      /\ LET next == Steps(solo, Line) IN
         /\ IF next = {} THEN PrintT(<<"MISMATCH", l, "expected", Expected(solo, Line), "observed", Line>>) /\ FALSE ELSE TRUE
         /\ solo' \in next
      /\ l' = l + 1
Next == Open \/ Op
TraceSpec == Init /\ [][Next]_vars

Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
Holds(name, p) == p \/ (PrintT(<<"BROKEN", l, name>>) /\ FALSE)
AllProperties ==
  CASE solo.kind = "trilat" -> Holds("PTriInside", PTriInside(solo)) /\ Holds("PTriErrors", PTriErrors(solo))
    [] solo.kind = "ped" -> Holds("PPedApart", PPedApart(solo)) /\ Holds("PPedLength", PPedLength(solo))
    [] solo.kind = "cf" -> Holds("PCfUnit", PCfUnit(solo))
    [] solo.kind = "zone" -> Holds("PZoneList", PZoneList(solo)) /\ Holds("PZonePosition", PZonePosition(solo))
    [] solo.kind = "file" -> Holds("PFileGraph", PFileGraph(solo))
    [] solo.kind = "level" -> Holds("PLvFrame", PLvFrame(solo))
    [] OTHER -> TRUE
================================================================================
