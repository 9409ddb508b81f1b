------------------------------- MODULE NavTrace -------------------------------
(***************************************************************************)
(* Conformance: a recorded trace of the real navigation client (NDJSON)    *)
(* must be a behaviour of NavClient.  Lines:                               *)
(*   open  - a new scenario: world, settings of every client, and groups   *)
(*           of twin clients (equal settings, fed the same messages)       *)
(*   nav   - one call navigate(batch) with its result and debug states     *)
(* A walk that was recorded in files: open carries the documents map and   *)
(* file (settings) instead, nav the lines of the log.                      *)
(*   mark  - client k is snapshot here                                     *)
(*   nav with d - the call was made by a client with the history of the    *)
(*           d-th snapshot; its state becomes snapshot d+1.  A run of such *)
(*           lines is a tree of behaviours in preorder: every sequence of  *)
(*           letters up to some length, each played on the real code.      *)
(* Everything in between (Take/Skip per message) is internal and           *)
(* determined by the batch.                                                *)
(***************************************************************************)
EXTENDS NavProps, NavFiles, Json, IOUtils

ASSUME "TRACE" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* next line of the trace
          saved,    \* snapshots <<[c, g]>>
          heardOf   \* twin client -> observed reports, in order
vars == <<propVars, l, saved, heardOf>>

PosTol(k) == IF ghost[k].standing THEN "0.0501" ELSE "0.0101"
OnGrid(v) == Near(RMul(v, "100"), RFloor(RAdd(RMul(v, "100"), "0.5")), "2e-3")
(* a coordinate is the predicted one; where the last digits decide how it is rounded down, the neighbouring centimetre too *)
CoordMatches(tol, exp, i, v, obs) ==
  \/ Near(obs, v, "1e-4")
  \/ /\ exp.raw # <<>> /\ Near(obs, v, tol)
     /\ Near(RMul(exp.raw[i], "100"), RFloor(RAdd(RMul(exp.raw[i], "100"), "0.5")), "1e-2")
ReportMatches(tol, exp, obs) ==
  /\ exp.status = obs.status
  /\ exp.level = obs.level
  /\ exp.prov = obs.prov
  /\ NearRel(exp.r, obs.r, "1e-6")
  /\ exp.alt = <<>> \/ NearRel(exp.alt[1], obs.alt, "1e-4")
  /\ AngleNear(exp.ori, obs.ori, "1e-6") /\ RNeg(RPi) \preceq obs.ori /\ obs.ori \prec RPi
  /\ IF exp.level = "" THEN REq(obs.lat, "0") /\ REq(obs.lon, "0")
     ELSE LET p == ToLocal(obs.lat, obs.lon, LevelOf(world, exp.level).bind) IN
          /\ "-180" \prec obs.lon /\ obs.lon \preceq "180"
          /\ CoordMatches(tol, exp, 1, exp.x, p.x) /\ CoordMatches(tol, exp, 2, exp.y, p.y)
          /\ exp.grid => OnGrid(p.x) /\ OnGrid(p.y)
DebugMatches(exp, obs) ==
  /\ exp.steps = obs.steps
  /\ NearRel(exp.len, obs.len, "1e-6")
  /\ NearRel(exp.ix, obs.ix, "1e-6") /\ NearRel(exp.iy, obs.iy, "1e-6")
  /\ NearRel(exp.ox, obs.ox, "1e-6") /\ NearRel(exp.oy, obs.oy, "1e-6")

CallMatches(c, e) ==
  /\ Len(e.outs) = Len(c.outs)
  /\ Len(e.sts) = Len(c.dbgs) \/ BatchIn(e) = <<>>
  /\ \A i \in 1..Len(c.outs) : ReportMatches(PosTol(c.k), c.outs[i], e.outs[i])
  /\ \A i \in 1..Len(c.dbgs) : DebugMatches(c.dbgs[i], e.sts[i])

FirstBad(c, e) ==
  IF Len(e.outs) # Len(c.outs) \/ Len(e.sts) # Len(c.dbgs) THEN <<"counts", Len(c.outs), Len(c.dbgs), Len(e.outs), Len(e.sts)>>
  ELSE LET bad == {i \in 1..Len(c.outs) : ~ReportMatches(PosTol(c.k), c.outs[i], e.outs[i]) \/ ~DebugMatches(c.dbgs[i], e.sts[i])}
           i == Min(bad)
           o == e.outs[i]
           p == IF HasLevel(world, o.level) THEN ToLocal(o.lat, o.lon, LevelOf(world, o.level).bind) ELSE [x |-> "0", y |-> "0"]
       IN <<"report", i, "expected", c.outs[i], c.dbgs[i], "observed", o, p, e.sts[i]>>

(* twins: reports of equal clients fed equal messages are identical *)
TwinOf(k) == {j \in DOMAIN heardOf : j # k}
Agree(a, b) == \A i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] = b[i]
NoTwins == [k \in {} |-> <<>>]

TraceInit == /\ l = 1
             /\ world = [levels |-> <<>>] /\ settings = <<>> /\ tris = <<>> /\ client = <<>> /\ call = NoCall
             /\ ghost = <<>> /\ saved = <<>> /\ heardOf = NoTwins
             /\ TLCSet(1, 1)

Line == Trace[l]
TraceOpen == /\ l <= Len(Trace) /\ Line.e = "open" /\ Idle
             /\ Open(WorldIn(Line), SettingsIn(Line))
             /\ ghost' = [k \in DOMAIN settings' |-> InitGhost]
             /\ saved' = <<>>
             /\ heardOf' = [k \in Range(Line.twins) |-> <<>>]
             /\ l' = l + 1
TraceMark == /\ l <= Len(Trace) /\ Line.e = "mark" /\ Idle
             /\ saved' = <<[c |-> client[Line.k], g |-> ghost[Line.k]]>>
             /\ l' = l + 1
             /\ UNCHANGED <<propVars, heardOf>>
TraceBegin == /\ l <= Len(Trace) /\ Line.e = "nav" /\ Idle
              /\ "d" \notin DOMAIN Line
              /\ Begin(Line.k, BatchIn(Line))
              /\ UNCHANGED <<l, ghost, saved, heardOf>>
TraceBranch == /\ l <= Len(Trace) /\ Line.e = "nav" /\ Idle
               /\ "d" \in DOMAIN Line
               /\ client' = [client EXCEPT ![Line.k] = saved[Line.d].c]
               /\ ghost' = [ghost EXCEPT ![Line.k] = saved[Line.d].g]
               /\ call' = [NoCall EXCEPT !.k = Line.k, !.todo = BatchIn(Line), !.size = Len(BatchIn(Line))]
               /\ UNCHANGED <<l, world, settings, tris, saved, heardOf>>
TraceTake == PropTake /\ UNCHANGED <<l, saved, heardOf>>
TraceSkip == SkipLate /\ UNCHANGED <<l, ghost, saved, heardOf>>
TraceReturn == /\ l <= Len(Trace) /\ Return
               /\ IF CallMatches(call, Line) THEN TRUE
                  ELSE PrintT(<<"MISMATCH", l, FirstBad(call, Line)>>) /\ FALSE
               /\ saved' = IF "d" \in DOMAIN Line
                           THEN Append(SubSeq(saved, 1, Line.d), [c |-> client[call.k], g |-> ghost[call.k]]) ELSE saved
               /\ heardOf' = IF call.k \in DOMAIN heardOf THEN [heardOf EXCEPT ![call.k] = @ \o Line.outs] ELSE heardOf
               /\ IF call.k \in DOMAIN heardOf /\ \E j \in TwinOf(call.k) : ~Agree(heardOf'[call.k], heardOf[j])
                  THEN PrintT(<<"MISMATCH", l, "twins differ", call.k>>) /\ FALSE ELSE TRUE
               /\ l' = l + 1
               /\ UNCHANGED ghost
TraceNext == TraceOpen \/ TraceMark \/ TraceBegin \/ TraceBranch \/ TraceTake \/ TraceSkip \/ TraceReturn
TraceSpec == TraceInit /\ [][TraceNext]_vars

Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE
                 ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
(* every property, at every step; the failing one is named with its trace line *)
Holds(name, p) == p \/ (PrintT(<<"BROKEN", l, name>>) /\ FALSE)
AllProperties ==
  /\ Holds("PFraming", PFraming)
  /\ Holds("PStatus", PStatus)
  /\ Holds("PInside", PInside)
  /\ Holds("PExpiry", PExpiry)
  /\ Holds("PHysteresis", PHysteresis)
  /\ Holds("PBarometer", PBarometer)
  /\ Holds("PSteps", PSteps)
  /\ Holds("PStops", PStops)
  /\ Holds("PZone", PZone)
  /\ Holds("PKnn", PKnn)
  /\ Holds("PGps", PGps)
  /\ Holds("PFused", PFused)
  /\ Holds("POrient", POrient)
  /\ Holds("PSmooth", PSmooth)

View == <<l, call.k, Len(call.todo)>>
================================================================================
