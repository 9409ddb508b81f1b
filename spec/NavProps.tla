------------------------------- MODULE NavProps -------------------------------
(***************************************************************************)
(* The properties, stated over what a user sees (messages in, reports out) *)
(* and a few history variables, independently of how NavClient computes    *)
(* its next state.  They are invariants of the exhaustive models and are   *)
(* evaluated at every step of every validated trace.                       *)
(***************************************************************************)
EXTENDS NavClient

VARIABLE ghost          \* client -> history summary
propVars == <<navVars, ghost>>

InitGhost == [ heard |-> NEVER, fix |-> NEVER, det |-> <<>>, first |-> "", steps |-> 0, stepTs |-> NEVER,
               moved |-> NEVER, now |-> NEVER, msg |-> <<>>, prev |-> <<>>, rep |-> <<>>, standing |-> FALSE,
               chg |-> NEVER, prevChg |-> NEVER, level |-> "", prevLevel |-> "", onLevel |-> FALSE, wasOn |-> FALSE ]

Bump(f, l) == (l :> (IF l \in DOMAIN f THEN f[l] + 1 ELSE 1)) @@ f
Moved(a, b) == a # <<>> /\ (~Near(a.x, b.x, "0.05") \/ ~Near(a.y, b.y, "0.05"))

(* m was taken by client k, turning c into c2 and yielding report o, debug d *)
GhostStep(S, W, g, c, c2, m, o, d) ==
  LET stepped == d.steps > g.steps
      moved == IF stepped THEN m.ts ELSE g.moved
      ex == ExtractRadio(S, IF m.k = "r" /\ Admitted(S, W, m) THEN AddRadio(c.radio, m) ELSE c.radio, moved)
      det == DetectLevel(S, W, ex.out, ex.pw)
      still == S.useStops /\ moved > NEVER /\ m.ts - moved >= S.stopDetMs
      onlev == o.level # "" /\ ~c2.post.last.e /\ c2.post.last.ts = m.ts
      jump == still /\ g.standing /\ g.onLevel /\ onlev /\ g.rep # <<>> /\ g.rep.level = o.level /\ Moved(g.rep, o)
  IN [ heard |-> IF m.k = "r" /\ Admitted(S, W, m) THEN m.ts ELSE g.heard,
       fix |-> IF m.k = "s" /\ m.type = "LOC" THEN m.ts ELSE g.fix,
       det |-> IF det = "" THEN g.det ELSE Bump(g.det, det),
       first |-> IF g.first = "" THEN det ELSE g.first,
       steps |-> d.steps, stepTs |-> IF stepped THEN m.ts ELSE g.stepTs,
       moved |-> moved, now |-> m.ts, msg |-> m, prev |-> g, rep |-> o, standing |-> still,
       chg |-> IF ~still THEN NEVER ELSE IF jump THEN m.ts ELSE g.chg,
       prevChg |-> IF jump THEN g.chg ELSE NEVER,
       level |-> IF onlev THEN o.level ELSE g.level, prevLevel |-> g.level, onLevel |-> onlev, wasOn |-> g.onLevel ]
  
PropTake == /\ TakeMessage
            /\ ghost' = [ghost EXCEPT ![call.k] =
                 [GhostStep(settings[call.k], world, @, client[call.k], client'[call.k], Head(call.todo),
                           Last(call'.outs), Last(call'.dbgs)) EXCEPT !.prev = [@ EXCEPT !.prev = <<>>]]]

--------------------------------------------------------------------------------
(* A report was just produced: its client's settings, history, report, debug *)
Fresh == call.k # "" /\ call.outs # <<>> /\ ghost[call.k].rep # <<>>
S0 == settings[call.k]
G0 == ghost[call.k]
O0 == Last(call.outs)
D0 == Last(call.dbgs)
C0 == client[call.k]
HasPos == O0.level # ""

\* exactly one report per message that is not late
PFraming == call.k # "" => Len(call.outs) = call.size - Len(call.todo) - call.late

\* a report is complete or empty, and its level exists
PStatus == Fresh =>
  /\ O0.status \in {OK, ERROR, NO_SOLUTION, NO_LEVEL}
  /\ (O0.status = OK) <=> HasPos
  /\ HasPos => O0.prov \in {"INDOOR", "GNSS", "FUSED"} /\ HasLevel(world, O0.level)
               /\ RIsFinite(O0.x) /\ RIsFinite(O0.y) /\ RIsFinite(O0.r)
  /\ ~HasPos => O0.prov = "NONE" /\ REq(O0.x, "0") /\ REq(O0.y, "0") /\ REq(O0.r, "0")

\* a position on the current level lies inside it, on the centimetre grid
PInside == Fresh /\ HasPos /\ G0.onLevel =>
  LET lvl == LevelOf(world, O0.level) IN
  /\ InBox(O0, lvl)
  /\ \A v \in {O0.x, O0.y} : Near(RMul(v, "100"), RFloor(RAdd(RMul(v, "100"), "0.5")), "1e-4")

\* nothing is reported out of thin air, and positions expire
SourceTs == LET a == IF G0.heard = NEVER THEN NEVER ELSE G0.heard + S0.noSigMs
                b == IF G0.fix = NEVER THEN NEVER ELSE G0.fix + MsOf(S0.gpsValidTimeWindowSec)
            IN IF a > b THEN a ELSE b
PExpiry == Fresh /\ HasPos =>
  /\ G0.heard # NEVER \/ G0.fix # NEVER
  /\ G0.now - SourceTs <= S0.deadMs
  /\ O0.prov \in {"INDOOR"} => G0.heard # NEVER
  /\ O0.prov \in {"GNSS"} => G0.fix # NEVER
  /\ O0.prov = "FUSED" => S0.fuseGps /\ S0.useGps /\ G0.heard # NEVER /\ G0.fix # NEVER

\* a level other than the first one needs more than four detections
PHysteresis == Fresh /\ C0.lev.hist.cur # "" =>
  \/ C0.lev.hist.cur = G0.first
  \/ C0.lev.hist.cur \in DOMAIN G0.det /\ G0.det[C0.lev.hist.cur] > SwitchCount

\* with a barometer, the estimated level is one the hysteresis has accepted
PBarometer == Fresh /\ S0.useBarometer /\ G0.onLevel /\ O0.prov = "INDOOR" =>
  O0.level \in DOMAIN G0.det

\* one step at a time, only from the accelerometer, and not more often than every 300 ms
PSteps == Fresh /\ G0.prev # <<>> =>
  /\ G0.steps - G0.prev.steps \in {0, 1}
  /\ G0.steps > G0.prev.steps => /\ G0.msg.k = "s" /\ G0.msg.type = "ACC"
                                 /\ G0.msg.ts - G0.prev.stepTs > MinStepMs
                                 /\ "0" \preceq D0.len
  /\ G0.steps = G0.prev.steps => REq(D0.len, "0")

\* standing still: the position moves at most once per update interval
PStops == Fresh /\ G0.prevChg > NEVER => G0.chg - G0.prevChg > S0.stopUpdMs

\* estimates: zones report transmitters, fingerprinting stays between reference points
PZone == Fresh /\ ~C0.post.fuse.ind.e /\ S0.useAlgorithm # "KNN" =>
  LET lvl == LevelOf(world, C0.post.fuse.ind.lvl)
      p == C0.post.fuse.ind IN
  /\ \E id \in DOMAIN lvl.tx : REq(lvl.tx[id].x, p.x) /\ REq(lvl.tx[id].y, p.y)
  /\ "1" \preceq p.dev
PKnn == Fresh /\ ~C0.post.fuse.ind.e /\ S0.useAlgorithm = "KNN" =>
  LET lvl == LevelOf(world, C0.post.fuse.ind.lvl)
      p == C0.post.fuse.ind
      within(v, q) == RSub(RMinOf(q), "1e-6") \preceq v /\ v \preceq RAdd(RMaxOf(q), "1e-6") IN
  /\ within(p.x, [i \in 1..Len(lvl.rps) |-> lvl.rps[i].x])
  /\ within(p.y, [i \in 1..Len(lvl.rps) |-> lvl.rps[i].y])

\* GPS estimates: precise enough, on a known level, inside it unless allowed outside
PGps == Fresh /\ ~C0.gps.last.e =>
  /\ HasLevel(world, C0.gps.last.lvl)
  /\ S0.useGpsOutsideMap \/ InBox(C0.gps.last, LevelOf(world, C0.gps.last.lvl))
  /\ S0.minGpsDeviation \preceq C0.gps.last.dev
  /\ C0.gps.last.dev \preceq RMax(S0.maxGpsDeviation, S0.minGpsDeviation)

\* a fused position lies between the two estimates it fuses
Plain(S) == ~S.useSmoothing /\ ~S.useTimeSmoothing /\ ~S.useGraphProjection /\ ~S.useStops
PFused == Fresh /\ O0.prov = "FUSED" /\ Plain(S0) /\ G0.onLevel =>
  LET f == C0.post.fuse
      lvl == LevelOf(world, O0.level)
      mid(v, a, b, hi) == /\ RSub(Clamp(RMin(a, b), "0", hi), "0.011") \preceq v
                          /\ v \preceq RAdd(Clamp(RMax(a, b), "0", hi), "1e-6")
  IN mid(O0.x, f.ind.x, f.outd.x, lvl.w) /\ mid(O0.y, f.ind.y, f.outd.y, lvl.h)

\* orientation is a normalised angle
POrient == Fresh => RNeg(RPi) \preceq O0.ori /\ O0.ori \prec RPi

\* smoothing never leaves the level; an unsmoothed client reports the estimate itself
PSmooth == Fresh /\ Plain(S0) /\ G0.onLevel /\ O0.prov = "INDOOR" =>
  LET lvl == LevelOf(world, O0.level) IN
  /\ Near(O0.x, Clamp(C0.post.fuse.ind.x, "0", lvl.w), "0.0101")
  /\ Near(O0.y, Clamp(C0.post.fuse.ind.y, "0", lvl.h), "0.0101")

Properties == PFraming /\ PStatus /\ PInside /\ PExpiry /\ PHysteresis /\ PBarometer /\ PSteps /\ PStops
              /\ PZone /\ PKnn /\ PGps /\ PFused /\ POrient /\ PSmooth
================================================================================
