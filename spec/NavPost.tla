-------------------------------- MODULE NavPost --------------------------------
(***************************************************************************)
(* From estimates to the reported position: choice or fusion of the indoor *)
(* and outdoor estimate, smoothing, standing still, graph projection,      *)
(* fitting into the level and rounding.                                    *)
(***************************************************************************)
EXTENDS NavWorld

InitFuse == [ind |-> NoPos, outd |-> NoPos, indDev |-> "0.0", outDev |-> "0.0"]

(* running deviation of a source, widened by walking since its last estimate *)
NextDev(S, old, dev, new) ==
  LET prior == IF old.e THEN S.priorDeviation
               ELSE RMin(S.priorDeviation, RAdd(dev, RMul(S.averageMovSpeed, Sec(new.ts - old.ts))))
  IN RDiv(RAdd(prior, new.dev), "2.0")
Observe(S, f, ind, outd) ==
  [ ind |-> IF ind.e THEN f.ind ELSE ind, indDev |-> IF ind.e THEN f.indDev ELSE NextDev(S, f.ind, f.indDev, ind),
    outd |-> IF outd.e THEN f.outd ELSE outd, outDev |-> IF outd.e THEN f.outDev ELSE NextDev(S, f.outd, f.outDev, outd) ]

(* f: state after Observe; ind/outd: the estimates of this message *)
Fuse(S, f, now, ind, outd, status) ==
  LET age(p) == IF now >= p.ts THEN Sec(now - p.ts) ELSE "0.0"
      iDev == RAdd(RMul(S.averageMovSpeed, age(f.ind)), f.indDev)
      oDev == RAdd(RMul(S.averageMovSpeed, age(f.outd)), f.outDev)
      reach == RAdd(RAdd(f.ind.dev, f.outd.dev), S.fuseGpsBorderM)
      mix(a, b) == RDiv(RAdd(RMul(a, oDev), RMul(b, iDev)), RAdd(oDev, iDev))
  IN CASE S.useInstantGpsPosition /\ ~outd.e -> outd
       [] ~(S.useInstantGpsPosition /\ ~outd.e) /\ S.preferIndoorSolution /\ ~ind.e /\ status = 0 -> ind
       [] OTHER ->
          IF ~S.useGps \/ f.outd.e THEN f.ind
          ELSE IF f.ind.e THEN f.outd
          ELSE IF S.positionIsTooOldSec \prec age(f.ind) THEN f.outd
          ELSE IF S.positionIsTooOldSec \prec age(f.outd) THEN f.ind
          ELSE IF S.fuseGps /\ DistP(f.ind, f.outd) \prec reach
          THEN [f.ind EXCEPT !.ts = IF f.ind.ts > f.outd.ts THEN f.ind.ts ELSE f.outd.ts,
                             !.x = mix(f.ind.x, f.outd.x), !.y = mix(f.ind.y, f.outd.y),
                             !.dev = RMin(iDev, oDev), !.prov = "FUSED"]
          ELSE IF iDev \prec oDev THEN f.ind ELSE f.outd

--------------------------------------------------------------------------------
(* alpha-beta smoother *)
InitAb == [p |-> NoPos, vx |-> "0.0", vy |-> "0.0", called |-> FALSE]
Alpha(S) == LET s == Clamp(S.smoothing, "0.0", "1.0") IN RAdd(RMul("0.1", s), RMul("0.9", RSub("1.0", s)))
AbReset(ab, p) == [ab EXCEPT !.p = p, !.vx = "0.0", !.vy = "0.0"]
AbStep(S, lvl, ab, p) ==
  LET t == Sec(p.ts - ab.p.ts)
      a == IF S.useAccuracyForSmoothing
           THEN Clamp(RDiv(ab.p.dev, RAdd(RAdd(p.dev, ab.p.dev), "0.5")), "0.1", "0.9") ELSE Alpha(S)
      b == RDiv(RMul(a, a), RSub("2.0", a))
      xp == RAdd(ab.p.x, RMul(ab.vx, t))
      yp == RAdd(ab.p.y, RMul(ab.vy, t))
      vx == RAdd(ab.vx, RMul(RDiv(b, t), RSub(p.x, xp)))
      vy == RAdd(ab.vy, RMul(RDiv(b, t), RSub(p.y, yp)))
      xs == RAdd(xp, RMul(a, RSub(p.x, xp)))
      ys == RAdd(yp, RMul(a, RSub(p.y, yp)))
      restart == \/ ~ab.called
                 \/ "10" \prec t
                 \/ S.useSpeedConstraint /\ "4" \prec Hyp(vx, vy)
                 \/ S.useBarriers /\ ~InAreas([x |-> xs, y |-> ys], lvl.areas)
      q == [p EXCEPT !.x = xs, !.y = ys]
      dev == IF S.useAccuracyForSmoothing
             THEN RAdd(RMul(RSub("1.0", a), RAdd(p.dev, RMul(t, Hyp(vx, vy)))), RMul(a, p.dev)) ELSE p.dev
      q1 == [q EXCEPT !.dev = dev]
  IN IF p.ts <= ab.p.ts THEN [st |-> ab, pos |-> ab.p]
     ELSE IF restart THEN [st |-> [p |-> p, vx |-> "0.0", vy |-> "0.0", called |-> TRUE], pos |-> p]
     ELSE [st |-> [p |-> q1, vx |-> vx, vy |-> vy, called |-> TRUE], pos |-> q1]

(* sliding least squares line per axis *)
InitFit == [t |-> <<>>, v |-> <<>>, c0 |-> "0.0", c1 |-> "0.0", out |-> "0.0"]
InitLs == [called |-> FALSE, start |-> NEVER, x |-> InitFit, y |-> InitFit]
FitLine(t, v) ==
  LET n == Len(t)
      st == RSum(t)
      sv == RSum(v)
      stt == RSum([i \in 1..n |-> RMul(t[i], t[i])])
      stv == RSum([i \in 1..n |-> RMul(t[i], v[i])])
      d == RSub(RMul(n, stt), RMul(st, st))
      c1 == RDiv(RSub(RMul(n, stv), RMul(st, sv)), d)
  IN <<RDiv(RSub(sv, RMul(c1, st)), n), c1>>
FitAdd(S, f, t, v) ==
  LET f0 == IF f.v = <<>> THEN [f EXCEPT !.c0 = "0.0", !.c1 = "0.0"] ELSE f
      fresh == f.v = <<>> \/ (~REq(f.v[Len(f.v)], v) /\ ~REq(f.t[Len(f.t)], t))
      t1 == Append(f.t, t)
      keep == {i \in 1..Len(t1) : RSub(t, t1[i]) \preceq S.sigAveragingTime}
      lo == Min(keep)
      t2 == SubSeq(t1, lo, Len(t1))
      v2 == SubSeq(Append(f.v, v), lo, Len(t1))
      c == FitLine(t2, v2)
  IN IF ~fresh THEN f0
     ELSE IF Len(t2) > 1 THEN [f0 EXCEPT !.t = t2, !.v = v2, !.c0 = c[1], !.c1 = c[2]]
     ELSE [f0 EXCEPT !.t = t2, !.v = v2]
FitPredict(S, f, t) ==
  LET line == RAdd(f.c0, RMul(f.c1, RSub(t, S.sigWindowShift)))
      w == Clamp(S.smoothing, "0.0", "1.0")
      out == IF Len(f.v) = 1 THEN f.v[1] ELSE RAdd(RMul(line, w), RMul(f.out, RSub("1.0", w)))
  IN [f EXCEPT !.out = out]
FitClear(f) == [f EXCEPT !.t = <<>>, !.v = <<>>]
LsReset(ls, p) == [ls EXCEPT !.start = p.ts, !.x = FitClear(ls.x), !.y = FitClear(ls.y)]
LsStep(S, lvl, ls, p) ==
  LET t == Sec(p.ts - ls.start)
      fx == FitPredict(S, FitAdd(S, ls.x, t, p.x), t)
      fy == FitPredict(S, FitAdd(S, ls.y, t, p.y), t)
      blocked == S.useBarriers /\ ~InAreas([x |-> fx.out, y |-> fy.out], lvl.areas)
  IN IF ~ls.called THEN [st |-> [ls EXCEPT !.called = TRUE, !.start = p.ts], pos |-> p]
     ELSE IF blocked THEN [st |-> [ls EXCEPT !.start = p.ts, !.x = FitClear(fx), !.y = FitClear(fy)], pos |-> p]
     ELSE [st |-> [ls EXCEPT !.x = fx, !.y = fy], pos |-> [p EXCEPT !.x = fx.out, !.y = fy.out]]

(* interpolation between the two latest positions, one position late *)
InitTs == [prev |-> NoPos, next |-> NoPos]
TsStep(s, p, now) ==
  LET shifted == [prev |-> s.next, next |-> p]
      s1 == IF p.ts > s.next.ts THEN shifted ELSE s
      act == now - s1.next.ts
      kept == s1.next.ts - s1.prev.ts
      mix(n, o) == RDiv(RAdd(RMul(n, act), RMul(o, kept - act)), kept)
  IN IF now < p.ts THEN [st |-> s, pos |-> p]
     ELSE IF s.prev.lvl # p.lvl \/ s.next.lvl # p.lvl THEN [st |-> [prev |-> p, next |-> p], pos |-> p]
     ELSE IF s.prev.e \/ s.next.e \/ p.e THEN [st |-> shifted, pos |-> p]
     ELSE IF kept = 0 THEN [st |-> s1, pos |-> s1.next]
     ELSE IF act > kept THEN [st |-> s1, pos |-> p]
     ELSE [st |-> s1, pos |-> [s1.next EXCEPT !.x = mix(s1.next.x, s1.prev.x), !.y = mix(s1.next.y, s1.prev.y), !.ts = now]]

--------------------------------------------------------------------------------
(* nearest point of the walk graph *)
OnSegment(e, p) ==
  LET dx == RSub(e.v.x, e.u.x)
      dy == RSub(e.v.y, e.u.y)
      ab == RAdd(RMul(dx, dx), RMul(dy, dy))
      ao == RAdd(RMul(RSub(p.x, e.u.x), dx), RMul(RSub(p.y, e.u.y), dy))
      k == IF "1e-8" \prec ab THEN Clamp(RDiv(ao, ab), "0.0", "1.0") ELSE "0.0"
  IN [x |-> RAdd(e.u.x, RMul(k, dx)), y |-> RAdd(e.u.y, RMul(k, dy))]
OnGraph(lvl, p) ==
  IF Len(lvl.edges) = 0 THEN [x |-> p.x, y |-> p.y]
  ELSE LET q == [i \in 1..Len(lvl.edges) |-> OnSegment(lvl.edges[i], p)]
           best == {i \in DOMAIN q : \A j \in DOMAIN q : DistP(q[i], p) \preceq DistP(q[j], p)}
       IN q[Min(best)]
Cm(v) == RDiv(RFloor(RMul(v, "100")), "100")
Finish(S, lvl, p) ==
  LET g == OnGraph(lvl, p)
      p1 == IF S.useGraphProjection /\ DistP(g, p) \prec S.graphProjDist THEN [p EXCEPT !.x = g.x, !.y = g.y] ELSE p
      x == Clamp(p1.x, "0.0", lvl.w)
      y == Clamp(p1.y, "0.0", lvl.h)
  IN [raw |-> <<x, y>>] @@ [p1 EXCEPT !.x = Cm(x), !.y = Cm(y)]     \* raw: before it is rounded down

InitPost == [fuse |-> InitFuse, ab |-> InitAb, ls |-> InitLs, ts |-> InitTs,
             last |-> NoPos, lastStep |-> NEVER, lastUpd |-> NEVER]

(* p: fused position of this message *)
Process(S, lvl, o, p, now, lastMotion) ==
  LET o1 == IF lastMotion > NEVER THEN [o EXCEPT !.lastStep = lastMotion] ELSE o
      refuse == p.e \/ (~S.useGpsOutsideMap /\ ~InBox(p, lvl)) \/ now - p.ts >= S.deadMs
      anew == o1.last.lvl # p.lvl
      ab == AbStep(S, lvl, IF anew THEN AbReset(o1.ab, p) ELSE o1.ab, p)
      ls == LsStep(S, lvl, IF anew THEN LsReset(o1.ls, p) ELSE o1.ls, p)
      p1 == IF ~S.useSmoothing THEN p ELSE IF S.useAbFilter THEN ab.pos ELSE ls.pos
      ts == TsStep(o1.ts, p1, now)
      p2 == IF S.useTimeSmoothing THEN ts.pos ELSE p1
      standing == S.useStops /\ o1.lastStep > NEVER /\ now - o1.lastStep >= S.stopDetMs
      take == ~standing \/ (now - o1.lastUpd > S.stopUpdMs
                            /\ (o1.last.e \/ DistP(o1.last, p2) \prec S.useStopsDistanceThresholdM))
      p3 == IF ~take THEN o1.last
            ELSE IF ~standing /\ p2.prov = "INDOOR" THEN [p2 EXCEPT !.dev = o1.fuse.ind.dev] ELSE p2
      out == Finish(S, lvl, [p3 EXCEPT !.ts = now])
  IN IF refuse THEN [st |-> o1, pos |-> NoPos]
     ELSE [st |-> [o1 EXCEPT !.last = out,
                             !.lastUpd = IF standing /\ take THEN now ELSE o1.lastUpd,
                             !.ab = IF S.useSmoothing /\ S.useAbFilter THEN ab.st ELSE o1.ab,
                             !.ls = IF S.useSmoothing /\ ~S.useAbFilter THEN ls.st ELSE o1.ls,
                             !.ts = IF S.useTimeSmoothing THEN ts.st ELSE o1.ts],
           pos |-> out]
================================================================================
