-------------------------------- MODULE NavGps --------------------------------
(***************************************************************************)
(* Outdoor positioning: which GPS fixes are accepted, on which level, and  *)
(* how long an accepted fix stays valid.                                   *)
(***************************************************************************)
EXTENDS NavWorld

InitGps == [last |-> NoPos, sig |-> <<>>]

(* A window of earlier fixes must be full, and the new fix within three
   standard deviations (plus a margin) of their mean on both axes. *)
SigmaOk(S, buf, p) ==
  /\ Len(buf) = S.sigmaFilterWindow
  /\ LET n == Len(buf)
         ax(g(_)) == LET mean == RSum([i \in 1..n |-> g(buf[i])]) // n
                         var == RSum([i \in 1..n |-> RMul(RSub(g(buf[i]), mean), RSub(g(buf[i]), mean))]) // n
                     IN RAbs(RSub(mean, g(p))) \preceq (RMul("3.0", RSqrt(var)) ++ S.sigmaFilterDelta)
     IN ax(LAMBDA u : u.x) /\ ax(LAMBDA u : u.y)
SigmaPush(S, buf, p) == Append(IF Len(buf) = S.sigmaFilterWindow THEN Tail(buf) ELSE buf, p)

GpsStep(S, W, g, ts, sensor, nmea, indoorBefore) ==
  LET fix == sensor # <<>> /\ sensor[1].type = "LOC"
      dev == IF fix THEN RMax(sensor[1].z, S.minGpsDeviation) ELSE "0.0"
      tooPoor == fix /\ S.maxGpsDeviation \prec dev
      sig0 == IF indoorBefore \/ tooPoor THEN <<>> ELSE g.sig
      onLevel(i) == ToLocal(sensor[1].x, sensor[1].y, W.levels[i].bind)
      covers == {i \in LevelIx(W) : S.useGpsOutsideMap \/ InBox(onLevel(i), W.levels[i])}
      sats == IF nmea.sn = 1 THEN nmea.sats ELSE 0
      lvl == W.levels[Min(covers)]
      p == onLevel(Min(covers))
      pos == MkPos(p.x, p.y, lvl.id, dev, ts, "GNSS")
      filtering == S.useGpsSigmaFilter /\ ts # g.last.ts
      sig1 == IF filtering THEN SigmaPush(S, sig0, p) ELSE sig0
      rejected == (filtering /\ ~SigmaOk(S, sig0, p)) \/ (sats # 0 /\ sats < S.minNumSats)
      held == IF S.gpsValidTimeWindowSec \prec Sec(ts - g.last.ts) THEN NoPos ELSE g.last
  IN IF ~fix THEN [st |-> [g EXCEPT !.sig = sig0], pos |-> held]
     ELSE IF tooPoor \/ covers = {} THEN [st |-> [g EXCEPT !.sig = sig0], pos |-> NoPos]
     ELSE IF rejected THEN [st |-> [g EXCEPT !.sig = sig1], pos |-> NoPos]
     ELSE [st |-> [last |-> pos, sig |-> sig1], pos |-> pos]
================================================================================
