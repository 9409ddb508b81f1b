------------------------------- MODULE NavIndoor -------------------------------
(***************************************************************************)
(* Indoor position estimators: nearest transmitter (zones) and             *)
(* fingerprinting (KNN).  pos is the estimate, status the return status.   *)
(***************************************************************************)
EXTENDS NavKnn, NavRadio

ZonePrecision(S, lvl, rssi) ==
  RSqrt(RExp((RSub(LevelA(S, lvl.id), rssi)) // LevelB(S, lvl.id))) ++ "1.0"
ZoneStep(S, lvl, ts, msrs) ==
  LET mine == OnLevel(lvl, msrs)
      best == CHOOSE id \in DOMAIN mine : \A o \in DOMAIN mine : mine[o] \preceq mine[id]
  IN IF DOMAIN mine = {} THEN [pos |-> NoPos, status |-> 4]
     ELSE [pos |-> MkPos(lvl.tx[best].x, lvl.tx[best].y, lvl.id, ZonePrecision(S, lvl, mine[best]), ts, "INDOOR"),
           status |-> 0]

KnnStep(S, held, lvl, tris, ts, msrs, pw) ==
  LET valid == [id \in DOMAIN msrs \cap MappedTx(lvl) |-> msrs[id]]
      w == KnnWeights(lvl, valid, pw, S.useDiffMode)
      weighted == {t \in tris : \E i \in t : lvl.rps[i].id \in DOMAIN w}
      p == IF S.useTriangles THEN WeightedMean(lvl, w, HeaviestTriangle(lvl, w, tris))
                             ELSE WeightedMean(lvl, w, HeaviestK(lvl, w, S.kNeighbors))
      none(status) == [pos |-> held, status |-> status]
  IN IF DOMAIN msrs = {} \/ Cardinality(DOMAIN valid) < S.minNumOfMeasurementsForPositionCalculation THEN none(4)
     ELSE IF DOMAIN w = {} THEN none(4)
     ELSE IF S.useTriangles /\ tris = {} THEN none(-1)
     ELSE IF S.useTriangles /\ weighted = {} THEN none(4)
     ELSE [pos |-> MkPos(p[1], p[2], lvl.id, "1.0", ts, "INDOOR"), status |-> 0]

(* held: the fingerprinting estimator repeats its last estimate *)
IndoorStep(S, T, held, lvl, ts, ex) ==
  IF S.useAlgorithm = "KNN"
  THEN LET r == KnnStep(S, held, lvl, T[lvl.id], ts, ex.out, ex.pw) IN [st |-> r.pos, pos |-> r.pos, status |-> r.status]
  ELSE LET r == ZoneStep(S, lvl, ts, ex.out) IN [st |-> held, pos |-> r.pos, status |-> r.status]
================================================================================
