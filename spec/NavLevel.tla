------------------------------- MODULE NavLevel -------------------------------
(***************************************************************************)
(* Level (floor) estimation: detection from one averaged measurement set,  *)
(* hysteresis over successive detections, and the barometer gate.          *)
(***************************************************************************)
EXTENDS NavRadio, NavKnn

(* index (in load order) of the first level with the largest score above lo; 0 if none *)
ArgMaxFirst(n, score(_), cand(_), lo) ==
  LET ok == {i \in 1..n : cand(i) /\ lo \prec score(i)}
      best == {i \in ok : \A j \in ok : ~(score(i) \prec score(j))}
  IN IF best = {} THEN 0 ELSE Min(best)

TxScore(S, lvl, msrs) ==
  LET mine == OnLevel(lvl, msrs)
      n == Cardinality(DOMAIN mine)
      rssi == RSumF(mine) // n
      a == IF S.useTxPower THEN RSumF([id \in DOMAIN mine |-> lvl.tx[id].A]) // n ELSE "0.0"
      weight == "1.0" ++ (("0.1" ** n) // Cardinality(DOMAIN msrs))
  IN (rssi ++ a) // weight

MapScore(lvl, msrs) ==
  LET seen(id) == {i \in 1..Len(lvl.rps) : id \in DOMAIN lvl.rps[i].fp}
      ids == {id \in DOMAIN msrs : seen(id) # {}}
      one(id) == RSumF([i \in seen(id) |-> "1.0" //
                     (RAbs(RAbs(msrs[id]) -- RAbs(lvl.rps[i].fp[id])) ++ "0.1")])
                 // Cardinality(seen(id))
  IN RSumF([id \in ids |-> one(id)]) ** Cardinality(ids)

BestRpScore(lvl, msrs, pw) ==
  LET w == KnnWeights(lvl, msrs, pw, TRUE) IN
  RMaxOf(<<"0.0">> \o [i \in 1..Cardinality(DOMAIN w) |-> w[SetToSeq(DOMAIN w)[i]]])

UsesRadiomap(S) == S.useRadiomap \/ S.useAlgorithm = "KNN"

DetectLevel(S, W, msrs, pw) ==
  LET n == Len(W.levels)
      score(i) == IF UsesRadiomap(S)
                  THEN IF S.useBestRefPointLevel THEN BestRpScore(W.levels[i], msrs, pw) ELSE MapScore(W.levels[i], msrs)
                  ELSE TxScore(S, W.levels[i], msrs)
      cand(i) == UsesRadiomap(S) \/ DOMAIN OnLevel(W.levels[i], msrs) # {}
      k == IF DOMAIN msrs = {} THEN 0
           ELSE ArgMaxFirst(n, LAMBDA i : score(i), LAMBDA i : cand(i), IF UsesRadiomap(S) THEN "0.0" ELSE "-1000.0")
  IN IF k = 0 THEN "" ELSE W.levels[k].id

--------------------------------------------------------------------------------
(* Hysteresis: the level changes only after it has been detected more than
   four times since the counters were last reset. *)
SwitchCount == 4
InitHist == [cur |-> "", cnt |-> [l \in {} |-> 0]]
Count(h, l) == IF l \in DOMAIN h.cnt THEN h.cnt[l] ELSE 0
HistStep(h, det) ==
  IF det = "" THEN h
  ELSE LET cur == IF h.cur = "" THEN det ELSE h.cur
           n == Count(h, det) + 1
       IN IF n > SwitchCount
          THEN [cur |-> det, cnt |-> (det :> SwitchCount)]
          ELSE [cur |-> cur, cnt |-> (det :> n) @@ h.cnt]

--------------------------------------------------------------------------------
(* Barometer gate: once both pressure windows are full, a level change needs
   a pressure difference worth more than two metres. *)
Chunk == 100
InitBar == [init |-> FALSE, last |-> "", new |-> <<>>, old |-> <<>>]
Mean(q) == RSum(q) // Len(q)
PascalToM == RNeg((RMul("8.31", "288.0")) // (RMul("9.8", "0.0289")))
HeightDelta(new, old) == RAbs(PascalToM ** RLn((RMul("100.0", Mean(new))) // (RMul("100.0", Mean(old)))))
BarPush(b, p) ==
  LET old1 == IF Len(b.old) > Chunk THEN Tail(b.old) ELSE b.old IN
  IF Len(b.new) > Chunk
  THEN [b EXCEPT !.old = Append(old1, Head(b.new)), !.new = Append(Tail(b.new), p)]
  ELSE [b EXCEPT !.old = old1, !.new = Append(b.new, p)]
BarStep(b, lvl, sensor) ==
  IF ~b.init THEN [st |-> [b EXCEPT !.init = TRUE], lvl |-> lvl]
  ELSE LET b1 == IF sensor # <<>> /\ sensor[1].type = "BAR" THEN BarPush(b, sensor[1].x) ELSE b
           full == Len(b1.new) > Chunk /\ Len(b1.old) >= Chunk
           valid == "2.220446049250313E-16" \prec Mean(b1.new) /\ "2.220446049250313E-16" \prec Mean(b1.old)
           last == IF ~full THEN lvl
                   ELSE IF b1.last = lvl THEN b1.last
                   ELSE IF valid /\ "2.0" \prec HeightDelta(b1.new, b1.old) THEN lvl ELSE b1.last
       IN [st |-> [b1 EXCEPT !.last = last], lvl |-> last]

InitLev == [hist |-> InitHist, bar |-> InitBar]
LevelStep(S, W, lev, ex, sensor) ==
  LET h == HistStep(lev.hist, DetectLevel(S, W, ex.out, ex.pw))
      b == BarStep(lev.bar, h.cur, sensor)
  IN IF S.useBarometer THEN [st |-> [hist |-> h, bar |-> b.st], lvl |-> b.lvl]
                       ELSE [st |-> [lev EXCEPT !.hist = h], lvl |-> h.cur]
================================================================================
