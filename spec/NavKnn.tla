-------------------------------- MODULE NavKnn --------------------------------
(***************************************************************************)
(* Fingerprinting: reference point weights from the averaged signals, the  *)
(* reference point triangles, and the position they give.                  *)
(***************************************************************************)
EXTENDS NavWorld

MinVisible == 3
MinRpWeight == "1e-6"
Eps8 == "1e-8"

(* trust in a transmitter grows with its signal strength *)
\* (beyond the signal a metre away: the power it announces, -10 dBm if none)
TxTrust(rssi, pw) == LET p == IF pw \prec "0.00001" THEN "-10.0" ELSE pw
                     IN "1.0" // RPow(RPow("10.0", (RSub(p, rssi)) // "30.0"), "1.8")

KnnWeights(lvl, msrs, pw, diff) ==
  LET trust == [id \in DOMAIN msrs |-> TxTrust(msrs[id], pw[id])]
      total == RSumF(trust)
      tw(id) == trust[id] // total
      vis(r) == DOMAIN r.fp \cap DOMAIN msrs
      pairsOf(r) == LET q == SetToSeq(vis(r)) IN {<<q[i], q[j]>> : i \in 1..Len(q), j \in 1..Len(q)} 
      ordered(r) == LET q == SetToSeq(vis(r)) IN {<<q[ij[1]], q[ij[2]]>> : ij \in {p \in (1..Len(q)) \X (1..Len(q)) : p[1] < p[2]}}
      penD(r) == RSumF([p \in ordered(r) |->
                    RMax(RAbs((RSub(r.fp[p[1]], r.fp[p[2]])) -- (RSub(msrs[p[1]], msrs[p[2]])))
                         ** (RMul(tw(p[1]), tw(p[2]))), MinRpWeight)])
      normD(r) == RSumF([p \in ordered(r) |-> RMul(tw(p[1]), tw(p[2]))])
      penA(r) == RSumF([id \in vis(r) |-> RMax(RAbs(RAdd(r.fp[id], msrs[id])) ** tw(id), MinRpWeight)])
      normA(r) == RSumF([id \in vis(r) |-> tw(id)])
      w(r) == LET pen == IF diff THEN penD(r) ELSE penA(r)
                  nrm == IF diff THEN normD(r) ELSE normA(r)
                  p1 == IF Eps8 \prec nrm THEN pen // nrm ELSE pen
              IN IF Eps8 \prec pen THEN "1.0" // (RSqrt(p1) // Cardinality(vis(r))) ELSE pen
      ok == {i \in 1..Len(lvl.rps) : Cardinality(vis(lvl.rps[i])) >= MinVisible}
  IN [id \in {lvl.rps[i].id : i \in ok} |-> w(lvl.rps[CHOOSE i \in ok : lvl.rps[i].id = id])]

(* Triangulation of the reference points: the triangles of the Delaunay
   triangulation of the points together with the three corners of an
   enclosing super-triangle, without the latter and without edges longer
   than the level. *)
Det3(a, b, c, d, e, f, g, h, i) ==
  RSub(RAdd(RAdd(RMul(RMul(a, e), i), RMul(RMul(b, f), g)), RMul(RMul(d, h), c)),
       RAdd(RAdd(RMul(RMul(d, b), i), RMul(RMul(a, f), h)), RMul(RMul(c, e), g)))
InCircle(a, b, c, p) ==
  LET q(u) == RSub(RAdd(RMul(u.x, u.x), RMul(u.y, u.y)), RAdd(RMul(p.x, p.x), RMul(p.y, p.y)))
      d1 == Det3(a.x, b.x, c.x, a.y, b.y, c.y, 1, 1, 1)
      d2 == Det3(RSub(a.x, p.x), RSub(a.y, p.y), q(a), RSub(b.x, p.x), RSub(b.y, p.y), q(b), RSub(c.x, p.x), RSub(c.y, p.y), q(c))
  IN Eps8 \prec RMul(d1, d2)
SuperCorners(rps) ==
  LET xs == [i \in 1..Len(rps) |-> rps[i].x]
      ys == [i \in 1..Len(rps) |-> rps[i].y]
      x0 == RMinOf(xs) -- "10"
      x1 == RMaxOf(xs) ++ "10"
      y0 == RMinOf(ys) -- "10"
      y1 == RMaxOf(ys) ++ "10"
      dx == x1 -- x0
      dy == y1 -- y0
  IN << [x |-> x0 -- dy, y |-> y0], [x |-> x1 ++ dy, y |-> y0],
        [x |-> RDiv(RAdd(x0, x1), "2"), y |-> y1 ++ RDiv(dx, "2")] >>
Triangles(lvl) ==
  LET n == Len(lvl.rps)
      sup == SuperCorners(lvl.rps)
      r(i) == lvl.rps[i]
      maxedge == RMax(lvl.w, lvl.h)
      short(i, j) == DistP(r(i), r(j)) \preceq maxedge
      corner(q) == /\ short(q[1], q[2]) /\ short(q[2], q[3]) /\ short(q[1], q[3])
                   /\ \A k \in (1..n) \ {q[1], q[2], q[3]} : ~InCircle(r(q[1]), r(q[2]), r(q[3]), r(k))
                   /\ \A k \in 1..3 : ~InCircle(r(q[1]), r(q[2]), r(q[3]), sup[k])
  IN IF n <= 3 THEN {}
     ELSE UNION {UNION {{{i, j, k} : k \in {h \in (j + 1)..n : corner(<<i, j, h>>)}} : j \in (i + 1)..n} : i \in 1..n}

WOf(w, id) == IF id \in DOMAIN w THEN w[id] ELSE "0.0"
WeightedMean(lvl, w, ix) ==
  LET f(g(_)) == RSumF([i \in ix |-> RMul(WOf(w, lvl.rps[i].id), g(lvl.rps[i]))])
      nrm == RSumF([i \in ix |-> WOf(w, lvl.rps[i].id)])
  IN IF nrm \prec "2.220446049250313E-16" THEN <<"0.0", "0.0">>
     ELSE << f(LAMBDA p : p.x) // nrm, f(LAMBDA p : p.y) // nrm >>

TriWeight(lvl, w, t) == RSumF([i \in t |-> WOf(w, lvl.rps[i].id)])
HeaviestTriangle(lvl, w, T) ==
  CHOOSE t \in T : \A u \in T : TriWeight(lvl, w, u) \preceq TriWeight(lvl, w, t)
HeaviestK(lvl, w, k) ==
  {i \in 1..Len(lvl.rps) : lvl.rps[i].id \in DOMAIN w
      /\ Cardinality({j \in DOMAIN w : w[lvl.rps[i].id] \prec w[j]}) < k}

(* transmitters that occur in some fingerprint of the level *)
MappedTx(lvl) == UNION {DOMAIN lvl.rps[i].fp : i \in 1..Len(lvl.rps)}
================================================================================
