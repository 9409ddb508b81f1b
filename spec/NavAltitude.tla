------------------------------ MODULE NavAltitude ------------------------------
(***************************************************************************)
(* The reported altitude: from the distances of the window's transmitters  *)
(* on the reported level.  Nothing is kept from one message to the next.   *)
(***************************************************************************)
EXTENDS NavRadio

\* distance to each transmitter of the window: ranged by the device (less its
\* offset), or from the signal by the transmitter's own path loss
Ranges(S, W, ex) ==
  [id \in DOMAIN ex.out |->
     IF ex.rtt[id] THEN ex.dist[id] -- S.wiFiRttOffset
     ELSE IF TxKnown(W, id)
          THEN LET t == TxLevel(W, id).tx[id] IN RExp((RSub(t.A, ex.out[id])) // t.B)
          ELSE ex.dist[id]]

Sq(v) == RMul(v, v)
Gap(a, b) == RSqrt(RSum(<<Sq(RSub(a.x, b.x)), Sq(RSub(a.y, b.y)), Sq(RSub(a.z, b.z))>>))

(* From the nearest outwards, a transmitter that has not been dropped itself
   drops every one whose sphere does not reach its own. *)
RECURSIVE Sieve(_, _, _, _)
Sieve(lvl, d, q, bad) ==
  IF q = <<>> THEN bad
  ELSE LET a == Head(q)
           far == {b \in DOMAIN d : RAdd(d[a], d[b]) \prec Gap(lvl.tx[a], lvl.tx[b])}
       IN Sieve(lvl, d, Tail(q), IF a \in bad THEN bad ELSE bad \cup far)
Nearest(d) == SortSeq(SetToSeq(DOMAIN d), LAMBDA a, b : d[a] \prec d[b])
Consistent(lvl, d) == LET bad == Sieve(lvl, d, Nearest(d), {}) IN [id \in DOMAIN d \ bad |-> d[id]]

Det3x3(a, b, c) ==   \* rows
  RAdd(RSub(RMul(a[1], RSub(RMul(b[2], c[3]), RMul(b[3], c[2]))), RMul(a[2], RSub(RMul(b[1], c[3]), RMul(b[3], c[1])))),
       RMul(a[3], RSub(RMul(b[1], c[2]), RMul(b[2], c[1]))))

(* Plan position by linearised least squares relative to the nearest
   transmitter; ok is false where the transmitters do not determine it. *)
Plan(lvl, d) ==
  LET q == Nearest(d)
      p == lvl.tx[q[1]]
      n == Len(q) - 1
      t(i) == lvl.tx[q[i + 1]]
      m(i) == <<RSub(t(i).x, p.x), RSub(t(i).y, p.y), RSub(t(i).z, p.z)>>
      b(i) == RDiv(RAdd(RSub(Sq(d[q[1]]), Sq(d[q[i + 1]])), Sq(Gap(t(i), p))), "2")
      N(j, k) == RSum([i \in 1..n |-> RMul(m(i)[j], m(i)[k])])
      c(j) == RSum([i \in 1..n |-> RMul(m(i)[j], b(i))])
      row(j) == <<N(j, 1), N(j, 2), N(j, 3)>>
      flat == \A i \in 1..n : REq(m(i)[3], "0")
      det == Det3x3(row(1), row(2), row(3))
      det2 == RSub(RMul(N(1, 1), N(2, 2)), Sq(N(1, 2)))
      x3 == RDiv(Det3x3(<<c(1), N(1, 2), N(1, 3)>>, <<c(2), N(2, 2), N(2, 3)>>, <<c(3), N(3, 2), N(3, 3)>>), det)
      y3 == RDiv(Det3x3(<<N(1, 1), c(1), N(1, 3)>>, <<N(2, 1), c(2), N(2, 3)>>, <<N(3, 1), c(3), N(3, 3)>>), det)
      x2 == RDiv(RSub(RMul(c(1), N(2, 2)), RMul(c(2), N(1, 2))), det2)
      y2 == RDiv(RSub(RMul(c(2), N(1, 1)), RMul(c(1), N(1, 2))), det2)
      size == RMul(RMul(N(1, 1), N(2, 2)), IF flat THEN "1" ELSE N(3, 3))
  IN [ok |-> RMul("1e-5", size) \prec (IF flat THEN det2 ELSE det),
      x |-> p.x ++ (IF flat THEN x2 ELSE x3), y |-> p.y ++ (IF flat THEN y2 ELSE y3)]

(* <<>>: not determined (any value is accepted); <<v>>: the altitude *)
AltitudeOf(S, W, lvlId, ex) ==
  LET lvl == LevelOf(W, lvlId)
      r == Ranges(S, W, ex)
      d == Consistent(lvl, [id \in {i \in DOMAIN r : LevelHasTx(lvl, i)} |-> r[id]])
      p == Plan(lvl, d)
      left(id) == RSub(Sq(d[id]), RAdd(Sq(RSub(p.x, lvl.tx[id].x)), Sq(RSub(p.y, lvl.tx[id].y))))
      above == {id \in DOMAIN d : "0" \preceq left(id)}
      unsure == \E id \in DOMAIN d : RAbs(left(id)) \preceq RMul("1e-6", RAdd("1", Sq(d[id])))
  IN IF ~S.useAltitude \/ lvlId = "" THEN <<"0">>
     ELSE IF Cardinality(DOMAIN d) < 4 THEN <<"0">>
     ELSE IF ~p.ok \/ unsure THEN <<>>
     ELSE IF above = {} THEN <<"0">>
     ELSE <<RSumF([id \in above |-> RDiv(RAdd(lvl.tx[id].z, RSqrt(left(id))), d[id])])>>
================================================================================
