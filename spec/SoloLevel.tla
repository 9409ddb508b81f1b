------------------------------- MODULE SoloLevel -------------------------------
(***************************************************************************)
(* The level collection (level_collector.h) asked directly: which levels   *)
(* there are, what is on a level and where, in the level's own metric      *)
(* frame, and whether a path is free.                                      *)
(*   levels - what was added, in order, each in its local frame            *)
(***************************************************************************)
EXTENDS NavWorld

LvInit == [kind |-> "level", levels |-> <<>>, given |-> <<>>]
LvAdd(st, g) == [st EXCEPT !.levels = Append(@, LoadLevel(g)), !.given = Append(@, g)]
\* of levels added under the same name the first one answers
LvIx(st, id) == {i \in DOMAIN st.levels : st.levels[i].id = id}
LvHas(st, id) == LvIx(st, id) # {}
LvOf(st, id) == st.levels[Min(LvIx(st, id))]
LvGiven(st, id) == st.given[Min(LvIx(st, id))]
LvWith(st, tx) == LET q == {i \in DOMAIN st.levels : tx \in DOMAIN st.levels[i].tx} IN IF q = {} THEN <<>> ELSE <<st.levels[Min(q)].id>>

Metre == "1e-5"
SameXY(p, x, y) == Near(p.x, x, Metre) /\ Near(p.y, y, Metre)
LvTxOk(st, ln) ==
  IF ~LvHas(st, ln.level) \/ ln.tx \notin DOMAIN LvOf(st, ln.level).tx THEN ~ln.found
  ELSE LET t == LvOf(st, ln.level).tx[ln.tx] IN
       /\ ln.found /\ SameXY(t, ln.x, ln.y) /\ Near(t.z, ln.z, Metre) /\ REq(t.A, ln.A) /\ REq(t.B, ln.B) /\ t.type = ln.type
RingOk(ring, got) ==
  /\ \A i \in DOMAIN ring : \E j \in DOMAIN got : SameXY(ring[i], got[j][1], got[j][2])
  /\ \A j \in DOMAIN got : \E i \in DOMAIN ring : SameXY(ring[i], got[j][1], got[j][2])
LvLevelOk(st, ln) ==
  IF ~LvHas(st, ln.id) THEN ~ln.found
  ELSE LET l == LvOf(st, ln.id)
           g == LvGiven(st, ln.id)
           at(k) == ToLocal(g.vx[k+1][1], g.vx[k+1][2], l.bind)
           edges == {{RTrunc(g.ed[i][1]), RTrunc(g.ed[i][2])} : i \in 1..Len(g.ed)} IN
       /\ ln.found /\ ln.name = ln.id
       /\ Near(l.bind.lat, ln.bind[1], "1e-9") /\ Near(l.bind.lon, ln.bind[2], "1e-9")
       /\ Near("0", ln.box[1], Metre) /\ Near("0", ln.box[2], Metre) /\ Near(l.w, ln.box[3], Metre) /\ Near(l.h, ln.box[4], Metre)
       /\ Len(ln.areas) = Len(l.areas)
       /\ \A i \in DOMAIN l.areas : /\ RingOk(l.areas[i].outer, ln.areas[i].outer) /\ Len(ln.areas[i].holes) = Len(l.areas[i].holes)
                                    /\ \A j \in DOMAIN l.areas[i].holes : RingOk(l.areas[i].holes[j], ln.areas[i].holes[j])
       /\ Len(ln.rps) = Len(l.rps)
       /\ \A i \in DOMAIN l.rps : /\ ln.rps[i].id = l.rps[i].id /\ SameXY(l.rps[i], ln.rps[i].x, ln.rps[i].y)
                                  /\ DOMAIN l.rps[i].fp = DOMAIN ln.rps[i].fp /\ \A t \in DOMAIN l.rps[i].fp : REq(l.rps[i].fp[t], ln.rps[i].fp[t])
       /\ Len(ln.vx) = Len(g.vx) /\ \A k \in 1..Len(g.vx) : SameXY(at(k - 1), ln.vx[k][1], ln.vx[k][2])
       /\ Len(ln.ed) = Cardinality(edges) /\ {{ln.ed[i][1], ln.ed[i][2]} : i \in 1..Len(ln.ed)} = edges
       /\ \A i \in 1..Len(ln.ed) : ln.ed[i][1] <= ln.ed[i][2]
LvRpOk(st, ln) ==
  LET q == IF LvHas(st, ln.level) THEN {i \in 1..Len(LvOf(st, ln.level).rps) : LvOf(st, ln.level).rps[i].id = ln.rp} ELSE {} IN
  IF q = {} THEN ~ln.found ELSE LET r == LvOf(st, ln.level).rps[Min(q)] IN ln.found /\ SameXY(r, ln.x, ln.y)

\* a path is free when it stays in one area's outer ring and meets no hole of any area
Orient3(a, b, c) == RSub(RMul(RSub(b.x, a.x), RSub(c.y, a.y)), RMul(RSub(b.y, a.y), RSub(c.x, a.x)))
Opposite(a, b, c, d) == RLt(RMul(Orient3(a, b, c), Orient3(a, b, d)), "0")
Crossing(a, b, c, d) == Opposite(a, b, c, d) /\ Opposite(c, d, a, b)
PathMeets(path, ring) == \E k \in 1..(Len(path) - 1) : \E i \in DOMAIN ring : Crossing(path[k], path[k+1], ring[i], ring[(i % Len(ring)) + 1])
Blocked(lvl, path) ==
  \/ ~\E i \in DOMAIN lvl.areas : InRing(path[1], lvl.areas[i].outer) /\ ~PathMeets(path, lvl.areas[i].outer)
  \/ \E i \in DOMAIN lvl.areas : \E j \in DOMAIN lvl.areas[i].holes : InRing(path[1], lvl.areas[i].holes[j]) \/ PathMeets(path, lvl.areas[i].holes[j])

\* a graph takes the edges between vertices it has, each once, and refuses the others
EdgeFits(n, e) == \A k \in 1..2 : e[k] >= 0 /\ e[k] < n
LvGraphOk(ln) ==
  LET edges == {{e[1], e[2]} : e \in {ln.given[i] : i \in {i \in 1..Len(ln.given) : EdgeFits(ln.n, ln.given[i])}}} IN
  /\ ln.refused = [i \in 1..Len(ln.given) |-> ~EdgeFits(ln.n, ln.given[i])]
  /\ Len(ln.ed) = Cardinality(edges) /\ {{ln.ed[i][1], ln.ed[i][2]} : i \in 1..Len(ln.ed)} = edges
  /\ ln.has = [i \in 1..ln.n |-> i - 1]

HeardOn(lvl, ids) == SelectSeq(ids, LAMBDA t : t \in DOMAIN lvl.tx)
Frame(ln) == [lat |-> ln.bind[1], lon |-> ln.bind[2]]
LvOk(st, ln) ==
  CASE ln.op = "levels" -> ln.ids = [i \in DOMAIN st.levels |-> st.levels[i].id]
    [] ln.op = "has" -> ln.yes = LvHas(st, ln.id)
    [] ln.op = "find" -> ln.level = LvWith(st, ln.tx)
    [] ln.op = "level" -> LvLevelOk(st, ln)
    [] ln.op = "tx" -> LvTxOk(st, ln)
    [] ln.op = "rp" -> LvRpOk(st, ln)
    [] ln.op = "graph" -> LvGraphOk(ln)
    [] ln.op = "hear" -> ln.heard = HeardOn(LvOf(st, ln.level), ln.ids)
    [] ln.op = "path" -> ln.blocked = Blocked(LvOf(st, ln.level), ln.path)
    [] ln.op = "local" -> LET p == ToLocal(ln.lat, ln.lon, Frame(ln)) IN NearRel(p.x, ln.x, "1e-7") /\ NearRel(p.y, ln.y, "1e-7")
    [] ln.op = "geo" -> LET p == ToGeo(ln.x, ln.y, Frame(ln)) IN Near(p.lat, ln.lat, "1e-9") /\ Near(p.lon, ln.lon, "1e-9")
LvSteps(st, ln) == IF ln.op = "add" THEN {LvAdd(st, ln.level)} ELSE IF LvOk(st, ln) THEN {st} ELSE {}
LvExpected(st, ln) ==
  CASE ln.op \in {"level"} -> <<"level", IF LvHas(st, ln.id) THEN LvOf(st, ln.id) ELSE <<>>>>
    [] ln.op \in {"tx", "rp"} -> <<"level", IF LvHas(st, ln.level) THEN LvOf(st, ln.level) ELSE <<>>>>
    [] ln.op = "path" -> <<"blocked", Blocked(LvOf(st, ln.level), ln.path), LvOf(st, ln.level).areas>>
    [] ln.op = "hear" -> <<"heard", HeardOn(LvOf(st, ln.level), ln.ids)>>
    [] ln.op = "find" -> <<"level", LvWith(st, ln.tx)>>
    [] ln.op = "local" -> <<ToLocal(ln.lat, ln.lon, Frame(ln))>>
    [] ln.op = "geo" -> <<ToGeo(ln.x, ln.y, Frame(ln))>>
    [] OTHER -> <<"levels", [i \in DOMAIN st.levels |-> st.levels[i].id]>>

\* every level begins at its binding point, and local and geodetic coordinates are inverse to each other in it
PLvFrame(st) == \A i \in DOMAIN st.levels : LET l == st.levels[i] IN
  /\ "0" \preceq l.w /\ "0" \preceq l.h
  /\ LET q == ToGeo(l.w, l.h, l.bind)  p == ToLocal(q.lat, q.lon, l.bind) IN Near(p.x, l.w, "1e-4") /\ Near(p.y, l.h, "1e-4")
================================================================================
