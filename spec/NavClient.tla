------------------------------- MODULE NavClient -------------------------------
(***************************************************************************)
(* The navigation client: one call navigate(batch) takes the messages of   *)
(* the batch in order; a message older than an accepted one of the same    *)
(* batch is skipped; every other message goes through                      *)
(*   admission -> motion -> radio window -> level -> GPS -> indoor         *)
(*   -> fusion -> postprocessing -> report                                 *)
(* and yields exactly one report.  Client(k) is one instance; instances    *)
(* share nothing but the (read-only) world.                                *)
(***************************************************************************)
EXTENDS NavRadio, NavLevel, NavMotion, NavGps, NavIndoor, NavPost, NavAltitude

OK == 0
ERROR == -1
NO_SOLUTION == 4
NO_LEVEL == 30

InitClient == [ radio |-> InitRadio, nmea |-> [sn |-> 0, sats |-> 0], motion |-> InitMotion,
                lev |-> InitLev, gps |-> InitGps, held |-> NoPos, post |-> InitPost,
                indoorBefore |-> FALSE, pos |-> NoPos ]

(* triangles per level, computed once per client *)
ClientTriangles(S, W) == [id \in {W.levels[i].id : i \in LevelIx(W)} |->
                            IF S.useAlgorithm = "KNN" /\ S.useTriangles THEN Triangles(LevelOf(W, id)) ELSE {}]

EmptyReport(status) == [status |-> status, level |-> "", x |-> "0.0", y |-> "0.0", r |-> "0.0", ori |-> "0.0", alt |-> <<"0">>, prov |-> "NONE", grid |-> FALSE, raw |-> <<>>]

(* The whole effect of one message: next client state, report, debug state. *)
MessageStep(S, W, T, c, m) ==
  LET now == m.ts
      radio0 == IF m.k = "r" /\ Admitted(S, W, m) THEN AddRadio(c.radio, m) ELSE c.radio
      nmea == IF m.k = "n" THEN [sn |-> m.sn, sats |-> m.sats] ELSE c.nmea
      sensor == IF m.k = "s" THEN <<m>> ELSE <<>>
      mo == MotionStep(S, c.motion, sensor, now)
      moving == mo.st.lastMotion
      ex == ExtractRadio(S, radio0, moving)
      lv == LevelStep(S, W, c.lev, ex, sensor)
      gps == GpsStep(S, W, c.gps, now, sensor, nmea, c.indoorBefore)
      quiet == now - radio0.lastSig
      lost == \/ quiet >= S.noSigMs
              \/ quiet >= S.noActMs /\ moving > NEVER /\ now - moving >= S.noActMs
      lvlId == IF lost THEN "" ELSE lv.lvl
      onLevel == lvlId # "" /\ HasLevel(W, lvlId)
      lvl == LevelOf(W, lvlId)
      ind == IndoorStep(S, T, c.held, lvl, now, ex)
      obs == Observe(S, c.post.fuse, ind.pos, gps.pos)
      fused == Fuse(S, obs, now, ind.pos, gps.pos, ind.status)
      done == Process(S, lvl, [c.post EXCEPT !.fuse = obs], fused, now, moving)
      status == IF onLevel THEN ind.status ELSE IF ~gps.pos.e THEN OK ELSE NO_LEVEL
      pos == IF onLevel THEN done.pos
             ELSE IF ~gps.pos.e THEN gps.pos
             ELSE IF now - c.pos.ts >= S.deadMs THEN NoPos ELSE c.pos
      ned == IF mo.az # <<>> THEN mo.az[1] ELSE IF onLevel THEN RDiv(RPi, "2.0") ELSE "0.0"
      ori == IF S.useEnuAzimuth THEN RSub(RDiv(RPi, "2.0"), ned) ELSE ned
      next == [ radio |-> ex.st, nmea |-> nmea, motion |-> mo.st, lev |-> lv.st, gps |-> gps.st,
                held |-> IF onLevel THEN ind.st ELSE c.held,
                post |-> IF onLevel THEN done.st ELSE c.post,
                indoorBefore |-> onLevel /\ ~ind.pos.e, pos |-> pos ]
      report == IF pos.e THEN EmptyReport(IF status = OK THEN ERROR ELSE status)
                ELSE [status |-> OK, level |-> pos.lvl, x |-> pos.x, y |-> pos.y, r |-> pos.dev,
                      ori |-> WrapPi(ori), alt |-> AltitudeOf(S, W, pos.lvl, ex), prov |-> pos.prov, grid |-> onLevel,
                      raw |-> IF "raw" \in DOMAIN pos THEN pos.raw ELSE <<>>]
      debug == [ ix |-> next.post.fuse.ind.x, iy |-> next.post.fuse.ind.y,
                 ox |-> next.post.fuse.outd.x, oy |-> next.post.fuse.outd.y,
                 steps |-> mo.st.steps, len |-> mo.len ]
  IN [st |-> next, out |-> report, dbg |-> debug]

--------------------------------------------------------------------------------
VARIABLES world,     \* loaded world, shared by all clients
          settings,  \* client -> settings in effect
          tris,      \* client -> level -> reference point triangles
          client,    \* client -> client state
          call       \* the call in progress: <<>> or [k, todo, last, outs, dbgs]

navVars == <<world, settings, tris, client, call>>

NoCall == [k |-> "", size |-> 0, todo |-> <<>>, last |-> NEVER, outs |-> <<>>, dbgs |-> <<>>, late |-> 0]
Idle == call.k = ""

Open(w, sets) ==
  LET W == LoadWorld(w)
      S == [k \in DOMAIN sets |-> MkSettings(sets[k])] IN
  /\ world' = W
  /\ settings' = S
  /\ tris' = [k \in DOMAIN sets |-> ClientTriangles(S[k], W)]
  /\ client' = [k \in DOMAIN sets |-> InitClient]
  /\ call' = NoCall

Begin(k, batch) ==
  /\ Idle
  /\ call' = [NoCall EXCEPT !.k = k, !.todo = batch, !.size = Len(batch)]
  /\ UNCHANGED <<world, settings, tris, client>>

TakeMessage ==
  /\ ~Idle /\ call.todo # <<>>
  /\ Head(call.todo).ts >= call.last
  /\ LET k == call.k
         r == MessageStep(settings[k], world, tris[k], client[k], Head(call.todo))
     IN /\ client' = [client EXCEPT ![k] = r.st]
        /\ call' = [call EXCEPT !.todo = Tail(@), !.last = Head(call.todo).ts,
                                !.outs = Append(@, r.out), !.dbgs = Append(@, r.dbg)]
  /\ UNCHANGED <<world, settings, tris>>

SkipLate ==
  /\ ~Idle /\ call.todo # <<>>
  /\ Head(call.todo).ts < call.last
  /\ call' = [call EXCEPT !.todo = Tail(@), !.late = @ + 1]
  /\ UNCHANGED <<world, settings, tris, client>>

Return ==
  /\ ~Idle /\ call.todo = <<>>
  /\ call' = NoCall
  /\ UNCHANGED <<world, settings, tris, client>>
================================================================================
