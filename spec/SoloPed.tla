------------------------------- MODULE SoloPed -------------------------------
(***************************************************************************)
(* standalone_algorithms/pedometer: steps in accelerometer samples.        *)
(*   acc, mags - samples of the last 5 s and filtered magnitudes           *)
(*   from      - the magnitudes before the last update (steps are looked   *)
(*               for after them only)                                      *)
(*   at        - times of all steps reported so far                        *)
(***************************************************************************)
EXTENDS NavMotion

PedInit(epoch) == [kind |-> "ped", acc |-> <<>>, mags |-> <<>>, from |-> 0, lastStep |-> IF epoch THEN NEVER ELSE -1, at |-> <<>>, lens |-> <<>>, epoch |-> epoch]
PedSample(p, m) ==
  LET acc1 == Append(p.acc, [ts |-> m.ts, v |-> Magnitude3(m)])
      mags1 == IF m.ts = 0 /\ ~p.epoch THEN p.mags ELSE Append(p.mags, [ts |-> m.ts, v |-> Filtered(acc1, m.ts)])
  IN [p EXCEPT !.acc = SelectSeq(acc1, LAMBDA a : m.ts - a.ts <= 2 * AverageMs), !.mags = mags1]
PedUpdate(p, batch) == FoldSeq(LAMBDA m, q : PedSample(q, m), [p EXCEPT !.from = IF Len(p.mags) > 1 THEN Len(p.mags) ELSE 1], batch)

(* rising through the threshold, long enough after the last step *)
Rises(mags, i) == mags[i-1].v \prec StepThreshold /\ StepThreshold \prec mags[i].v
RECURSIVE PedFind(_, _, _, _)
PedFind(mags, i, last, found) ==
  IF i > Len(mags) THEN found
  ELSE IF Rises(mags, i) /\ mags[i].ts - last > MinStepMs
  THEN PedFind(mags, i + 1, mags[i].ts, Append(found, [ts |-> mags[i].ts, len |-> StepLen(mags, i)]))
  ELSE PedFind(mags, i + 1, last, found)
PedCalc(p) ==
  IF Len(p.mags) <= 3 THEN [st |-> p, steps |-> <<>>]
  ELSE LET s == PedFind(p.mags, p.from + 1, p.lastStep, <<>>)
           end == p.mags[Len(p.mags)].ts
       IN [steps |-> s,
           st |-> [p EXCEPT !.mags = SelectSeq(@, LAMBDA g : end - g.ts <= 2 * LengthMs),
                            !.lastStep = IF s = <<>> THEN @ ELSE s[Len(s)].ts,
                            !.at = @ \o [i \in DOMAIN s |-> s[i].ts], !.lens = [i \in DOMAIN s |-> s[i].len]]]

Pow4(v) == LET w == v // "0.52" IN RMul(RMul(w, w), RMul(w, w))
LenNear(a, b) == NearRel(a, b, "1e-6") \/ ("0.0" \preceq a /\ "0.0" \preceq b /\ NearRel(Pow4(a), Pow4(b), "1e-9"))
PedSteps(st, ln) ==
  CASE ln.op = "upd" -> {PedUpdate(st, ln.batch)}
    [] ln.op = "steps" ->
         LET c == PedCalc(st) IN
         IF /\ Len(c.steps) = Len(ln.steps)
            /\ \A i \in DOMAIN c.steps : c.steps[i].ts = ln.steps[i].ts /\ LenNear(c.steps[i].len, ln.steps[i].len)
         THEN {c.st} ELSE {}
PedExpected(st, ln) == IF ln.op = "steps" THEN <<"steps", PedCalc(st).steps>> ELSE <<>>

PPedApart(st) == \A i \in 2..Len(st.at) : st.at[i] - st.at[i-1] > MinStepMs
PPedLength(st) == \A i \in DOMAIN st.lens : "0.0" \preceq st.lens[i]
===============================================================================
