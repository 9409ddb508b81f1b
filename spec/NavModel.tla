------------------------------- MODULE NavModel -------------------------------
(***************************************************************************)
(* The specification on its own, without the code: client "a" is told any  *)
(* sequence of letters (batches) up to a depth, and client "b" the same    *)
(* messages one by one.  TLC visits every state; the properties of         *)
(* NavProps must hold in all of them, and the two clients must agree.      *)
(* The alphabets, worlds and settings are those of lib/navtree.py.         *)
(***************************************************************************)
EXTENDS NavProps, Json, IOUtils

ASSUME "MODEL" \in DOMAIN IOEnv
Models == JsonDeserialize(IOEnv.MODEL)

VARIABLES which,     \* the model
          clock, said, script,
          rest       \* messages client "b" has not been told yet
vars == <<propVars, which, clock, said, script, rest>>
M == Models[which]

Shifted(b, t) == [i \in DOMAIN b |-> [b[i] EXCEPT !.ts = @ + t]]
RECURSIVE OnTime(_, _)
OnTime(b, last) == IF b = <<>> THEN <<>>
                   ELSE IF Head(b).ts < last THEN OnTime(Tail(b), last)
                   ELSE <<Head(b)>> \o OnTime(Tail(b), Head(b).ts)

ModelInit == /\ which \in DOMAIN Models
             /\ clock = Models[which].clock /\ said = 0 /\ script = Models[which].prefix /\ rest = <<>>
             /\ world = [levels |-> <<>>] /\ settings = <<>> /\ tris = <<>> /\ client = <<>> /\ call = NoCall /\ ghost = <<>>
Start == /\ client = <<>>
         /\ LET both == [k \in {"a", "b"} |-> M.set["a"]] IN
            /\ Open(M.world, both)
            /\ ghost' = [k \in {"a", "b"} |-> InitGhost]
         /\ UNCHANGED <<which, clock, said, script, rest>>
Told(b) == Begin("a", b) /\ rest' = OnTime(b, NEVER)
Prefix == /\ client # <<>> /\ Idle /\ rest = <<>> /\ script # <<>>
          /\ Told(Head(script)) /\ script' = Tail(script)
          /\ UNCHANGED <<which, clock, said, ghost>>
Say == /\ client # <<>> /\ Idle /\ rest = <<>> /\ script = <<>> /\ said < M.depth
       /\ \E i \in DOMAIN M.letters :
            /\ clock' = clock + M.letters[i].adv
            /\ Told(Shifted(M.letters[i].batch, clock'))
       /\ said' = said + 1
       /\ UNCHANGED <<which, script, ghost>>
Repeat == /\ client # <<>> /\ Idle /\ rest # <<>>
          /\ Begin("b", <<Head(rest)>>) /\ rest' = Tail(rest)
          /\ UNCHANGED <<which, clock, said, script, ghost>>
Rest == <<which, clock, said, script, rest>>
ModelNext == Start \/ Prefix \/ Say \/ Repeat \/ (PropTake /\ UNCHANGED Rest) \/ (SkipLate /\ UNCHANGED <<ghost, which, clock, said, script, rest>>)
             \/ (Return /\ UNCHANGED <<ghost, which, clock, said, script, rest>>)
ModelSpec == ModelInit /\ [][ModelNext]_vars

\* the same messages leave the same state, however they were batched
PSplit == client # <<>> /\ Idle /\ rest = <<>> => client["a"] = client["b"]
\* a late message changes nothing
PLate == [][SkipLate => client' = client]_vars
\* calls touch only their own client
PAlone == [][\A k \in {"a", "b"} : client # <<>> /\ k # call.k => client'[k] = client[k]]_vars
================================================================================
