------------------------------ MODULE UvCacheMC ------------------------------
(* Requests in every mode against one cache file, computing in any order the
   mode allows, dying or failing to save at any point.                       *)
EXTENDS UvCache
CONSTANTS Zs, Params, MaxRequests, Checkpoints
VARIABLES file,    \* [p, keys] or "none"
          req,     \* the request under way, or [phase |-> "idle"]
          mem,     \* keys in memory
          tmp,     \* the new file being written beside the old one: a set of keys (meaningful in phase "saving")
          n, saved, refused
vars == <<file, req, mem, tmp, n, saved, refused>>
None == [p |-> 0, keys |-> {}]
Init == file = None /\ req = [phase |-> "idle"] /\ mem = {} /\ tmp = {} /\ n = 0 /\ saved = {} /\ refused = FALSE
Order(s) == {q \in [1..Cardinality(s) -> s] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Start == /\ req.phase = "idle" /\ n < MaxRequests
         /\ \E p \in Params, s \in (SUBSET Zs) \ {{}}, c \in Checkpoints, jobs \in {1, 2} : \E zs \in Order(s) :
              IF file.p # 0 /\ file.p # p
              THEN refused' = TRUE /\ UNCHANGED <<req, mem>>
              ELSE /\ refused' = FALSE /\ mem' = file.keys
                   /\ req' = [phase |-> "run", p |-> p, zs |-> zs, mode |-> Mode(jobs, c), c |-> c, todo |-> Missing(zs, file.keys), begun |-> <<>>, done |-> {}]
         /\ n' = n + 1 /\ UNCHANGED <<file, tmp, saved>>
Left == ToSet(req.todo) \ ToSet(req.begun)
\* in parallel modes any redshift of the current chunk may be computed next
Chunk == LET k == Len(req.begun) c == IF req.mode = "parallel" THEN Len(req.todo) ELSE req.c IN
         {i \in DOMAIN req.todo : (i - 1) \div c = k \div c} 
Eligible == IF req.mode = "serial" THEN {req.todo[Len(req.begun) + 1]} ELSE {req.todo[i] : i \in Chunk} \ ToSet(req.begun)
SaveDue == req.mode # "parallel" /\ req.c > 0 /\ Len(req.begun) > 0 /\ Len(req.begun) % req.c = 0 /\ Due(req.mode, req.c, Len(req.begun)) > 0 /\ ~ (ToSet(req.begun) \subseteq saved)
Compute == /\ req.phase = "run" /\ Left # {} /\ ~ SaveDue
           /\ \E z \in Eligible : req' = [req EXCEPT !.begun = Append(@, z), !.done = @ \cup {z}] /\ mem' = mem \cup {z}
           /\ UNCHANGED <<file, tmp, n, saved, refused>>
BeginSave == /\ req.phase = "run" /\ (SaveDue \/ (Left = {} /\ req.todo # <<>> /\ ~ (mem \subseteq file.keys)))
             /\ tmp' = mem /\ req' = [req EXCEPT !.phase = "saving"] /\ UNCHANGED <<file, mem, n, saved, refused>>
Replace == /\ req.phase = "saving" /\ file' = [p |-> req.p, keys |-> tmp] /\ saved' = tmp
           /\ req' = [req EXCEPT !.phase = "run"] /\ UNCHANGED <<mem, tmp, n, refused>>
Finish == /\ req.phase = "run" /\ Left = {} /\ (mem \subseteq file.keys) /\ req' = [phase |-> "idle", last |-> mem, asked |-> ToSet(req.zs)]
          /\ UNCHANGED <<file, mem, tmp, n, saved, refused>>
\* a kill, an exception or a failed save
Die == req.phase \in {"run", "saving"} /\ req' = [phase |-> "idle"] /\ mem' = {} /\ UNCHANGED <<file, tmp, n, saved, refused>>
Next == Start \/ Compute \/ BeginSave \/ Replace \/ Finish \/ Die
Spec == Init /\ [][Next]_vars
Requested == IF req.phase = "idle" THEN {} ELSE ToSet(req.zs)
NothingLost == [][file.keys \subseteq file'.keys /\ (file.p # 0 => file'.p = file.p)]_vars
SavedIsThere == saved \subseteq file.keys
CheckpointsKept == req.phase \in {"run"} /\ ~ SaveDue /\ req.todo # <<>> => DueKeys(req.mode, req.c, req.begun, Len(req.begun)) \subseteq file.keys
NoRecompute == [][req'.phase = "run" /\ req.phase = "run" /\ Len(req'.begun) > Len(req.begun) => Last(req'.begun) \notin (file.keys \cup mem)]_vars
Complete == req.phase = "idle" /\ "last" \in DOMAIN req => req.asked \subseteq req.last /\ req.last = file.keys
RefusedUntouched == [][refused' /\ n' # n => file' = file]_vars
=============================================================================
