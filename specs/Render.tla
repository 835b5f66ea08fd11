-------------------------------- MODULE Render --------------------------------
(* The inside of a render: a pool of workers computes the rows of a sample and   *)
(* adds each of them to the shared buffers under a lock; only when all rows of a *)
(* sample are in, the renderer may take an image, on a copy of the buffers, and  *)
(* run the post processors over that copy.  Refines Session.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Configs, MaxClock,
          Rows,      \* the rows of the image
          Workers,   \* the threads of the pool
          Buffers,   \* 1: pixel colours only; 3: also albedo and normals
          Bug        \* "none", or a deliberate mistake (to see that the properties notice it)

VARIABLES cfg, phase, k, due, last, clock, abort, alive, chan, got, atabort, result,
          todo,    \* rows of the running sample not taken by a worker yet
          work,    \* worker -> [row, buf]: row being added, next buffer to add to; row 0: idle
          reg,     \* worker -> value read from a buffer (only with Bug = "unlocked")
          buf,     \* buffer -> row -> sequence of the samples added to it
          imgs     \* images made: [k, base: row -> samples, aux, applied: post processors]
inner == <<todo, work, reg, buf, imgs>>
outer == <<cfg, phase, k, due, last, clock, abort, alive, chan, got, atabort, result>>
vars == <<outer, inner>>

Session == INSTANCE Session

Idle == [row |-> 0, buf |-> 0]
Init == /\ Session!Init
        /\ todo = {} /\ work = [w \in Workers |-> Idle] /\ reg = [w \in Workers |-> <<>>]
        /\ buf = [b \in 1 .. Buffers |-> [r \in Rows |-> <<>>]]
        /\ imgs = <<>>

AllIn == todo = {} /\ \A w \in Workers : work[w] = Idle

(* a step of Session that leaves the workers alone *)
Lift(A) == A /\ UNCHANGED inner

Begin == /\ Session!Begin
         /\ todo' = Rows
         /\ UNCHANGED <<work, reg, buf, imgs>>
Take(w) == /\ phase = "sampling" /\ work[w] = Idle
           /\ \E r \in todo : /\ todo' = todo \ {r}
                              /\ work' = [work EXCEPT ![w] = [row |-> r, buf |-> 1]]
           /\ UNCHANGED <<reg, buf, imgs, outer>>
(* add the row to one buffer while holding its lock *)
AddLocked(w) ==
  /\ work[w] # Idle /\ Bug # "unlocked"
  /\ LET r == work[w].row
         b == work[w].buf
     IN /\ buf' = [buf EXCEPT ![b][r] = Append(@, k + 1)]
        /\ work' = [work EXCEPT ![w] = IF b = Buffers THEN Idle ELSE [row |-> r, buf |-> b + 1]]
  /\ UNCHANGED <<todo, reg, imgs, outer>>
(* the mistake of working on a copy of the whole buffer outside the lock *)
ReadCopy(w) ==
  /\ Bug = "unlocked" /\ work[w] # Idle /\ reg[w] = <<>>
  /\ reg' = [reg EXCEPT ![w] = <<buf[work[w].buf]>>]
  /\ UNCHANGED <<todo, work, buf, imgs, outer>>
WriteCopy(w) ==
  /\ Bug = "unlocked" /\ work[w] # Idle /\ reg[w] # <<>>
  /\ buf' = [buf EXCEPT ![work[w].buf] = [reg[w][1] EXCEPT ![work[w].row] = Append(@, k + 1)]]
  /\ reg' = [reg EXCEPT ![w] = <<>>]
  /\ work' = [work EXCEPT ![w] = IF @.buf = Buffers THEN Idle ELSE [row |-> @.row, buf |-> @.buf + 1]]
  /\ UNCHANGED <<todo, imgs, outer>>
Complete == /\ (AllIn \/ (Bug = "nowait" /\ todo = {}))
            /\ Lift(Session!Complete)
(* all post processors, in order, over a copy of the buffers *)
Process == /\ Session!Process
           /\ imgs' = IF Session!ChainFails THEN imgs
                      ELSE Append(imgs, [k |-> k, base |-> buf[1], aux |-> [b \in 2 .. Buffers |-> buf[b]],
                                         applied |-> [i \in 1 .. Len(cfg.chain) |-> i]])
           /\ buf' = IF Bug = "feedback" /\ ~Session!ChainFails THEN [buf EXCEPT ![1] = [r \in Rows |-> Append(@[r], 0)]] ELSE buf
           /\ UNCHANGED <<todo, work, reg>>

WorkerStep(w) == Take(w) \/ AddLocked(w) \/ ReadCopy(w) \/ WriteCopy(w)
Renderer == \/ Lift(Session!Refuse \/ Session!Accept \/ Session!AbortBetween \/ Session!Finish
                    \/ Session!Decide \/ Session!AbortBeforeImage \/ Session!GoOn \/ Session!Send)
            \/ Begin \/ Complete \/ Process
Next == Renderer \/ (\E w \in Workers : WorkerStep(w)) \/ Lift(Session!Surroundings)
Fairness == /\ WF_vars(Renderer) /\ WF_vars(Lift(Session!Receive))
            /\ \A w \in Workers : WF_vars(WorkerStep(w))
Spec == Init /\ [][Next]_vars /\ Fairness

(* ------------------------------------------------------------- properties *)
Upto(n) == {i \in 1 .. n : TRUE}
Exactly(s, n) == Len(s) = n /\ {s[i] : i \in 1 .. Len(s)} = Upto(n)
(* R02, R06: an image for report k is made of each of the samples 1..k once, in *)
(* every row and every buffer, and all post processors were applied in order    *)
ImageExact == \A i \in 1 .. Len(imgs) :
                /\ \A r \in Rows : Exactly(imgs[i].base[r], imgs[i].k)
                /\ \A b \in DOMAIN imgs[i].aux : \A r \in Rows : Exactly(imgs[i].aux[b][r], imgs[i].k)
                /\ imgs[i].applied = [j \in 1 .. Len(cfg.chain) |-> j]
(* no row is computed twice or by two workers at once *)
RowsDisjoint == \A a, b \in Workers : a # b /\ work[a] # Idle => work[a].row # work[b].row
(* the workers rest whenever the renderer is at work *)
Quiet == phase # "sampling" => AllIn
(* an image is in a report exactly if one was made for it *)
ReportedImages == \A i \in 1 .. Len(got \o chan) :
                    LET r == (got \o chan)[i] IN r.image <=> \E j \in 1 .. Len(imgs) : imgs[j].k = r.k
(* the refinement: everything checked of Session holds of Render *)
Refines == Session!Spec
=============================================================================
