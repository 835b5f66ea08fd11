------------------------------ MODULE T_Session ------------------------------
(* Trace validation of whole renders: a recorded render (one line of the trace:  *)
(* configuration and log) is accepted if some behaviour of Session produces its  *)
(* log.  The log has what can be seen from outside: the first and last random    *)
(* draw of each sample, reports as they are received, the caller's actions, the  *)
(* stand-in denoiser at work, and the outcome; the renderer's other steps are Session's internal actions.       *)
(* Focus selects the property whose clauses are enforced; what belongs to other  *)
(* properties is left open, so that each check raises only its own alarms.       *)
EXTENDS Num, FiniteSets, TLC, Json, IOUtils

CONSTANTS Focus
Sessions == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Log(s) == Sessions[s].log

VARIABLES cfg, phase, k, due, last, clock, abort, alive, chan, got, atabort, result,
          ses,     \* the session validated
          l,       \* next line of its log
          seen,    \* samples whose last draw was seen
          times,   \* earliest and latest possible time of the running decision on an image
          lastt    \* the same for the last image
outer == <<cfg, phase, k, due, last, clock, abort, alive, chan, got, atabort, result>>
vars == <<outer, ses, l, seen, times, lastt>>

S == INSTANCE Session WITH Configs <- {}, MaxClock <- 0

NoTime == <<-1, -1>>

TInit == /\ ses \in 1 .. Len(Sessions)
         /\ l = 1 /\ seen = 0 /\ times = NoTime /\ lastt = NoTime
         /\ cfg = [n |-> Sessions[ses].n, strat |-> Sessions[ses].strat, d |-> Sessions[ses].d,
                   lights |-> Sessions[ses].lights, chain |-> Sessions[ses].chain]
         /\ phase = "new" /\ k = 0 /\ due = FALSE /\ last = -1 /\ clock = 0
         /\ abort = FALSE /\ alive = TRUE /\ chan = <<>> /\ got = <<>>
         /\ atabort = S!NoAbort /\ result = "none"

More == l <= Len(Log(ses))
Line == Log(ses)[l]
Here(a) == More /\ Line.a = a
Eat == /\ l' = l + 1 /\ UNCHANGED ses

(* ------------------------------------------------- internal steps of Session *)
Quietly(A) == A /\ UNCHANGED <<ses, l, seen, times, lastt>>

(* the earliest and latest moment at which the decision about an image of sample k *)
(* can have been taken: after its last draw, before anything later that was seen    *)
RECURSIVE PrevTime(_)
PrevTime(i) == IF i = 0 THEN 0
               ELSE IF Log(ses)[i].a = "drawn" /\ Log(ses)[i].m = k THEN Log(ses)[i].t ELSE PrevTime(i - 1)
RECURSIVE NextTime(_)
NextTime(i) == IF i > Len(Log(ses)) THEN 2000000000
               ELSE LET e == Log(ses)[i]
                    IN IF e.a \in {"return", "denoise"} \/ (e.a = "started" /\ e.m > k) \/ (e.a = "report" /\ e.nr = k)
                       THEN e.t ELSE NextTime(i + 1)

(* the recorder works in microseconds: one more on each side *)
Window == <<PrevTime(l - 1) - 1, NextTime(l) + 1>>

MayHaveImage(w) == CASE cfg.strat = "every" -> TRUE
                     [] cfg.strat = "final" -> k = cfg.n
                     [] cfg.strat = "interval" -> k = cfg.n \/ lastt = NoTime \/ w[2] - lastt[1] >= cfg.d
MustHaveImage(w) == CASE cfg.strat = "every" -> TRUE
                     [] cfg.strat = "final" -> k = cfg.n
                     [] cfg.strat = "interval" -> k = cfg.n \/ lastt = NoTime \/ w[1] - lastt[2] > cfg.d

(* TLC need not try what the log refutes later: the report of sample k, if it was   *)
(* received, tells whether it had an image                                          *)
Guess == LET rs == {i \in 1 .. Len(Log(ses)) : Log(ses)[i].a = "report" /\ Log(ses)[i].nr = k}
         IN IF rs = {} THEN BOOLEAN
            ELSE IF Focus = "R05" /\ k # cfg.n /\ ~S!ChainFails /\ ~(\E i \in 1 .. Len(Log(ses)) : Log(ses)[i].a = "denoise") THEN {FALSE}
            ELSE IF Focus = "R05" THEN BOOLEAN
            ELSE {Log(ses)[i].image : i \in rs}
(* Session's Decide, with the strategy's verdict as far as the observed times determine it *)
Decide == /\ phase = "decide"
          /\ LET w == Window
             IN \E b \in Guess :
                 /\ IF Focus = "R03" THEN (b => MayHaveImage(w)) /\ (MustHaveImage(w) => b)
                    ELSE k = cfg.n \/ (Focus = "R05" /\ cfg.strat = "every" /\ S!ChainFails) => b
                 /\ due' = b
                 /\ lastt' = IF b THEN w ELSE lastt
                 /\ phase' = IF b THEN "abort2" ELSE "send"
          /\ UNCHANGED <<cfg, k, last, clock, abort, alive, chan, got, atabort, result, ses, l, seen, times>>

(* a sample is complete when its last draw has been seen, and not before *)
Complete == seen = k + 1 /\ Quietly(S!Complete)

Internal == \/ Quietly(S!Begin \/ S!AbortBetween \/ S!Finish
                       \/ S!AbortBeforeImage \/ S!GoOn \/ S!Process \/ S!Send)
            \/ Decide \/ Complete

(* ------------------------------------------------------------ lines of the log *)
Call == /\ Here("call") /\ (S!Refuse \/ S!Accept)
        /\ Eat /\ UNCHANGED <<seen, times, lastt>>
Started == /\ Here("started") /\ phase = "sampling" /\ Line.m = k + 1 /\ seen = k
           /\ Eat /\ UNCHANGED <<outer, seen, times, lastt>>
Drawn == /\ Here("drawn") /\ phase = "sampling" /\ Line.m = k + 1 /\ seen = k
         /\ seen' = k + 1
         /\ Eat /\ UNCHANGED <<outer, times, lastt>>

FirstDraw == LET ds == {i \in 1 .. Len(Log(ses)) : Log(ses)[i].a = "started" /\ Log(ses)[i].m = 1}
             IN IF ds = {} THEN 0 ELSE Log(ses)[CHOOSE i \in ds : TRUE].t
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
(* the figures of report nr: progress nr/n, and speed and remaining time that both imply a time *)
(* since the start that is the time of the decision                                             *)
Figures(e, nr, w) ==
  /\ IsRat(e.p, nr, cfg.n, 9, 1)
  /\ e.done <=> nr = cfg.n
  /\ nr = cfg.n => e.left = 0
  /\ LET tol == 20 + w[2] \div 500
     IN \* the render's own clock starts somewhere between the call and the first draw
        /\ e.e1 >= w[1] - FirstDraw - tol /\ e.e1 <= w[2] + tol
        /\ nr < cfg.n => Near(e.e1, e.e2, tol)
ReportWindow(nr) == <<LET ds == {i \in 1 .. Len(Log(ses)) : Log(ses)[i].a = "drawn" /\ Log(ses)[i].m = nr}
                      IN IF ds = {} THEN 0 ELSE Log(ses)[CHOOSE i \in ds : TRUE].t - 1,
                      Line.t + 1>>
Report == /\ Here("report") /\ S!Receive
          /\ Line.nr = Head(chan).k
          /\ (Focus \in {"R01", "R03", "R04"}) => (Line.image <=> Head(chan).image)
          /\ (Focus = "R03") => Line.dim
          /\ (Focus \in {"R01", "R04"}) => IsRat(Line.p, Line.nr, cfg.n, 9, 1)
          /\ (Focus = "R01") => Figures(Line, Line.nr, ReportWindow(Line.nr))
          /\ Eat /\ UNCHANGED <<seen, times, lastt>>
AbortSent == /\ Here("abort")
             /\ IF abort THEN UNCHANGED outer ELSE S!SendAbort
             /\ Eat /\ UNCHANGED <<seen, times, lastt>>
Dropped == /\ Here("drop") /\ S!DropConsumer
           /\ Eat /\ UNCHANGED <<seen, times, lastt>>
(* the last post processor, seen at work on an image *)
Denoise == /\ Here("denoise") /\ phase = "process"
           /\ Eat /\ UNCHANGED <<outer, seen, times, lastt>>
(* the outcome; a failed post processor's error is the one returned *)
Return == /\ Here("return") /\ phase = "done" /\ Line.r = result /\ Line.msgok
          /\ Eat /\ UNCHANGED <<outer, seen, times, lastt>>

Visible == Denoise \/ Call \/ Started \/ Drawn \/ Report \/ AbortSent \/ Dropped \/ Return

(* accepted: the log is used up, the render has returned, nothing is left in the channel *)
Accepted == ~More /\ (\E i \in 1 .. Len(Log(ses)) : Log(ses)[i].a = "return") /\ phase = "done" /\ chan = <<>>

Note == \* progress is printed for the diagnosis of rejected sessions
  IF l' > l THEN PrintT(<<"AT", ses, l>>) ELSE TRUE

TNext == \/ Internal
         \/ Visible /\ Note
         \/ Accepted /\ PrintT(<<"ACCEPT", ses>>) /\ UNCHANGED vars

TSpec == TInit /\ [][TNext]_vars
=============================================================================
