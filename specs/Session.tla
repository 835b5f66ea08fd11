------------------------------- MODULE Session -------------------------------
(* A render as its caller sees it: samples, reports, the abort channel, the      *)
(* consumer, the outcome.  Render.tla refines this with row workers and buffers; *)
(* TraceSession.tla validates recorded renders of the real code against it.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Configs     \* [n, strat, lights, chain: sequence of "ok"/"fail", d]
CONSTANT MaxClock    \* bound of the model's clock (0: no interval strategy)

VARIABLES cfg,      \* the configuration of the render
          phase,    \* "new" "between" "sampling" "decide" "abort2" "process" "send" "done"
          k,        \* completed samples
          due,      \* the report in preparation gets an image
          last,     \* clock when an image was last decided on, -1: never
          clock,    \* model time
          abort,    \* a message is (or has been) on the abort channel
          alive,    \* the consumer still listens
          chan,     \* reports sent and not yet received: [k, image]
          got,      \* reports received
          atabort,  \* history: [k, phase] when the abort signal arrived
          result    \* "none" "ok" "err"
vars == <<cfg, phase, k, due, last, clock, abort, alive, chan, got, atabort, result>>

NoAbort == [k |-> -1, phase |-> "none"]

Init == /\ cfg \in Configs
        /\ phase = "new" /\ k = 0 /\ due = FALSE /\ last = -1 /\ clock = 0
        /\ abort = FALSE /\ alive = TRUE /\ chan = <<>> /\ got = <<>>
        /\ atabort = NoAbort
        /\ result = "none"

Env == <<cfg, clock, abort, alive, got, atabort>>

(* ------------------------------------------------------------ the renderer *)
Refuse == /\ phase = "new" /\ ~cfg.lights
          /\ phase' = "done" /\ result' = "err"
          /\ UNCHANGED <<k, due, last, chan, Env>>
Accept == /\ phase = "new" /\ cfg.lights
          /\ phase' = "between"
          /\ UNCHANGED <<k, due, last, chan, result, Env>>
Begin == /\ phase = "between" /\ k < cfg.n /\ ~abort
         /\ phase' = "sampling"
         /\ UNCHANGED <<k, due, last, chan, result, Env>>
AbortBetween == /\ phase = "between" /\ k < cfg.n /\ abort
                /\ phase' = "done" /\ result' = "ok"
                /\ UNCHANGED <<k, due, last, chan, Env>>
Finish == /\ phase = "between" /\ k = cfg.n
          /\ phase' = "done" /\ result' = "ok"
          /\ UNCHANGED <<k, due, last, chan, Env>>
Complete == /\ phase = "sampling"
            /\ phase' = "decide" /\ k' = k + 1
            /\ UNCHANGED <<due, last, chan, result, Env>>

ImageDue == CASE cfg.strat = "every" -> TRUE
              [] cfg.strat = "final" -> k = cfg.n
              [] cfg.strat = "interval" -> k = cfg.n \/ last = -1 \/ clock - last > cfg.d

Decide == /\ phase = "decide"
          /\ due' = ImageDue
          /\ last' = IF ImageDue THEN clock ELSE last
          /\ phase' = IF ImageDue THEN "abort2" ELSE "send"
          /\ UNCHANGED <<k, chan, result, Env>>
AbortBeforeImage == /\ phase = "abort2" /\ abort
                    /\ phase' = "done" /\ result' = "ok"
                    /\ UNCHANGED <<k, due, last, chan, Env>>
GoOn == /\ phase = "abort2" /\ ~abort
        /\ phase' = "process"
        /\ UNCHANGED <<k, due, last, chan, result, Env>>
ChainFails == \E i \in 1 .. Len(cfg.chain) : cfg.chain[i] = "fail"
Process == /\ phase = "process"
           /\ IF ChainFails THEN phase' = "done" /\ result' = "err"
                            ELSE phase' = "send" /\ UNCHANGED result
           /\ UNCHANGED <<k, due, last, chan, Env>>
Send == /\ phase = "send"
        /\ IF alive
           THEN chan' = Append(chan, [k |-> k, image |-> due]) /\ phase' = "between" /\ UNCHANGED result
           ELSE phase' = "done" /\ result' = "err" /\ UNCHANGED chan
        /\ UNCHANGED <<k, due, last, Env>>

(* -------------------------------------------------------- the surroundings *)
Receive == /\ alive /\ chan # <<>>
           /\ got' = Append(got, Head(chan)) /\ chan' = Tail(chan)
           /\ UNCHANGED <<cfg, phase, k, due, last, clock, abort, alive, atabort, result>>
SendAbort == /\ ~abort /\ abort' = TRUE
             /\ atabort' = [k |-> k, phase |-> phase]
             /\ UNCHANGED <<cfg, phase, k, due, last, clock, alive, chan, got, result>>
DropConsumer == /\ alive /\ alive' = FALSE /\ chan' = <<>>
                /\ UNCHANGED <<cfg, phase, k, due, last, clock, abort, got, atabort, result>>
Tick == /\ clock < MaxClock /\ clock' = clock + 1
        /\ UNCHANGED <<cfg, phase, k, due, last, abort, alive, chan, got, atabort, result>>

Renderer == Refuse \/ Accept \/ Begin \/ AbortBetween \/ Finish \/ Complete \/ Decide
            \/ AbortBeforeImage \/ GoOn \/ Process \/ Send
Surroundings == Receive \/ SendAbort \/ DropConsumer \/ Tick
Next == Renderer \/ Surroundings
Fairness == WF_vars(Renderer) /\ WF_vars(Receive)
Spec == Init /\ [][Next]_vars /\ Fairness

(* ------------------------------------------------------------- properties *)
Reports == got \o chan          \* everything delivered so far (while the consumer lives)
(* R01 *)
Ordered == alive => \A i \in 1 .. Len(Reports) : Reports[i].k = i
NoneSkipped == alive /\ phase = "between" => Len(Reports) = k
Complete_ == (phase = "done" /\ alive /\ ~abort /\ cfg.lights /\ ~ChainFails) =>
               /\ result = "ok"
               /\ Len(Reports) = cfg.n
               /\ cfg.n > 0 => Reports[cfg.n].image
NoReportsZero == cfg.n = 0 => Reports = <<>>
(* R03 *)
Images == \A i \in 1 .. Len(Reports) :
            /\ cfg.strat = "every" => Reports[i].image
            /\ cfg.strat = "final" => (Reports[i].image <=> i = cfg.n)
            /\ cfg.strat = "interval" /\ (i = 1 \/ i = cfg.n) => Reports[i].image
(* R04 *)
NoSampleAfterAbort == abort => k <= atabort.k + (IF atabort.phase = "sampling" THEN 1 ELSE 0)
NoImageAfterAbort == abort /\ atabort.phase = "sampling" =>
                       \A i \in 1 .. Len(Reports) : Reports[i].k > atabort.k => ~Reports[i].image
AbortIsSuccess == (phase = "done" /\ abort /\ alive /\ cfg.lights /\ ~ChainFails) => result = "ok"
(* R05 *)
NoLightIsError == (phase = "done" /\ ~cfg.lights) => result = "err" /\ k = 0 /\ Reports = <<>>
LostIsError == (phase = "done" /\ result = "ok" /\ ~abort) => k = cfg.n
FailedChainIsError == (phase = "done" /\ result = "ok" /\ ~abort /\ cfg.n > 0) => ~ChainFails
TypeOK == result \in {"none", "ok", "err"} /\ (result # "none" <=> phase = "done")
(* it always ends, whatever the surroundings do *)
Ends == <>(phase = "done")
EverythingDelivered == [](alive /\ phase = "done" => <>(chan = <<>> \/ ~alive))
=============================================================================
