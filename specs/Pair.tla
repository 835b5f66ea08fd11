-------------------------------- MODULE Pair --------------------------------
(* Several renders in one process: of one renderer or of several, one after the  *)
(* other or interleaved.  What a render delivers is a function of its own         *)
(* configuration and of what its own caller does (Alone), whatever the others do. *)
EXTENDS Alone, FiniteSets

CONSTANTS
  PairConfigs,  \* sequences of configurations [n, strat], one per render
  Acts,         \* what callers may do: a subset of {"abort", "drop"}
  MaxActs,      \* how often in all (one less for every render beyond two)
  Sharing       \* what renders (wrongly) share: "none" "sums" "stale" "row" "abort" "shown" "count"

(* ------------------------------------------------ renders side by side *)
VARIABLES cfgs, st,   \* configuration and state of each render
          sums,       \* buffers: the samples summed up
          row,        \* rows in preparation
          shown,      \* an image was made
          count,      \* samples counted
          hist, acts
vars == <<cfgs, st, sums, row, shown, count, hist, acts>>
R == DOMAIN cfgs
Mem(kind, r) == IF Sharing = kind THEN 1 ELSE r
Init == /\ cfgs \in PairConfigs
        /\ st = [r \in R |-> Fresh]
        /\ sums = [r \in R |-> <<>>] /\ row = [r \in R |-> <<>>]
        /\ shown = [r \in R |-> FALSE] /\ count = [r \in R |-> 0]
        /\ hist = <<>> /\ acts = 0

(* the same step, on memory *)
Go(r) ==
  LET s == st[r]
      c == cfgs[r]
      p == s.p
      m == p \div 2
      all == [sums EXCEPT ![Mem("sums", r)] = @ \o row[Mem("row", r)]]
      k == count[Mem("count", r)] + 1
      due == CASE c.strat = "rarely" -> ~shown[Mem("shown", r)] \/ k = c.n
               [] c.strat = "final" -> k = c.n
               [] OTHER -> TRUE
  IN /\ s.res = "none"
     /\ hist' = Append(hist, <<r, "go">>)
     /\ IF p = 0
        THEN /\ st' = [st EXCEPT ![r] = Step(c, r, s)]
             (* new buffers: "stale" keeps those of an earlier render *)
             /\ sums' = IF Sharing = "stale" THEN [sums EXCEPT ![r] = IF r > 1 THEN sums[1] ELSE @]
                        ELSE [sums EXCEPT ![Mem("sums", r)] = <<>>]
             /\ shown' = IF Sharing = "shown" THEN shown ELSE [shown EXCEPT ![r] = FALSE]
             /\ count' = [count EXCEPT ![Mem("count", r)] = 0]
             /\ row' = [row EXCEPT ![Mem("row", r)] = <<<<r, 1>>>>]
        ELSE IF p % 2 = 1
        THEN /\ st' = [st EXCEPT ![r].p = @ + 1]
             /\ UNCHANGED <<sums, row, shown, count>>
        ELSE /\ sums' = all
             /\ count' = [count EXCEPT ![Mem("count", r)] = k]
             /\ LET ab == IF Sharing = "abort" THEN \E q \in R : st[q].abort ELSE s.abort
                    t == IF due /\ ab THEN [s EXCEPT !.res = "ok"]
                         ELSE IF ~s.alive THEN [s EXCEPT !.res = "err"]
                         ELSE LET u == [s EXCEPT !.rep = Append(@, [k |-> m, image |-> due, shows |-> IF due THEN all[Mem("sums", r)] ELSE <<>>])]
                              IN IF m = c.n \/ ab THEN [u EXCEPT !.res = "ok"] ELSE [u EXCEPT !.p = @ + 1]
                IN /\ st' = [st EXCEPT ![r] = t]
                   /\ shown' = IF due THEN [shown EXCEPT ![Mem("shown", r)] = TRUE] ELSE shown
             /\ row' = [row EXCEPT ![Mem("row", r)] = <<<<r, m + 1>>>>]
     /\ UNCHANGED <<cfgs, acts>>
Act(r, a) == /\ acts < MaxActs - (Len(cfgs) - 2) /\ acts' = acts + 1
             /\ st[r].res = "none"
             /\ st' = [st EXCEPT ![r] = After(cfgs[r], r, st[r], a)]
             /\ hist' = Append(hist, <<r, a>>)
             /\ UNCHANGED <<cfgs, sums, row, shown, count>>
Next == \E r \in R : (Go(r) \/ (\E a \in Acts : Act(r, a)))
Spec == Init /\ [][Next]_vars

Over == \A r \in R : st[r].res # "none"
(* ---------------------------------------------------------- properties *)
Independent == \A r \in R : st[r] = Alone(cfgs[r], r, hist)
OnlyOwn == \A r \in R : \A i \in 1 .. Len(st[r].rep) :
             st[r].rep[i].image => st[r].rep[i].shows = Own(r, st[r].rep[i].k)
=============================================================================
