------------------------------ MODULE Resolution ------------------------------
(* Resolving satellite hosts and choosing among them (C19, C20).  Hosts are      *)
(* 0..NH-1, families 4 and 6; a question is outstanding, or due within a window. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,     \* [min, max, retry, eps, nh]
          st,      \* <<h, f>> -> "new" | "asked" | "due"
          lo, hi,  \* <<h, f>> -> window in which it is due
          addrs,   \* <<h, f>> -> addresses last resolved
          ready,   \* 0 not yet, 1 to be announced now, 2 announced
          ei,      \* last endpoint chosen (0: none yet)
          ai,      \* host -> position last used in its addresses (0: any comes next)
          now
rvars == <<cfg, st, lo, hi, addrs, ready, ei, ai, now>>
K(c) == (0..(c.nh - 1)) \X {4, 6}
RInit(c) == /\ cfg = c /\ st = [k \in K(c) |-> "new"] /\ lo = [k \in K(c) |-> 0] /\ hi = [k \in K(c) |-> 0] /\ addrs = [k \in K(c) |-> <<>>]
            /\ ready = 0 /\ ei = 0 /\ ai = [h \in 0..(c.nh - 1) |-> 0] /\ now = 0
Upd(f, k, v) == [f EXCEPT ![k] = v]
\* a question is asked at the start, and again only when due; never twice at once
Ask(k, at) == /\ k \in K(cfg)
              /\ \/ st[k] = "new"
                 \/ st[k] = "due" /\ at >= lo[k] /\ at <= hi[k]
              /\ st' = Upd(st, k, "asked")
              /\ UNCHANGED <<cfg, lo, hi, addrs, ready, ei, ai, now>>
Wait(k, from, to) == st' = Upd(st, k, "due") /\ lo' = Upd(lo, k, now + from) /\ hi' = Upd(hi, k, now + to)
Failed(k) == /\ st[k] = "asked" /\ Wait(k, cfg.retry, cfg.retry)
             /\ UNCHANGED <<cfg, addrs, ready, ei, ai, now>>
Resolved(k, l) == /\ st[k] = "asked" /\ l # <<>>
                  /\ Wait(k, cfg.min, cfg.max)
                  /\ addrs' = Upd(addrs, k, l)
                  \* a host's rotation may begin anywhere once its addresses change
                  /\ ai' = IF addrs[k] = l THEN ai ELSE Upd(ai, k[1], 0)
                  /\ ready' = IF ready = 0 THEN 1 ELSE ready
                  /\ UNCHANGED <<cfg, ei, now>>
Announce == ready = 1 /\ ready' = 2 /\ UNCHANGED <<cfg, st, lo, hi, addrs, ei, ai, now>>
\* nothing due is passed over
Pass(t) == t >= now /\ (\A k \in K(cfg) : st[k] = "due" => hi[k] >= t) /\ now' = t /\ UNCHANGED <<cfg, st, lo, hi, addrs, ready, ei, ai>>
Settled == \A k \in K(cfg) : st[k] # "new" /\ (st[k] = "due" => hi[k] > now)
List(h) == IF addrs[<<h, 4>>] # <<>> THEN addrs[<<h, 4>>] ELSE addrs[<<h, 6>>]
Family(h) == IF addrs[<<h, 4>>] # <<>> THEN 4 ELSE 6
Usable == \E h \in 0..(cfg.nh - 1) : List(h) # <<>>
NE == Len(cfg.eps)
RECURSIVE After(_)
After(i) == LET n == (i % NE) + 1 IN IF List(cfg.eps[n][1]) # <<>> THEN n ELSE After(n)
Choices == IF ei = 0 THEN {n \in 1..NE : List(cfg.eps[n][1]) # <<>>} ELSE {After(ei)}
Positions(h) == IF ai[h] = 0 THEN 1..Len(List(h)) ELSE {(ai[h] % Len(List(h))) + 1}
Choose(n, p) == /\ Usable /\ n \in Choices /\ p \in Positions(cfg.eps[n][1])
                /\ ei' = n /\ ai' = Upd(ai, cfg.eps[n][1], p)
                /\ UNCHANGED <<cfg, st, lo, hi, addrs, ready, now>>
===============================================================================
