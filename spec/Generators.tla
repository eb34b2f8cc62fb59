------------------------------ MODULE Generators ------------------------------
(* Identifier generators (C29).  Each thread of each process has a generator:   *)
(* a seed and a position; an identifier is the pair.  A generator is seeded at  *)
(* its first use, and again, in the child, for the thread that forked.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxProc, MaxThread, MaxGen
VARIABLES procs,   \* processes alive
          gen,     \* <<process, thread>> -> [seed, pos], seed 0: not yet used
          seeds,   \* seeds drawn so far
          out,     \* identifiers handed out, with who got them
          n, act
vars == <<procs, gen, seeds, out, n, act>>
Threads == 1..MaxThread
Init == /\ procs = {1} /\ gen = [x \in {1} \X Threads |-> [seed |-> 0, pos |-> 0]]
        /\ seeds = 0 /\ out = <<>> /\ n = 0 /\ act = [op |-> "", p |-> 0, t |-> 0, c |-> 0]
Seeded(g, s) == IF g.seed = 0 THEN [seed |-> s, pos |-> 0] ELSE g
Generate(p, t) ==
  LET fresh == gen[<<p, t>>].seed = 0
      g == Seeded(gen[<<p, t>>], seeds + 1)
  IN /\ n < MaxGen /\ n' = n + 1
     /\ seeds' = IF fresh THEN seeds + 1 ELSE seeds
     /\ out' = Append(out, <<g.seed, g.pos, p, t>>)
     /\ gen' = [gen EXCEPT ![<<p, t>>] = [g EXCEPT !.pos = @ + 1]]
     /\ UNCHANGED procs
     /\ act' = [op |-> "g", p |-> p, t |-> t, c |-> 0]
\* only the forking thread goes on in the child; a used generator is seeded again there
Fork(p, t) ==
  LET c == Cardinality(procs) + 1
      g == gen[<<p, t>>]
  IN /\ c <= MaxProc
     /\ procs' = procs \cup {c}
     /\ seeds' = IF g.seed = 0 THEN seeds ELSE seeds + 1
     /\ gen' = [x \in DOMAIN gen \cup ({c} \X Threads) |->
                 IF x \in DOMAIN gen THEN gen[x]
                 ELSE IF x[2] = t /\ g.seed # 0 THEN [seed |-> seeds + 1, pos |-> 0] ELSE [seed |-> 0, pos |-> 0]]
     /\ UNCHANGED <<out, n>>
     /\ act' = [op |-> "f", p |-> p, t |-> t, c |-> c]
Next == \E p \in procs, t \in Threads : Generate(p, t) \/ Fork(p, t)
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in 1..Len(out) : i # j => <<out[i][1], out[i][2]>> # <<out[j][1], out[j][2]>>
OwnSequence == \A i, j \in 1..Len(out) : out[i][1] = out[j][1] => <<out[i][3], out[i][4]>> = <<out[j][3], out[j][4]>>
MSpec == Spec
MView == <<procs, gen, out, n>>
St == <<ToString(gen), ToString(out), n>>
MEmit == PrintT("T" \o ToJson([f |-> <<ToString(gen), ToString(out)>>, a |-> act', t |-> <<ToString(gen'), ToString(out')>>]))
MInitEmit == TLCGet("level") = 1 => PrintT("I" \o ToJson(<<ToString(gen), ToString(out)>>))
================================================================================
