----------------------------- MODULE SpanStreamMC -----------------------------
(* Instance of SpanStreamModel for TLC: spans of one, two (and three) fragments*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxAdds, Cap, Wide
VARIABLES q, allot, rem, n, out, sent, act
ShapesC == IF Wide THEN <<<<1>>, <<2, 1>>, <<2, 2, 1>>>> ELSE <<<<1>>, <<2, 1>>>>
INSTANCE SpanStreamModel WITH Shapes <- ShapesC
===============================================================================
