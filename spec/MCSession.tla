----------------------------- MODULE MCSession -----------------------------
(* Exhaustive check of the design of a session; constants for it.            *)
EXTENDS Session
NoOut == [s \in Streams |-> 0]
SmallOut == [s \in Streams |-> IF s = "out" THEN 1 ELSE 0]
BothOut == [s \in Streams |-> 1]
MoreOut == [s \in Streams |-> IF s = "out" THEN 2 ELSE 1]
============================================================================
