------------------------- MODULE GreedyBalancerMC ---------------------------
(* Instances of GreedyBalancer. *)
EXTENDS GreedyBalancer
\* two overloaded blocks next to an underloaded one, unit weights
V4 == 1 .. 5
E4 == {{1, 2}, {2, 3}, {3, 4}, {4, 5}}
Unit == [v \in V4 |-> 1]
Lim4 == <<1, 2, 2>>
Fair4 == <<1, 2, 2>>
Starts4 == { <<1, 1, 2, 2, 2>>, <<1, 2, 1, 2, 2>>, <<2, 2, 2, 1, 1>>, <<1, 1, 1, 1, 1>>, <<2, 2, 2, 2, 1>>, <<1, 3, 1, 2, 2>> }
\* two workers race for the room in one block
Vr == 1 .. 5
Er == {{1, 5}, {3, 5}}
Unitr == [v \in Vr |-> 1]
Limr == <<1, 1, 2, 1>>
Fairr == <<1, 1, 2, 1>>
Startsr == {<<1, 1, 2, 2, 3>>}
\* weighted vertices that may fit nowhere
Vw == 1 .. 4
Ew == {{1, 2}, {2, 3}}
Weights == <<3, 1, 2, 2>>
Limw == <<3, 3, 4>>
Fairw == <<3, 3, 3>>
Startsw == [Vw -> 1 .. 3]
=============================================================================
