--------------------------- MODULE GainCacheTrace ---------------------------
(***************************************************************************)
(* Gain caches: whatever moves have been applied (by any number of         *)
(* threads), the cached connection of a vertex to a block is the weight of *)
(* its edges into that block; gains, border vertices and the iteration     *)
(* over blocks follow. A delta cache adds moves only its owner sees and    *)
(* leaves the shared cache alone.                                          *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, x, k, p, d, cfg
vars == <<l, g, x, k, p, d, cfg>>
TInit == l = 1 /\ g = [n |-> 0] /\ x = <<>> /\ k = 0 /\ p = <<>> /\ d = <<>> /\ cfg = [nonadj |-> TRUE, exact |-> FALSE]

\* weight of the edges from u to every block
Row(u, q) == FoldLeft(LAMBDA c, i : [c EXCEPT ![q[g.t[i] + 1] + 1] = @ + EWt(g, i)], Zeros(k),
                      [j \in 1 .. x[u + 2] - x[u + 1] |-> x[u + 1] + j])

VertexOk(r, i, q, delta) ==
  LET u == r.vs[i]
      row == Row(u, q)
      own == q[u + 1]
      gain(b) == row[b + 1] - row[own + 1]
      it == r.it[i]
      got == { it[2 * j - 1] : j \in 1 .. Len(it) \div 2 }
      others == (0 .. k - 1) \ {own}
  IN /\ r.conn[i] = row
     /\ \A b \in others : r.gain[i][b + 1] = gain(b)
     /\ r.two[i] # <<>> => r.two[i][2] = gain(r.two[i][1]) /\ r.two[i][4] = gain(r.two[i][3])
     /\ (r.border # <<>> => (r.border[i] = 1) = (SumSeq(row) # row[own + 1]))
     /\ \A j \in 1 .. Len(it) \div 2 : it[2 * j] = (IF cfg.exact THEN gain(it[2 * j - 1]) ELSE row[it[2 * j - 1] + 1])
     /\ Len(it) = 2 * Cardinality(got)
     /\ got \subseteq others
     /\ IF cfg.nonadj THEN got = others
        ELSE LET adj == { b \in others : row[b + 1] > 0 } IN adj \subseteq got /\ (~delta => got = adj)

IsDump(r, q, delta) == /\ \A i \in 1 .. Len(r.vs) : VertexOk(r, i, q, delta)
                       /\ r.bw = BlockWeights(g, q, k)
Apply(q, mv) == FoldLeft(LAMBDA a, m : [a EXCEPT ![m[1] + 1] = m[3]], q, mv)

Step(r) ==
  CASE r.ev = "graph" -> g' = r.g /\ x' = r.x /\ UNCHANGED <<k, p, d, cfg>>
    [] r.ev = "init" -> /\ k' = r.k /\ p' = <<>> \o r.p /\ d' = <<>> \o r.p
                        /\ cfg' = [nonadj |-> r.nonadj, exact |-> r.exact] /\ UNCHANGED <<g, x>>
    [] r.ev = "dump" -> Holds(IsDump(r, p, FALSE)) /\ UNCHANGED <<g, x, k, p, d, cfg>>
    [] r.ev = "ddump" -> Holds(IsDump(r, d, TRUE)) /\ UNCHANGED <<g, x, k, p, d, cfg>>
    [] r.ev = "moves" -> p' = Apply(p, r.mv) /\ d' = Apply(p, r.mv) /\ UNCHANGED <<g, x, k, cfg>>
    [] r.ev = "dmoves" -> d' = Apply(d, r.mv) /\ UNCHANGED <<g, x, k, p, cfg>>
    [] r.ev = "dclear" -> d' = p /\ UNCHANGED <<g, x, k, p, cfg>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ \E r \in {Trace[l]} : Step(r)
============================================================================
