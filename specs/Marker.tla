------------------------------- MODULE Marker -------------------------------
(***************************************************************************)
(* Marks that are removed all at once (marker.h): a value of Bits bits     *)
(* holds an id in its upper bits and one bit per marker; marks count if    *)
(* the id is current. Resetting advances the id; before it would run out,  *)
(* all values are set to 0. MaskBits: width of the constant that separates *)
(* id and marks.                                                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Elements, Markers, Bits, MaskBits, Variant
ASSUME Variant \in {"ok", "NoClear", "Overwrite"}
VARIABLES data, id, ref
vars == <<data, id, ref>>
P == 2 ^ Markers
Upper(v) == (v - (v % P)) % (2 ^ MaskBits)
Bit(v, m) == (v \div (2 ^ m)) % 2
Set(v, m) == IF Bit(v, m) = 1 THEN v ELSE v + 2 ^ m
Init == data = [e \in Elements |-> 0] /\ id = 0 /\ ref = [m \in 0 .. Markers - 1 |-> {}]
Mark == \E e \in Elements, m \in 0 .. Markers - 1 :
          /\ data' = [data EXCEPT ![e] = IF Upper(@) = id /\ Variant # "Overwrite" THEN Set(@, m) ELSE Set(id, m)]
          /\ ref' = [ref EXCEPT ![m] = @ \union {e}] /\ UNCHANGED id
Last == 2 ^ Bits - P
Reset == LET nid == id + P IN
         /\ ref' = [m \in 0 .. Markers - 1 |-> {}]
         /\ IF nid >= Last
              THEN id' = 0 /\ data' = IF Variant = "NoClear" THEN data ELSE [e \in Elements |-> 0]
              ELSE id' = nid /\ UNCHANGED data
Next == Mark \/ Reset
Get(e, m) == Upper(data[e]) = id /\ Bit(data[e], m) = 1
Faithful == \A e \in Elements, m \in 0 .. Markers - 1 : Get(e, m) <=> e \in ref[m]
=============================================================================
