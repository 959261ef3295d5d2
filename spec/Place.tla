--------------------------------- MODULE Place ---------------------------------
(***************************************************************************)
(* Where a caller can put the five buffers of a call: k n a x o.            *)
(* "single": every buffer in a region of its own, at an offset from an       *)
(*   aligned start; "packed": all in one region, in some order, with a gap    *)
(*   between neighbours and an offset of the first.                           *)
(* An address is modelled by its residue modulo Align; two placements are      *)
(* equivalent for an implementation that only looks at single residues if      *)
(* they agree on all residues.  Singles enumerate every residue of every       *)
(* buffer with all others aligned, every common residue, and pairs of          *)
(* residues of input and output (the loops that read one and write the         *)
(* other); Packed enumerates every order.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Align, Deep
Bufs == {"k", "n", "a", "x", "o"}

VARIABLE p
Zero == [b \in Bufs |-> 0]
Single ==
  { [Zero EXCEPT ![b] = r] : b \in Bufs, r \in 0..(Align - 1) }
  \cup { [b \in Bufs |-> r] : r \in 0..(Align - 1) }
  \cup { [Zero EXCEPT !["x"] = r, !["o"] = s] : r \in 0..7, s \in 0..7 }
  \cup { [Zero EXCEPT !["k"] = r, !["n"] = s] : r \in 0..7, s \in 0..7 }
  \cup { [Zero EXCEPT !["a"] = r, !["o"] = s, !["x"] = 1] : r \in 0..3, s \in 0..3 }
  \* last bytes on the next page, or the page ends inside the buffer
  \cup { [Zero EXCEPT ![b] = 4096 - r] : b \in Bufs, r \in {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 17, 21} }
Perms == { q \in [1..5 -> Bufs] : Cardinality({ q[z] : z \in 1..5 }) = 5 }
Packed == { [order |-> q, gap |-> g, off |-> f] : q \in Perms, g \in (IF Deep THEN {0, 1, 3, 5, 16} ELSE {0, 3}), f \in (IF Deep THEN 0..7 ELSE {0}) }

\* the last Tail bytes of the inputs begin Dist bytes before the end of a page
Edge == { [tail |-> t, dist |-> d] : t \in 0..17, d \in 0..(IF Deep THEN 36 ELSE 18) }
PInit == p = [kind |-> "none"]
PNext == p.kind = "none" /\ \/ \E s \in Single : p' = [kind |-> "single", off |-> s]
                            \/ \E q \in Packed : p' = [kind |-> "packed", order |-> q.order, gap |-> q.gap, off |-> q.off]
                            \/ \E e \in Edge : p' = [kind |-> "edge", tail |-> e.tail, dist |-> e.dist]
Emit == p.kind # "none" => PrintT("PLACE " \o ToJson(p))
================================================================================
