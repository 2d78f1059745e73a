----------------------------- MODULE MC_Layers -----------------------------
(***************************************************************************)
(* Light cones of brick-wall networks: layers of interferometers on        *)
(* neighbouring modes are added one by one; the entries that can be        *)
(* non-zero stay within the promised band, and reach its edge.             *)
(***************************************************************************)
EXTENDS RandomClasses
CONSTANT MaxN
VARIABLES n, first, top, w, supp
Init == n \in 1..MaxN /\ first \in BOOLEAN /\ top = first /\ w = 0 /\ supp = Diagonal(n)
Next == /\ w < n - 1 /\ w' = w + 1 /\ top' = ~top
        /\ supp' = Compose(n, supp, LayerSupport(n, top))
        /\ UNCHANGED <<n, first>>
InBand == supp \subseteq Band(n, w)
(* with as many layers as modes less one, the network need not reach every pair of modes: *)
(* the full interferometer is drawn at once then *)
Edge == w <= n - 2 => Bandwidth(supp) = w
Same == supp = LayersSupport(n, w, first)
Blocks == \A t \in BOOLEAN : \A i \in 1..n : LET b == {j \in 1..n : BlockOf(n, t, j) = BlockOf(n, t, i)} IN
            Cardinality(b) <= 2 /\ (Cardinality(b) = 1 => (i = n \/ (i = 1 /\ t)))
Symmetric == \A p \in supp : w <= 1 => <<p[2], p[1]>> \in supp
=============================================================================
