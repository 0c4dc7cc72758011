----------------------------- MODULE MC_Particles -----------------------------
(* Every move of one particle on small Meshes: all targets up to one Grid away, all boundary conditions, both orders of the two sides, rounding. *)
EXTENDS Particles
CONSTANTS ND, CUTS, REACH
VARIABLES m, q, cs, step
vars == <<m, q, cs, step>>
Cuts1 == {<<0, 2>>, <<0, 2, 4>>, <<0, 3, 5>>}
Cuts2 == {<<0, 2>>, <<0, 2, 4>>}
Cuts3 == {<<0, 2, 4>>}
CutSet == CASE CUTS = 1 -> Cuts1 [] CUTS = 2 -> Cuts2 [] OTHER -> Cuts3
BCs == {<<"p", "p">>, <<"r", "r">>, <<"o", "o">>, <<"r", "o">>, <<"o", "r">>}
Near(mm, k, g) == (Lo(mm, k, g) - 4 * REACH - 1) .. (Hi(mm, k, g) + 4 * REACH + 1)
Lat(S) == {x \in S : x % 4 # 2}
Init ==
  /\ \E c \in [1 .. ND -> CutSet], b \in [1 .. ND -> BCs] : m = [nd |-> ND, cut |-> c, bc |-> b]
  /\ \E g \in [1 .. ND -> 1 .. 2] :
       /\ \A k \in 1 .. ND : g[k] <= NGrids(m, k)
       /\ \E t \in [1 .. ND -> UNION {Lat(Near(m, k, g[k])) : k \in 1 .. ND}] :
            /\ \A k \in 1 .. ND : t[k] \in Near(m, k, g[k])
            /\ q = t /\ cs = Start(m, g, t)
  /\ step = 1
Next ==
  \/ /\ step <= ND
     /\ \E r \in -1 .. 1, up \in BOOLEAN :
          cs' = Pass(m, step, Pass(m, step, cs, up, r), ~up, r)
     /\ step' = step + 1 /\ UNCHANGED <<m, q>>
  \/ /\ step = ND + 1
     /\ cs' = Clean(m, cs) /\ step' = ND + 2 /\ UNCHANGED <<m, q>>
Spec == Init /\ [][Next]_vars
ExactlyOnce == step = ND + 2 => Placed(m, q, {[g |-> c.g, q |-> c.q, fl |-> c.fl, n |-> c.n] : c \in cs})
\* binning conserves: the weights of a particle anywhere in the domain add up to one where nothing leaves (U = 8 only, checked once)
Conserves == \A b \in {<<"p", "p">>, <<"r", "r">>}, i \in 1 .. 3, p \in 0 .. 31 :
   LET mm == [nd |-> 1, cut |-> <<(<<0, 4>>)>>, bc |-> <<b>>]
       Sum[z \in 0 .. 4] == IF z = 0 THEN 0 ELSE Sum[z - 1] + WM(mm, i, 1, p, z - 1)
   IN Sum[4] = 128
ASSUME Conserves
=============================================================================
