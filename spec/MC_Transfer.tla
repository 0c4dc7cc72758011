---------------------------- MODULE MC_Transfer -----------------------------
(* Theorems about Transfer, checked for all small windows and, for the face
   field (whose interior faces are linear in the outer ones), for a basis. *)
EXTENDS Transfer, TLC, Randomization
CONSTANT V              \* values of coarse zones
VARIABLE case
Win(nd) == [1..(1 + 2*nd) -> V]
\* one- to three-dimensional windows
WInit == case \in ({<<"w", 1, w>> : w \in Win(1)} \union {<<"w", 2, w>> : w \in Win(2)} \union {<<"w", 3, w>> : w \in RandomSubset(3000, Win(3))})
\* outer faces of a block: 24 of them
Slots == {<<1, <<n,m,l>>>> : n \in B01, m \in B01, l \in {0,2}} \union {<<2, <<n,m,l>>>> : n \in B01, m \in {0,2}, l \in B01}
         \union {<<3, <<n,m,l>>>> : n \in {0,2}, m \in B01, l \in B01}
Us == {<<1,1,1>>, <<2,1,1>>, <<1,2,1>>, <<1,1,2>>, <<1,2,2>>, <<2,1,2>>, <<2,2,1>>}
Basis == {[s \in Slots |-> IF s = t THEN 640 ELSE 0] : t \in Slots} \union {[s \in Slots |-> 640*((s[1] + s[2][1] + 2*s[2][2] + 3*s[2][3]) % 5)]}
FInit == case \in {<<"f", u, f>> : u \in Us, f \in Basis}
Init == WInit \/ FInit
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
P(f, a) == [z \in {s[2] : s \in {t \in Slots : t[1] = a}} |-> f[<<a, z>>]]
\* the average of a block is the coarse value
Average == case[1] = "w" => \A first \in {TRUE, FALSE} :
             Sum([z \in Cells(case[2]) |-> ProZone(case[3], case[2], first, z)]) = 8*Cardinality(Cells(case[2]))*case[3][1]
\* linear data are reproduced: window c, c-g, c+g per axis
Linear == case[1] = "w" => LET w == case[3]
                               nd == case[2]
                           IN (\A m \in 1..nd : w[1] - w[2*m] = w[2*m+1] - w[1]) =>
                               \A z \in Cells(nd) : LET x == <<z[3], z[2], z[1]>> IN
                                  ProZone(w, nd, FALSE, z) = 8*w[1] + 2*Sum([m \in 1..nd |-> Sg(x[m])*(w[2*m+1] - w[1])])
\* no fine value outside the range of the neighbours along an axis
Monotone == case[1] = "w" /\ case[2] = 1 => LET w == case[3] IN
              \A z \in Cells(1) : /\ ProZone(w, 1, FALSE, z) <= 8*Max(w[1], Max(w[2], w[3]))
                                  /\ ProZone(w, 1, FALSE, z) >= 8*Min(w[1], Min(w[2], w[3]))
\* mirror images
Mirror == case[1] = "w" /\ case[2] = 1 => LET w == case[3] IN
            ProZone(w, 1, FALSE, <<0,0,0>>) = ProZone(<<w[1], w[3], w[2]>>, 1, FALSE, <<0,0,1>>)
\* divergence (times the volume of a coarse zone u1 u2 u3) of a fine zone, and of the whole block
Div(f, u, z) ==
  LET p1 == P(f, 1)
      p2 == P(f, 2)
      p3 == P(f, 3)
      I == Inter(p1, p2, p3, u)
      X(l) == IF l = 1 THEN I.x1[<<z[1], z[2]>>] ELSE p1[<<z[1], z[2], l>>]
      Y(m) == IF m = 1 THEN I.x2[<<z[1], z[3]>>] ELSE p2[<<z[1], m, z[3]>>]
      Z(n) == IF n = 1 THEN I.x3[<<z[2], z[3]>>] ELSE p3[<<n, z[2], z[3]>>]
  IN 2*(u[2]*u[3]*(X(z[3]+1) - X(z[3])) + u[1]*u[3]*(Y(z[2]+1) - Y(z[2])) + u[1]*u[2]*(Z(z[1]+1) - Z(z[1])))
Whole(f, u) == LET q(a, z) == f[<<a, z>>] IN
   u[2]*u[3]*Sum([t \in B01 \X B01 |-> q(1, <<t[1],t[2],2>>) - q(1, <<t[1],t[2],0>>)])
 + u[1]*u[3]*Sum([t \in B01 \X B01 |-> q(2, <<t[1],2,t[2]>>) - q(2, <<t[1],0,t[2]>>)])
 + u[1]*u[2]*Sum([t \in B01 \X B01 |-> q(3, <<2,t[1],t[2]>>) - q(3, <<0,t[1],t[2]>>)])
Divergence == case[1] = "f" => LET u == case[2]
                                   f == case[3]
                               IN \A z \in B01 \X B01 \X B01 : 4*Div(f, u, z) = Whole(f, u)
=============================================================================
