------------------------------ MODULE TimeStep ------------------------------
(* Time-step control of Athena (new_dt.c, main.c Step 9), property C02.

   All times are integers in ticks.  A zone state gives, per active direction,
   an integer signal speed; a zone on level l has width dx[l] (in units of the
   finest width), so its crossing time with Courant number C is
   Cou * dx[m] / speed[m] (smallest over the directions m), an exact integer for the speeds used here.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES time,     \* current time of Mesh and of every Grid
          dt,       \* step that the next cycle will take (same on all Grids)
          cyc,      \* completed cycles
          courant,  \* smallest crossing time of the current state
          tlim

vars == <<time, dt, cyc, courant, tlim>>

Min(a, b) == IF a < b THEN a ELSE b

\* The step taken after the current one.
NewDt(c, t, old, first) ==
  LET grow == IF first THEN c ELSE Min(c, 2*old)
  IN  IF t < tlim /\ tlim - t < grow THEN tlim - t ELSE grow

StartWith(c, lim) == /\ time = 0 /\ cyc = 0 /\ courant = c /\ tlim = lim
                     /\ dt = IF lim > 0 /\ lim < c THEN lim ELSE c

Cycle(c) == /\ time < tlim
            /\ time' = time + dt
            /\ cyc' = cyc + 1
            /\ courant' = c
            /\ dt' = NewDt(c, time', dt, FALSE)
            /\ UNCHANGED tlim

-----------------------------------------------------------------------------
\* Signal speeds.  A zone: d density, v velocity, a2 sound speed squared, c, f
\* cell-centred and face field.
Abs(x) == IF x < 0 THEN -x ELSE x
ISqrt(x) == CHOOSE r \in 0..300 : r*r = x
EffB(z, m) == Abs(z.c[m]) + Abs(z.f[m] - z.c[m])
B2(z, m) == (EffB(z, m) * EffB(z, m)) \div z.d         \* specific field^2
Others(m) == {1, 2, 3} \ {m}
SumB2(z, S) == LET RECURSIVE s(_)
                   s(T) == IF T = {} THEN 0 ELSE LET m == CHOOSE x \in T : TRUE IN B2(z, m) + s(T \ {m})
               IN s(S)
\* fast magnetosonic speed in direction m
Fast(z, m) ==
  LET bt == SumB2(z, Others(m))
      b  == bt + B2(z, m)
      ts == b + z.a2
      td == b - z.a2
      q  == ISqrt(td*td + 4*z.a2*bt)
  IN ISqrt((ts + q) \div 2)
Speed(z, m) == Abs(z.v[m]) + Fast(z, m)

\* Crossing time of zone z (width w, Courant ticks k per unit width and speed)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
\* (w, in units of the finest width, times u[m] for direction m)
ZoneTime(z, ndim, k, w, u) == MinS({(k * w * u[m]) \div Speed(z, m) : m \in 1..ndim})
-----------------------------------------------------------------------------
\* Properties of the design
NoOvershoot == time <= tlim \/ tlim <= 0
CflBound    == dt <= courant
StepPositive == time < tlim => dt > 0
LandsOnEnd  == (time + dt > tlim) => time >= tlim
GrowthBound == [][dt' <= 2*dt]_vars
TimeAdvances == [][time' = time + dt /\ cyc' = cyc + 1]_vars
Terminates  == <>(time = tlim)
=============================================================================
