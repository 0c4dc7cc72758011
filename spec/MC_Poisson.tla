----------------------------- MODULE MC_Poisson -----------------------------
EXTENDS Poisson
V1 == -1..1
V2 == -2..2
=============================================================================
