---------------------------- MODULE MC_LedgerPot ----------------------------
EXTENDS LedgerPot
=============================================================================
