------------------------------ MODULE MC_C28e -------------------------------
EXTENDS Effects
MCSpec == EInit /\ [][ENext]_evars
=============================================================================
