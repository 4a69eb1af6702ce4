-------------------------- MODULE CollectivesGen --------------------------
EXTENDS Collectives
\* only the initial states: one per program
GNext == FALSE /\ UNCHANGED cvars
GSpec == CInit /\ [][GNext]_cvars
=============================================================================
