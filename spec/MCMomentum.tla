---------------------------- MODULE MCMomentum ----------------------------
EXTENDS MomentumMachine
NKdef == <<4, 3, 2>>
=============================================================================
