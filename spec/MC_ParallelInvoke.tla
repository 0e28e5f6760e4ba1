------------------------- MODULE MC_ParallelInvoke -------------------------
EXTENDS ParallelInvoke
=============================================================================
