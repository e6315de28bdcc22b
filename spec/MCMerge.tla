------------------------------- MODULE MCMerge -------------------------------
EXTENDS Merge
=============================================================================
