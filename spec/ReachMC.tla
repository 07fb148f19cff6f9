------------------------------ MODULE ReachMC -------------------------------
EXTENDS Reach
mcNodes == {"a", "b", "c"}
==============================================================================
