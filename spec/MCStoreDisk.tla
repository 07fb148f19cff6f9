---- MODULE MCStoreDisk ----
EXTENDS StoreDisk
MCPartsOf == [v \in {"empty", "whole", "two", "three"} |-> CASE v = "two" -> 2 [] v = "three" -> 3 [] OTHER -> 0]
====
