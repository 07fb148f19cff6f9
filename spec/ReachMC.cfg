SPECIFICATION Spec
CONSTANT Nodes <- mcNodes
INVARIANTS Exact Once Sound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
