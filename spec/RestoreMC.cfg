SPECIFICATION Spec
CONSTANTS
 Files <- mcFiles
 Pkgs <- mcPkgs
 PkgOf <- mcPkgOf
 Phys <- mcPhys
 Funcs <- mcFuncs
INVARIANT Restored
PROPERTIES Recoverable Frame
CHECK_DEADLOCK FALSE
VIEW View
