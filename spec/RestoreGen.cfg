SPECIFICATION Spec
CONSTANTS
 Files <- gFiles
 Pkgs <- gPkgs
 PkgOf <- gPkgOf
 Phys <- gPhys
 Funcs <- gFuncs
INVARIANTS Ok Emit
