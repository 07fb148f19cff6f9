SPECIFICATION Spec
CONSTANTS
 Mods <- gMods
 ModFiles <- gModFiles
INVARIANTS Untouched Emit
