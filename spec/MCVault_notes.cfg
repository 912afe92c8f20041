\* notes2
CONSTANTS
  SiteArgs <- SitesA
  Names <- NamesX
  Revs <- RevsE12
  Values <- ValuesPQ
  Lens <- Lens57
  NotesTexts <- NotesENM
  PPs <- PPsOne
  Faults = {FALSE}
  MaxPws = 3
  WithLock = FALSE
  Emit = FALSE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Inv InvSaved EmitNode
PROPERTIES NoTrace Durable OnlyAddressed AliasesKeepPasswords LockedIsInert OnlyRightPassword ResetEmpties FailedSaveReported
CHECK_DEADLOCK FALSE
