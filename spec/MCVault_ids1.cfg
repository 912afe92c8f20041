\* ids2
CONSTANTS
  SiteArgs <- SitesAW
  Names <- NamesXY
  Revs <- RevsE12
  Values <- ValuesP
  Lens <- Lens5
  NotesTexts <- NotesEN
  PPs <- PPsOne
  Faults = {FALSE}
  MaxPws = 1
  WithLock = FALSE
  Emit = FALSE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Inv InvSaved EmitNode
PROPERTIES NoTrace Durable OnlyAddressed AliasesKeepPasswords LockedIsInert OnlyRightPassword ResetEmpties FailedSaveReported
CHECK_DEADLOCK FALSE
