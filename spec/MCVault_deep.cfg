\* deep2
CONSTANTS
  SiteArgs <- SitesABCD
  Names <- NamesX
  Revs <- RevsE
  Values <- ValuesP
  Lens <- LensNone
  NotesTexts <- NotesN
  PPs <- PPsOne
  Faults = {FALSE}
  MaxPws = 2
  WithLock = FALSE
  Emit = FALSE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Inv InvSaved EmitNode
PROPERTIES NoTrace Durable OnlyAddressed AliasesKeepPasswords LockedIsInert OnlyRightPassword ResetEmpties FailedSaveReported
CHECK_DEADLOCK FALSE
