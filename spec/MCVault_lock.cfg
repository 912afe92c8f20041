\* lock2
CONSTANTS
  SiteArgs <- SitesA
  Names <- NamesX
  Revs <- RevsE
  Values <- ValuesP
  Lens <- Lens5
  NotesTexts <- NotesEN
  PPs <- PPsTwo
  Faults = {FALSE}
  MaxPws = 1
  WithLock = TRUE
  Emit = FALSE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Inv InvSaved EmitNode
PROPERTIES NoTrace Durable OnlyAddressed AliasesKeepPasswords LockedIsInert OnlyRightPassword ResetEmpties FailedSaveReported
CHECK_DEADLOCK FALSE
