\* Contents of the storage: three sites, two primary spellings, no locking
CONSTANTS
  SiteArgs <- SitesABC
  Names <- NamesX
  Revs <- RevsE
  Values <- ValuesP
  Lens <- Lens5
  NotesTexts <- NotesEN
  PPs <- PPsOne
  Faults = {FALSE}
  MaxPws = 2
  WithLock = FALSE
  Emit = FALSE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Inv InvSaved EmitNode
PROPERTIES NoTrace Durable OnlyAddressed AliasesKeepPasswords LockedIsInert OnlyRightPassword ResetEmpties FailedSaveReported
CHECK_DEADLOCK FALSE
