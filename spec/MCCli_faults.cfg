CONSTANTS
  Commands <- CmdsEntries
  Lines <- LinesNone
  Values <- ValuesP
  NotesTexts <- LinesNone
  PPs <- PPs1
  CodeLines <- CodesNone
  Disks <- DisksEntries
  Faults <- FaultsAny
  Shells <- ShellOnly
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS CliTypeOK AliasesOK EmitNode
PROPERTIES ConfirmedIsSaved OnlyConfirmed OnlyAddressed LockedShowsNothing OnlyRightPassword ResetEmpties ResetAsks ReplacedWithConsent FailureReported ShellStays LockLocks ExitCodes
CHECK_DEADLOCK FALSE
