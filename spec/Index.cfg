SPECIFICATION Spec
CONSTANTS
  NBlocks = 3
  NVers = 2
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANT TypeOK
PROPERTIES ReadsPure Local
CHECK_DEADLOCK FALSE
