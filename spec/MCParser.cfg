SPECIFICATION Spec
CONSTANTS
  Contexts <- MCContexts
  First <- MCAll
  Second <- MCSome
  Suffixes <- MCSuffixes
INVARIANTS ParserInWindow Sane
PROPERTIES Progress ScopesAreAStack BlockInfoGrows
CHECK_DEADLOCK FALSE
