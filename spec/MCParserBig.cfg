SPECIFICATION Spec
CONSTANTS
  Contexts <- MCContexts
  First <- MCAll
  Second <- MCAll
  Suffixes <- MCSuffixes
INVARIANTS ParserInWindow Sane
PROPERTIES Progress ScopesAreAStack BlockInfoGrows
CHECK_DEADLOCK FALSE
