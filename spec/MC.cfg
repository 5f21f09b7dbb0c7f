INIT MCInit
NEXT MCNext
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS MeaningKept WindowsReadable ProgramsAdvance LoopsBounded ScopesBalanced FatalLocated TokensNest ParentsRight TextRight Repeatable DebugTransparent
PROPERTIES LoopsProgress OuterScopesKept FatalIsFatal FatalOutcome ErrorsHoisted NothingElseMoves HooksOnce
