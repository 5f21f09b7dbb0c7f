INIT ScriptInit
NEXT ScriptNext
VIEW ScriptView
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip MeaningKept WindowsReadable ProgramsAdvance LoopsBounded ScopesBalanced FatalLocated TokensNest ParentsRight TextRight Repeatable
PROPERTIES LoopsProgress OuterScopesKept FatalIsFatal FatalOutcome ErrorsHoisted NothingElseMoves HooksOnce
