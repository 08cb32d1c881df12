SPECIFICATION Spec
INVARIANTS LevelLength OnlyBehaviourOfTheLog FinishedAreShort AllFrequentShortWords Closed NothingLost
CHECK_DEADLOCK FALSE
