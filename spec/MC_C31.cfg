SPECIFICATION Spec
VIEW View
INVARIANT TypeOK KeepsAll Recall
PROPERTY OnlyWhenGiven AsShown Prompted GoesOn
CHECK_DEADLOCK FALSE
