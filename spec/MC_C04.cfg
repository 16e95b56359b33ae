SPECIFICATION Spec
CONSTANT Alphabet <- MyAlphabet
CONSTANT Prelude <- MyPrelude
CONSTANT Mode = "f"
CONSTANT Args <- MyArgs
CONSTANT ExtraFs <- MyFs
VIEW View
INVARIANT TypeOK AtRest EnvFollows
PROPERTY OutputGrows BadLineInert LocksHold StagesApart BadStatus
CHECK_DEADLOCK FALSE
