SPECIFICATION Spec
CONSTANT Alphabet <- MyAlphabet
CONSTANT Prelude <- MyPrelude
CONSTANT Mode = "i"
CONSTANT Args <- MyArgs
CONSTANT ExtraFs <- MyFs
VIEW View
INVARIANT TypeOK AtRest EnvFollows
PROPERTY OutputGrows BadLineInert LocksHold StagesApart LocalGone Local2 TopStays
CHECK_DEADLOCK FALSE
