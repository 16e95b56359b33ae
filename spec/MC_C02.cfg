SPECIFICATION Spec
CONSTANT Alphabet <- MyAlphabet
CONSTANT Prelude <- MyPrelude
CONSTANT Mode = "i"
CONSTANT Args <- MyArgs
CONSTANT ExtraFs <- MyFs
VIEW View
INVARIANT TypeOK AtRest EnvFollows
PROPERTY ShortCircuit OutputGrows BadLineInert LocksHold StagesApart
CHECK_DEADLOCK FALSE
