SPECIFICATION Spec30
CONSTANT Alphabet <- MyAlphabet
CONSTANT Prelude <- MyPrelude
CONSTANT Mode = "i"
CONSTANT Args <- MyArgs
CONSTANT ExtraFs <- MyFs
CONSTANT Startup <- MyStartup
VIEW View30
INVARIANT TypeOK AtRest EnvFollows AsTyped Starts Broken
PROPERTY OutputGrows BadLineInert LocksHold
CHECK_DEADLOCK FALSE
