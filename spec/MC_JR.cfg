SPECIFICATION Spec
VIEW View
CONSTANTS
 Prelude <- MyPrelude
 Lines <- MyLines
 Programs <- MyPrograms
 Exits <- MyExits
 Signals <- MySignals
 Others <- MyOthers
 Mode = "i"
 MaxLive = 4
 MaxEver = 6
INVARIANTS TableOK NoZombies
PROPERTIES Waits Status Stays Fresh SurvivesI
CHECK_DEADLOCK FALSE
